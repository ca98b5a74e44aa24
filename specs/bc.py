"""Reference laws of the boundary conditions."""
from festim import (k_B, FluxBC, RecombinationFlux, DissociationFlux, ConvectiveFlux, MassFlux, CustomFlux,
                    SurfaceKinetics, BoundaryConditionTheta)
from fenics import *
import sympy as sp
import festim
from spec_transport import arrh, local_conc


def given(x):
    """a user-provided number or sympy expression as a function of space and time"""
    return Expression(sp.printing.ccode(x), t=0)


def inward_flux(bc, T, c):
    if isinstance(bc, RecombinationFlux):
        return -arrh(given(bc.Kr_0), given(bc.E_Kr), T) * c**bc.order
    if isinstance(bc, DissociationFlux):
        return arrh(given(bc.Kd_0), given(bc.E_Kd), T) * given(bc.P)
    if isinstance(bc, ConvectiveFlux):
        return -given(bc.h_coeff) * (T - given(bc.T_ext))
    if isinstance(bc, MassFlux):
        return -given(bc.h_coeff) * (c - given(bc.c_ext))
    if isinstance(bc, CustomFlux):
        return bc.function(T, c, **bc.prms)
    return given(bc.value)


def flux_form(bcs, T, c, v, ds):
    """every flux condition of the solute enters once per surface"""
    F = 0
    for bc in bcs:
        if bc.field != "T" and isinstance(bc, FluxBC) and not isinstance(bc, SurfaceKinetics):
            for s in bc.surfaces:
                F += -inward_flux(bc, T, c) * v * ds(s)
    return F


def heat_flux_form(bcs, T, v, ds):
    F = 0
    for bc in bcs:
        if isinstance(bc, FluxBC):
            for s in bc.surfaces:
                F += -inward_flux(bc, T, None) * v * ds(s)
    return F


def rate(k, T, cs, c, prms):
    return k(T, cs, c, **prms) if callable(k) else k


def surface_kinetics_form(bcs, T, c, cn, v, ds, dt):
    """surface balance and its counterpart in the bulk, on every surface of the condition"""
    F = 0
    for bc in bcs:
        if bc.field != "T":
            for i, s in enumerate(bc.surfaces):
                cs, csn, w = bc.solutions[i], bc.previous_solutions[i], bc.test_functions[i]
                net = (rate(bc.k_bs, T.T, cs, c, bc.prms) * c * (1 - cs / bc.n_surf)
                       - rate(bc.k_sb, T.T, cs, c, bc.prms) * cs * (1 - c / bc.n_IS))
                if dt is not None:
                    F += (cs - csn) / dt.value * w * ds(s) + bc.lambda_IS * (c - cn) / dt.value * v * ds(s)
                F += (net * v - (rate(bc.J_vs, T.T, cs, c, bc.prms) + net) * w) * ds(s)
    return F


# ---- values imposed by the Dirichlet conditions, at a point x
def probe(self, T, value, x):
    """what the code imposes at x"""
    self.create_expression(T)
    self.expression.eval(value, x)
    return value[0]


def sieverts_value(self, T, value, x):
    return arrh(self.S_0, self.E_S, T(x)) * given(self.pressure)(x) ** 0.5


def henrys_value(self, T, value, x):
    return arrh(self.H_0, self.E_H, T(x)) * given(self.pressure)(x)


def implantation_value(self, T, value, x):
    phi = given(self.phi)(x)
    c = phi * given(self.R_p)(x) / arrh(self.D_0, self.E_D, T(x))
    if self.Kr_0 is not None:
        Kr = arrh(self.Kr_0, self.E_Kr, T(x))
        if self.Kd_0 is not None:
            c += ((phi + arrh(self.Kd_0, self.E_Kd, T(x)) * given(self.P)(x)) / Kr) ** 0.5
        else:
            c += (phi / Kr) ** 0.5
    return c


def local(p, x):
    if callable(p):
        if isinstance(p, Constant):
            return float(p)
        return p(x)
    return p


def custom_value(self, T, value, x):
    return self.function(T(x), **{k: local(p, x) for k, p in self.prms.items()})


def theta_bc_probe(bci, materials, vm, T, value, x, ufc_cell):
    e = BoundaryConditionTheta(bci, materials, vm, T)
    e.eval_cell(value, x, ufc_cell)
    return value[0]


def theta_bc_value(bci, materials, vm, T, value, x, ufc_cell):
    mat = materials.find_material_from_id(vm[Cell(vm.mesh(), ufc_cell.index)])
    c = bci(x) / arrh(mat.S_0, mat.E_S, T(x))
    if mat.solubility_law == "sievert":
        return c
    if mat.solubility_law == "henry":
        return (c + DOLFIN_EPS) ** 0.5
    return value[0]


def dirichlet_expression(self):
    return given(self.value)


def imposed(self, V, surface_markers, expr):
    W = V if V.num_sub_spaces() == 0 else V.sub(self.field)
    return [DirichletBC(W, expr, surface_markers, s) for s in self.surfaces]


def imposed_on(self, V, T, surface_markers, chemical_pot, materials, volume_markers):
    self.create_expression(T)
    e = self.expression
    if self.field == 0 and chemical_pot:
        e = BoundaryConditionTheta(e, materials, volume_markers, T)
    W = V if V.num_sub_spaces() == 0 else V.sub(self.field)
    return [DirichletBC(W, e, surface_markers, s) for s in self.surfaces]


def all_imposed(self, materials, mesh):
    out = []
    for bc in self.boundary_conditions:
        if isinstance(bc, festim.DirichletBC) and bc.field != "T":
            bc.create_dirichletbc(self.V, self.T.T, mesh.surface_markers, self.settings.chemical_pot, materials, mesh.volume_markers)
            out += bc.dirichlet_bc
    return out


def all_imposed_T(self, surface_markers):
    out = []
    for bc in self.boundary_conditions:
        if isinstance(bc, festim.DirichletBC) and bc.field == "T":
            bc.create_expression(self.T)
            out += [DirichletBC(self.T.function_space(), bc.expression, surface_markers, s) for s in bc.surfaces]
    return out


# ---- parameters of the laws that may depend on time
def law_inputs(bc):
    if isinstance(bc, RecombinationFlux):
        return [given(bc.Kr_0), given(bc.E_Kr)]
    if isinstance(bc, DissociationFlux):
        return [given(bc.Kd_0), given(bc.E_Kd), given(bc.P)]
    if isinstance(bc, ConvectiveFlux):
        return [given(bc.h_coeff), given(bc.T_ext)]
    if isinstance(bc, MassFlux):
        return [given(bc.h_coeff), given(bc.c_ext)]
    if isinstance(bc, CustomFlux) or isinstance(bc, SurfaceKinetics):
        return list(bc.prms.values())
    return [given(bc.value)]


def solute_flux_inputs(self):
    out = []
    for bc in self.boundary_conditions:
        if bc.field != "T":
            out += law_inputs(bc)
    return out


def all_flux_inputs(self):
    out = []
    for bc in self.boundary_conditions:
        out += law_inputs(bc)
    return out


def dirichlet_law_inputs(self, T):
    if isinstance(self, festim.ImplantationDirichlet):
        out = [given(self.phi), given(self.R_p)]
        if self.Kr_0 is not None and self.Kd_0 is not None:
            out.append(given(self.P))
        return out
    if isinstance(self, festim.SievertsBC) or isinstance(self, festim.HenrysBC):
        return [given(self.pressure)]
    if isinstance(self, festim.CustomDirichlet):
        return list(self.prms.values())
    return []


def converted(x):
    return Constant(x) if isinstance(x, (int, float)) else Expression(sp.printing.ccode(x), t=0)


def two_prms(first, second):
    return [converted(first), converted(second)]


def prms_CustomFlux(first, second, surfaces, function, field):
    bc = CustomFlux(surfaces=surfaces, function=function, field=field, p=first, q=second)
    return [bc.prms["p"], bc.prms["q"]]


def prms_CustomDirichlet(first, second, surfaces, function, field):
    bc = festim.CustomDirichlet(surfaces=surfaces, function=function, field=field, p=first, q=second)
    return [bc.prms["p"], bc.prms["q"]]


def prms_SurfaceKinetics(first, second, surfaces, k, n):
    bc = SurfaceKinetics(k_sb=k, k_bs=k, lambda_IS=n, n_surf=n, n_IS=n, J_vs=k, surfaces=surfaces, initial_condition=0, p=first, q=second)
    return [bc.prms["p"], bc.prms["q"]]
