"""How a simulation is set up (read by the analysis, never run)."""
import festim
from fenics import *
import numpy as np


def contradictory(self):
    if self.settings.transient:
        return self.settings.final_time is None or self.dt is None or not self.T
    return self.dt is not None or not self.T


def set_up(self):
    if contradictory(self):
        raise AttributeError("refused")
    self.t = 0
    self.mobile = festim.Theta() if self.settings.chemical_pot else festim.Mobile()
    if self.settings.transient:
        self.dt.initialise_value()
    self.h_transport_problem = festim.HTransportProblem(self.mobile, self.traps, self.T, self.settings, self.initial_conditions)
    self.attribute_source_terms()
    self.attribute_boundary_conditions()
    self.check_mesh_dim_coords()
    if isinstance(self.mesh, festim.Mesh1D):
        self.mesh.define_measures(self.materials)
    else:
        self.mesh.define_measures()
    self.V_DG1 = FunctionSpace(self.mesh.mesh, "DG", 1)
    self.exports.V_DG1 = self.V_DG1
    self.exports.nb_iterations = 0
    if isinstance(self.T, festim.HeatTransferProblem):
        self.T.create_functions(self.materials, self.mesh, self.dt)
    else:
        self.T.create_functions(self.mesh)
    self.materials.check_materials(self.T, derived_quantities=[])
    self.materials.create_properties(self.mesh.volume_markers, self.T.T)
    self.materials.create_solubility_law_markers(self.mesh)
    if self.settings.chemical_pot and self.T.is_steady_state():
        self.materials.solubility_as_function(self.mesh, self.T.T)
    self.h_transport_problem.initialise(self.mesh, self.materials, self.dt)
    self.exports.initialise_derived_quantities(self.mesh.dx, self.mesh.ds, self.materials)


def set_up_exports(self):
    set_up(self)
    for export in self.exports:
        if isinstance(export, festim.DerivedQuantities):
            for q in export:
                if isinstance(q, festim.AdsorbedHydrogen):
                    found = False
                    for bc in self.boundary_conditions:
                        if isinstance(bc, festim.SurfaceKinetics) and q.surface in bc.surfaces:
                            found = True
                    if not found:
                        raise AttributeError("no surface kinetics there")
                if isinstance(q, festim.SurfaceFlux):
                    q.soret = self.settings.soret
                    q.T = self.T.T
        elif isinstance(export, festim.XDMFExport):
            export.define_xdmf_file()
            export.append = False
        elif isinstance(export, festim.TXTExport):
            export.initialise(self.mesh.mesh, self.settings.chemical_pot or self.settings.traps_element_type == "DG", self.materials)


def h_set_up(self, mesh, materials, dt):
    if self.settings.chemical_pot:
        self.mobile.S = materials.S
        self.mobile.materials = materials
        self.mobile.volume_markers = mesh.volume_markers
        self.mobile.T = self.T
    self.attribute_flux_boundary_conditions()
    self.traps.assign_traps_ids()
    self.define_function_space(mesh)
    self.initialise_concentrations()
    self.traps.make_traps_materials(materials)
    self.traps.initialise_extrinsic_traps(self.V_CG1)
    if self.settings.chemical_pot:
        self.mobile.create_form_post_processing(self.V_DG1, materials, mesh.dx)
    self.define_variational_problem(materials, mesh, dt)
    self.define_newton_solver()
    self.create_dirichlet_bcs(materials, mesh)
    if self.settings.transient:
        self.traps.define_variational_problem_extrinsic_traps(mesh.dx, dt, self.T)
        self.traps.define_newton_solver_extrinsic_traps()


def times_reached(self):
    if contradictory(self):
        raise AttributeError("refused")
    ms = []
    if self.dt.milestones:
        ms = list(self.dt.milestones)
    for export in self.exports:
        if export.times:
            for x in export.times:
                if x not in ms:
                    ms.append(x)
    return sorted(ms)


def bcs_attributed(self):
    self.check_boundary_conditions()
    hot, rest = [], []
    for bc in self.boundary_conditions:
        if bc.field == "T":
            hot.append(bc)
        else:
            rest.append(bc)
    return [hot, rest]


def flux_added(self):
    out = list(self.mobile.boundary_conditions)
    for bc in self.boundary_conditions:
        if isinstance(bc, festim.FluxBC):
            if bc.field == 0:
                out.append(bc)
    return out


def quantities_ready(self, dx, ds, materials):
    for export in self:
        if isinstance(export, festim.DerivedQuantities):
            export.data = []
            export.t = []
            for q in export:
                q.data = []
                q.t = []
                q.dx = dx
                q.ds = ds
                q.n = FacetNormal(dx.subdomain_data().mesh())
                q.D = materials.D
                q.S = materials.S
                q.thermal_cond = materials.thermal_cond
                q.Q = materials.Q
            export.volume_markers = dx.subdomain_data()


def traps_made(self, materials):
    for trap in self:
        trap.make_materials(materials)


def trap_numbers(self):
    for i, trap in enumerate(self):
        if trap.id is None:
            trap.id = i + 1


def found_trap(self, id):
    for i in range(len(self)):
        if self[i].id == id:
            return self[i]
    raise ValueError("no such trap")


def densities_ready(self, V):
    for trap in self:
        if isinstance(trap, festim.ExtrinsicTrapBase):
            trap.density = [Function(V)]
            trap.density_test_function = TestFunction(V)
            trap.density_previous_solution = project(Constant(0), V)


def densities_stated(self, dx, dt, T):
    for trap in self:
        if isinstance(trap, festim.ExtrinsicTrapBase):
            trap.create_form_density(dx, dt, T)


def density_solvers(self):
    for trap in self:
        if isinstance(trap, festim.ExtrinsicTrapBase):
            trap.define_newton_solver()


def one_or_all(found):
    if len(found) == 1:
        return found[0]
    return found


def as_list(x):
    return x if isinstance(x, list) else [x]


def filtered(self, surfaces, volumes, fields, instances):
    found = []
    for q in self:
        ok = True
        if surfaces is not None:
            ok = ok and hasattr(q, "surface") and q.surface in as_list(surfaces)
        if volumes is not None:
            ok = ok and hasattr(q, "volume") and q.volume in as_list(volumes)
        if fields is not None:
            ok = ok and q.field in as_list(fields)
        if instances is not None:
            ok = ok and isinstance(q, tuple(as_list(instances)))
        if ok:
            found.append(q)
    return one_or_all(found)
