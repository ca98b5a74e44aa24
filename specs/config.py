"""Which models and arguments have to be refused (read by the analysis, never run)."""
import festim
from fenics import *
import sympy as sp
import numpy as np
from operator import itemgetter


def bad_sim(self):
    if not self.settings.transient:
        if self.dt is not None:
            return True
    else:
        if self.settings.final_time is None or self.dt is None:
            return True
    return not self.T


def bad_adsorbed(self):
    for export in self.exports:
        if isinstance(export, festim.DerivedQuantities):
            for q in export:
                if isinstance(q, festim.AdsorbedHydrogen):
                    if not any(isinstance(bc, festim.SurfaceKinetics) and q.surface in bc.surfaces for bc in self.boundary_conditions):
                        return True
    return False


def bad_adsorbed_or_sim(self):
    return bad_sim(self) or bad_adsorbed(self)


def bad_heat_source(self):
    for s in self.sources:
        if s.field == "T" and not isinstance(self.T, festim.HeatTransferProblem):
            return True
    return False


def known_field(self, field):
    if field == "T" or field == 0 or field == "0":
        return True
    for i, _ in enumerate(self.traps):
        if field == i + 1 or field == str(i + 1):
            return True
    return False


def exclusive(bc):
    return isinstance(bc, festim.DirichletBC) or isinstance(bc, festim.SurfaceKinetics)


def bad_bcs(self):
    for bc in self.boundary_conditions:
        if not known_field(self, bc.field):
            return True
    for bc in self.boundary_conditions:
        if isinstance(bc, festim.SurfaceKinetics) and self.mesh.mesh.topology().dim() != 1:
            return True
    for bc in self.boundary_conditions:
        if bc.field == "T" and not isinstance(self.T, festim.HeatTransferProblem):
            return True
    for bc in self.boundary_conditions:
        for other in self.boundary_conditions:
            if exclusive(other) and bc != other and bc.field == other.field:
                if not set(bc.surfaces).isdisjoint(other.surfaces):
                    return True
    return False


def bad_dims(self):
    d = self.mesh.mesh.topology().dim()
    return (self.mesh.type == "spherical" and d != 1) or (self.mesh.type == "cylindrical" and d > 2)


def bad_measures(self, materials):
    return len(materials) > 1 and any(m.borders is None for m in materials)


def all_borders(mats):
    out = []
    for m in mats:
        if isinstance(m.borders[0], list):
            for b in m.borders:
                out.append(b)
        else:
            out.append(m.borders)
    return sorted(out, key=itemgetter(0))


def bad_borders(self, size):
    b = all_borders(self)
    if b[0][0] != 0:
        return True
    for i in range(0, len(b) - 1):
        if b[i][1] != b[i + 1][0]:
            return True
    return b[len(b) - 1][1] != size


def bad_ids(self):
    ids = []
    for m in self:
        if isinstance(m.id, list):
            ids += m.id
        else:
            ids.append(m.id)
    return len(ids) != len(np.unique(ids))


def bad_consistency(self):
    for a in ("S_0", "E_S", "thermal_cond", "heat_capacity", "rho", "borders", "Q"):
        given = [getattr(m, a) for m in self]
        if given.count(None) not in [0, len(self)]:
            return True
    return False


def bad_missing(self, T):
    if isinstance(T, festim.HeatTransferProblem):
        if self[0].thermal_cond is None:
            return True
        if T.transient and (self[0].heat_capacity is None or self[0].rho is None):
            return True
    return False


def bad_material(S_0, E_S, solubility_law):
    return solubility_law not in ["henry", "sievert"] or (S_0 is None) != (E_S is None)


def bad_trap_materials(k_0, E_k, p_0, E_p, materials, density, id):
    ms = materials if isinstance(materials, list) else [materials]
    for m in ms:
        if not isinstance(m, (str, festim.Material)):
            return True
    return False


def bad_duplicates(self, materials):
    ms = [materials.find_material(m) for m in self.materials]
    self.materials = ms
    return len(ms) != len(set(ms))


def bad_decay(decay_constant):
    return not isinstance(decay_constant, (int, float)) or decay_constant <= 0


def bad_ic(value, label, time_step):
    return type(value) is str and value.endswith(".xdmf") and (label is None or time_step is None)


def bad_heat_ic(self):
    return self.transient and self.initial_condition is None


def bad_T_file(filename, label):
    return label not in festim.extract_xdmf_labels(filename)


def all_checked(self, T, derived_quantities):
    if len(self) > 0:
        self.check_consistency()
        self.check_unique_ids()
        self.check_missing_properties(T, derived_quantities)


def borders_checked(self, materials):
    if materials[0].borders is not None:
        materials.check_borders(self.size)
