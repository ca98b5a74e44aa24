"""Reference assembly, stepping and solving protocols (read by the analysis, never run)."""
import festim
from fenics import *
import numpy as np


def assembled_form(self, materials, mesh, dt):
    self.mobile.create_form(materials, mesh, self.T, dt, self.traps, self.settings.soret)
    self.traps.create_forms(self.mobile, materials, self.T, mesh.dx, dt)
    return self.mobile.F + self.traps.F


def assembled_expressions(self, materials, mesh, dt):
    self.mobile.create_form(materials, mesh, self.T, dt, self.traps, self.settings.soret)
    self.traps.create_forms(self.mobile, materials, self.T, mesh.dx, dt)
    return [*self.mobile.sub_expressions, *self.traps.sub_expressions]


def all_trap_forms(self, mobile, materials, T, dx, dt):
    F = 0
    for trap in self:
        trap.create_form(mobile, materials, T, dx, dt)
        F += trap.F
    return F


# ---- attribution
def src_mobile(self):
    out = []
    for s in self.sources:
        if isinstance(s, festim.RadioactiveDecay) and s.field == "all":
            out.append(s)
        elif s.field in ["solute", "0", 0, "mobile"]:
            out.append(s)
    return out


def src_trap(self, trap):
    out = []
    for s in self.sources:
        if isinstance(s, festim.RadioactiveDecay) and s.field == "all":
            out.append(s)
        elif s.field == trap.id or s.field == str(trap.id):
            out.append(s)
    return out


def src_T(self):
    return [s for s in self.sources if s.field == "T"]


def bcs_T(self):
    return [bc for bc in self.boundary_conditions if bc.field == "T"]


def bcs_H(self):
    return [bc for bc in self.boundary_conditions if bc.field != "T"]


def flux_bcs(self):
    return [bc for bc in self.boundary_conditions if isinstance(bc, festim.FluxBC) and bc.field == 0]


# ---- time-dependent inputs that have to be refreshed
def fe(x):
    return isinstance(x, (Expression, UserExpression))


def trap_inputs(self, mobile, materials, T, dx, dt):
    out = []
    for i, mat in enumerate(self.materials):
        out.append(self.density[i] if isinstance(self.k_0, list) else self.density[0])
    return out


def source_inputs(self):
    return [s.value for s in self.sources if not isinstance(s, festim.RadioactiveDecay) and fe(s.value)]


def all_trap_inputs(self, mobile, materials, T, dx, dt):
    out = []
    for trap in self:
        trap.create_form(mobile, materials, T, dx, dt)
        out += trap.sub_expressions
    return out


def mobile_flux_inputs(self):
    out = []
    for bc in self.boundary_conditions:
        out += bc.sub_expressions
    return out


def dirichlet_inputs(self, materials, mesh):
    out = list(self.expressions)
    for bc in self.boundary_conditions:
        if bc.field != "T" and isinstance(bc, festim.DirichletBC):
            bc.create_dirichletbc(self.V, self.T.T, mesh.surface_markers, self.settings.chemical_pot, materials, mesh.volume_markers)
            out += bc.sub_expressions
            out.append(bc.expression)
    return out


def heat_flux_inputs(self):
    out = []
    for bc in self.boundary_conditions:
        if isinstance(bc, festim.FluxBC):
            bc.create_form(self.T, None)
            out += bc.sub_expressions
    return out


def heat_dirichlet_inputs(self, surface_markers):
    out = []
    for bc in self.boundary_conditions:
        if isinstance(bc, festim.DirichletBC) and bc.field == "T":
            bc.create_expression(self.T)
            out += bc.sub_expressions
            out.append(bc.expression)
    return out


def temperature_now(self):
    self.T.assign(interpolate(self.expression, self.T.function_space()))
    return self.T


def same_T(self):
    return self.T
