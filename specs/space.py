"""Reference function spaces and initial values (read by the analysis, never run)."""
import festim
from fenics import *
import sympy as sp


def kinetics_of(self):
    return [bc for bc in self.boundary_conditions if isinstance(bc, festim.SurfaceKinetics)]


def spaces(self, mesh):
    n = len(self.traps)
    m = sum(len(bc.surfaces) for bc in kinetics_of(self))
    cell = mesh.mesh.ufl_cell()
    if n == 0 and m == 0:
        self.V = FunctionSpace(mesh.mesh, "CG", 1)
    else:
        elements = [FiniteElement("CG", cell, 1)]
        elements += [FiniteElement(self.settings.traps_element_type, cell, 1)] * n
        elements += [FiniteElement("R", cell, 0)] * m
        self.V = FunctionSpace(mesh.mesh, MixedElement(elements))
    self.V_CG1 = FunctionSpace(mesh.mesh, "CG", 1)
    self.V_DG1 = FunctionSpace(mesh.mesh, "DG", 1)


def u_single(self):
    """one component: [what the mobile concentration uses, what it should use]"""
    self.initialise_concentrations()
    m = self.mobile
    return [[m.solution, self.u], [m.previous_solution, self.u_n], [m.test_function, self.v]]


def three_surfaces(self, law):
    a = festim.SurfaceKinetics(k_sb=law.k_sb, k_bs=law.k_bs, lambda_IS=law.l, n_surf=law.n, n_IS=law.m, J_vs=law.J, surfaces=[law.sa, law.sb], initial_condition=law.ca)
    b = festim.SurfaceKinetics(k_sb=law.k_sb, k_bs=law.k_bs, lambda_IS=law.l, n_surf=law.n, n_IS=law.m, J_vs=law.J, surfaces=[law.sc], initial_condition=law.cb)
    return [a, b]


def u_mixed(self, law):
    a, b = three_surfaces(self, law)
    self.boundary_conditions = [a, b]
    self.initialise_concentrations()
    u, u_n, v = split(self.u), split(self.u_n), split(self.v)
    n = len(self.traps)
    out = [[self.mobile.solution, u[0]], [self.mobile.previous_solution, u_n[0]], [self.mobile.test_function, v[0]]]
    for k, trap in enumerate(self.traps):
        out += [[trap.solution, u[k + 1]], [trap.previous_solution, u_n[k + 1]], [trap.test_function, v[k + 1]]]
    out += [[a.solutions[0], u[n + 1]], [a.previous_solutions[0], u_n[n + 1]], [a.test_functions[0], v[n + 1]]]
    out += [[a.solutions[1], u[n + 2]], [a.previous_solutions[1], u_n[n + 2]], [a.test_functions[1], v[n + 2]]]
    out += [[b.solutions[0], u[n + 3]], [b.previous_solutions[0], u_n[n + 3]], [b.test_functions[0], v[n + 3]]]
    return out


def u_values(self, law):
    self.boundary_conditions = three_surfaces(self, law)
    self.initialise_concentrations()


def r_values(self, law):
    """every initial condition goes to the component of its field"""
    n = len(self.traps)
    u = self.u = Function(self.V, name="c")
    u_n = self.u_n = Function(self.V, name="c_n")
    for ini in self.initial_conditions:
        if ini.field in ("solute", "0", 0):
            self.mobile.initialise(self.V.sub(0).collapse(), ini.value, label=ini.label, time_step=ini.time_step)
        else:
            found = False
            for k, trap in enumerate(self.traps):
                if ini.field == trap.id or ini.field == str(trap.id):
                    found = True
            if not found:
                raise KeyError(ini.field)
            for k, trap in enumerate(self.traps):
                if ini.field == trap.id or ini.field == str(trap.id):
                    trap.initialise(self.V.sub(k + 1).collapse(), ini.value, label=ini.label, time_step=ini.time_step)
    assign(u_n.sub(n + 1), interpolate(Constant(law.ca), self.V.sub(n + 1).collapse()))
    assign(u_n.sub(n + 2), interpolate(Constant(law.ca), self.V.sub(n + 2).collapse()))
    assign(u_n.sub(n + 3), interpolate(Constant(law.cb), self.V.sub(n + 3).collapse()))
    if self.settings.chemical_pot:
        u.sub(0).assign(project(u_n.sub(0) + Constant(DOLFIN_EPS), self.V.sub(0).collapse()))


def r_single_values(self):
    u = self.u = Function(self.V, name="c")
    u_n = self.u_n = Function(self.V, name="c_n")
    for ini in self.initial_conditions:
        if ini.field in ("solute", "0", 0):
            self.mobile.initialise(self.V, ini.value, label=ini.label, time_step=ini.time_step)
        else:
            raise KeyError(ini.field)
    if self.settings.chemical_pot:
        u.assign(project(u_n + Constant(DOLFIN_EPS), self.V))


def starts_from(self, V, value, label, time_step):
    if isinstance(value, str) and value.endswith(".xdmf"):
        c = Function(V)
        with XDMFFile(value) as file:
            file.read_checkpoint(c, label, time_step)
    else:
        c = Expression(sp.printing.ccode(value), degree=3, t=0)
    assign(self.previous_solution, interpolate(c, V))
