"""Reference laws for the governing equations (read by the analysis, never run)."""
from festim import k_B, Theta, RadioactiveDecay
from festim.materials.materials import ArheniusCoeff
from fenics import *


def arrh(pre, E, T):
    return pre * exp(-E / (k_B * T))


def as_list(x):
    if isinstance(x, list):
        return x
    return [x]


def local_conc(mobile, mat, T):
    """H concentration in material mat from the mobile unknown, now and one step ago"""
    u, un = mobile.solution, mobile.previous_solution
    if isinstance(mobile, Theta):
        K = arrh(mat.S_0, mat.E_S, T.T)
        Kn = arrh(mat.S_0, mat.E_S, T.T_n)
        if mat.solubility_law == "henry":
            return u**2 * K, un**2 * Kn
        if mat.solubility_law != "sievert":
            raise ValueError("unknown law")
        return u * K, un * Kn
    return u, un


def against(mesh, flux, v):
    """flux . grad(test function) in the metric of the mesh"""
    if mesh.type == "cartesian":
        return dot(flux, grad(v))
    r = SpatialCoordinate(mesh.mesh)[0]
    if mesh.type == "cylindrical":
        return r * dot(flux, grad(v / r))
    if mesh.type == "spherical":
        return r**2 * dot(flux, grad(v / r**2))
    return 0


def rates(trap, i, T):
    if isinstance(trap.k_0, list):
        return (
            arrh(trap.k_0[i], trap.E_k[i], T.T),
            arrh(trap.p_0[i], trap.E_p[i], T.T),
            trap.density[i],
        )
    return arrh(trap.k_0, trap.E_k, T.T), arrh(trap.p_0, trap.E_p, T.T), trap.density[0]


def exchange(mobile, trap, T, dx, v):
    """net trapping rate of one trap, integrated against v"""
    R = 0
    for i, mat in enumerate(trap.materials):
        k, p, n = rates(trap, i, T)
        c, cn = local_conc(mobile, mat, T)
        R += (k * c * (n - trap.solution) - p * trap.solution) * v * dx(mat.id)
    return R


def mobile_transport(self, materials, mesh, T, dt, soret):
    v = self.test_function
    F = 0
    for mat in materials:
        c, cn = local_conc(self, mat, T)
        D = arrh(mat.D_0, mat.E_D, T.T)
        flux = D * grad(c)
        if soret:
            Q = mat.Q(T.T) if callable(mat.Q) else mat.Q
            flux = flux + D * Q * c / (k_B * T.T**2) * grad(T.T)
        for s in as_list(mat.id):
            if dt is not None:
                F += (c - cn) / dt.value * v * mesh.dx(s)
            F += against(mesh, flux, v) * mesh.dx(s)
    return F


def mobile_exchange(self, mesh, T, traps):
    F = 0
    if traps is not None:
        for trap in traps:
            F += exchange(self, trap, T, mesh.dx, self.test_function)
    return F


def source_density(source, c):
    if isinstance(source, RadioactiveDecay):
        return -source.decay_constant * c
    return source.value


def sources_form(sources, c, v, dx):
    F = 0
    for s in sources:
        for vol in as_list(s.volume):
            F += -source_density(s, c) * v * dx(vol)
    return F


def henry_traps(self, mobile, materials, T, dx, dt):
    return isinstance(mobile, Theta) and any(mat.solubility_law == "henry" for mat in self.materials)


def trap_form(self, mobile, materials, T, dx, dt):
    if henry_traps(self, mobile, materials, T, dx, dt):
        raise NotImplementedError
    v = self.test_function
    F = 0
    if dt is not None:
        F += (self.solution - self.previous_solution) / dt.value * v * dx
    else:
        for mat in materials:
            if mat not in self.materials:
                F += self.solution * v * dx(mat.id)
    F += -exchange(mobile, self, T, dx, v)
    return F


def known_law(material):
    return material.solubility_law == "sievert" or material.solubility_law == "henry"


def theta_concentration(self):
    m = self.materials
    return (m.henry_marker * self.solution**2 + m.sievert_marker * self.solution) * self.S


def theta_previous_concentration(self):
    m = self.materials
    if self.T.is_steady_state():
        S = self.S
    else:
        S = ArheniusCoeff(m, self.volume_markers, self.T.T_n, "S_0", "E_S")
    return (m.henry_marker * self.previous_solution**2 + m.sievert_marker * self.previous_solution) * S


def at_T(p, T):
    return p(T) if callable(p) else p


def heat_form(self, materials, mesh, dt):
    """rho cp dT/dt = div(lambda grad T)"""
    T, v = self.T, self.v_T
    F = 0
    for mat in materials:
        for s in as_list(mat.id):
            if self.transient:
                F += at_T(mat.rho, T) * at_T(mat.heat_capacity, T) * (T - self.T_n) / dt.value * v * mesh.dx(s)
            F += against(mesh, at_T(mat.thermal_cond, T) * grad(T), v) * mesh.dx(s)
    return F


def heat_sources_form(sources, v, dx):
    F = 0
    for s in sources:
        for vol in as_list(s.volume):
            F += -s.value * v * dx(vol)
    return F


def trap_sources_form(sources, c, v, dx):
    F = 0
    for s in sources:
        F += -source_density(s, c) * v * dx(s.volume)
    return F


def extrinsic_density_form(self, dx, dt, T):
    n, v = self.density[0], self.density_test_function
    creation = self.phi_0 * (
        self.eta_a * self.f_a * (1 - n / self.n_amax) + self.eta_b * self.f_b * (1 - n / self.n_bmax)
    )
    return ((n - self.density_previous_solution) / dt.value - creation) * v * dx


def neutron_density_form(self, dx, dt, T):
    n, v = self.density[0], self.density_test_function
    dn = self.phi * self.K * (1 - n / self.n_max) - arrh(self.A_0, self.E_A, T.T) * n
    return ((n - self.density_previous_solution) / dt.value - dn) * v * dx


def post_processing_form(self, V, materials, dx):
    v, c = TestFunction(V), TrialFunction(V)
    F = -c * v * dx
    for mat in materials:
        if mat.solubility_law == "sievert":
            F += self.solution * self.S * v * dx(mat.id)
        if mat.solubility_law == "henry":
            F += self.solution**2 * self.S * v * dx(mat.id)
    return F


def theta_initial(self, V, value, label, time_step):
    """c = theta S or theta^2 S, in each material"""
    comp = self.get_comp(V, value, label, time_step)
    th = Function(V)
    v = TestFunction(V)
    dx = Measure("dx", subdomain_data=self.volume_markers)
    F = 0
    for mat in self.materials:
        c = comp / arrh(mat.S_0, mat.E_S, self.T.T)
        if mat.solubility_law == "sievert":
            F += (c - th) * v * dx(mat.id)
        elif mat.solubility_law == "henry":
            F += (c**0.5 - th) * v * dx(mat.id)
        else:
            F += -th * v * dx(mat.id)
    solve(F == 0, th, [])
    return th


def solubility_function(self, mesh, T):
    V = FunctionSpace(mesh.mesh, "DG", 1)
    S, v = Function(V), TestFunction(V)
    F = 0
    for mat in self:
        F += (arrh(mat.S_0, mat.E_S, T) - S) * v * mesh.dx(mat.id)
    solve(F == 0, S, [])
    return S


def law_marker(self, mesh, law):
    V = FunctionSpace(mesh.mesh, "DG", 0)
    h, v = Function(V), TestFunction(V)
    F = -h * v * mesh.dx
    for mat in self:
        if mat.solubility_law == law:
            for i in as_list(mat.id):
                F += v * mesh.dx(i)
    solve(F == 0, h, [])
    return h


def local_concentrations(self, material, T):
    return local_conc(self, material, T)
