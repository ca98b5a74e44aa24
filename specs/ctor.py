"""From the arguments a user gives to the value the object ends up imposing."""
from festim import *
from fenics import *
import sympy as sp
import numpy as np
from spec_transport import arrh
from spec_bc import given, local


def fire(bc, T, value, x):
    bc.create_expression(T)
    bc.expression.eval(value, x)
    return value[0]


def u_sieverts(surfaces, S_0, E_S, pressure, T, value, x):
    return fire(SievertsBC(surfaces=surfaces, S_0=S_0, E_S=E_S, pressure=pressure), T, value, x)


def r_sieverts(surfaces, S_0, E_S, pressure, T, value, x):
    return arrh(S_0, E_S, T(x)) * given(pressure)(x) ** 0.5


def u_henry(surfaces, H_0, E_H, pressure, T, value, x):
    return fire(HenrysBC(surfaces=surfaces, H_0=H_0, E_H=E_H, pressure=pressure), T, value, x)


def r_henry(surfaces, H_0, E_H, pressure, T, value, x):
    return arrh(H_0, E_H, T(x)) * given(pressure)(x)


def u_implantation(surfaces, phi, R_p, D_0, E_D, Kr_0, E_Kr, Kd_0, E_Kd, P, T, value, x):
    return fire(ImplantationDirichlet(surfaces=surfaces, phi=phi, R_p=R_p, D_0=D_0, E_D=E_D, Kr_0=Kr_0, E_Kr=E_Kr,
                                      Kd_0=Kd_0, E_Kd=E_Kd, P=P), T, value, x)


def r_implantation(surfaces, phi, R_p, D_0, E_D, Kr_0, E_Kr, Kd_0, E_Kd, P, T, value, x):
    flux = given(phi)(x)
    c = flux * given(R_p)(x) / arrh(D_0, E_D, T(x))
    if Kr_0 is not None:
        Kr = arrh(Kr_0, E_Kr, T(x))
        if Kd_0 is not None:
            c += ((flux + arrh(Kd_0, E_Kd, T(x)) * given(P)(x)) / Kr) ** 0.5
        else:
            c += (flux / Kr) ** 0.5
    return c


def u_custom(surfaces, function, field, a, T, value, x):
    return fire(CustomDirichlet(surfaces=surfaces, function=function, field=field, prm=a), T, value, x)


def param(a):
    return Constant(a) if isinstance(a, (int, float)) else given(a)


def r_custom(surfaces, function, field, a, T, value, x):
    return function(T(x), prm=local(param(a), x))


def u_dirichlet(surfaces, value, field, T):
    bc = DirichletBC(surfaces=surfaces, value=value, field=field)
    bc.create_expression(T)
    return bc.expression


def r_dirichlet(surfaces, value, field, T):
    return given(value)


def flux_of(bc, T, c):
    bc.create_form(T, c)
    return bc.form


def u_flux(surfaces, value, field, T, c):
    return flux_of(FluxBC(surfaces=surfaces, value=value, field=field), T, c)


def r_flux(surfaces, value, field, T, c):
    return given(value)


def u_recombination(Kr_0, E_Kr, order, surfaces, T, c):
    return flux_of(RecombinationFlux(Kr_0=Kr_0, E_Kr=E_Kr, order=order, surfaces=surfaces), T, c)


def r_recombination(Kr_0, E_Kr, order, surfaces, T, c):
    return -arrh(given(Kr_0), given(E_Kr), T) * c**order


def u_dissociation(Kd_0, E_Kd, P, surfaces, T, c):
    return flux_of(DissociationFlux(Kd_0=Kd_0, E_Kd=E_Kd, P=P, surfaces=surfaces), T, c)


def r_dissociation(Kd_0, E_Kd, P, surfaces, T, c):
    return arrh(given(Kd_0), given(E_Kd), T) * given(P)


def u_convective(h_coeff, T_ext, surfaces, T, c):
    return flux_of(ConvectiveFlux(h_coeff=h_coeff, T_ext=T_ext, surfaces=surfaces), T, c)


def r_convective(h_coeff, T_ext, surfaces, T, c):
    return given(h_coeff) * (given(T_ext) - T)


def u_mass(h_coeff, c_ext, surfaces, T, c):
    return flux_of(MassFlux(h_coeff=h_coeff, c_ext=c_ext, surfaces=surfaces), T, c)


def r_mass(h_coeff, c_ext, surfaces, T, c):
    return given(h_coeff) * (given(c_ext) - c)


def u_customflux(surfaces, function, field, a, T, c):
    return flux_of(CustomFlux(surfaces=surfaces, function=function, field=field, prm=a), T, c)


def r_customflux(surfaces, function, field, a, T, c):
    return function(T, c, prm=param(a))


# one surface, parameters straight from the user
def u_kinetics(k_sb, k_bs, lambda_IS, n_surf, n_IS, J_vs, s, initial_condition, a, cs, csn, w, c, cn, v, T, ds, dt):
    bc = SurfaceKinetics(k_sb=k_sb, k_bs=k_bs, lambda_IS=lambda_IS, n_surf=n_surf, n_IS=n_IS, J_vs=J_vs, surfaces=[s],
                         initial_condition=initial_condition, prm=a)
    bc.solutions[0] = cs
    bc.previous_solutions[0] = csn
    bc.test_functions[0] = w
    bc.create_form(c, cn, v, T, ds, dt)
    return bc.form


def r_kinetics(k_sb, k_bs, lambda_IS, n_surf, n_IS, J_vs, s, initial_condition, a, cs, csn, w, c, cn, v, T, ds, dt):
    J = J_vs(T.T, cs, c, prm=param(a)) if callable(J_vs) else J_vs
    out = k_bs(T.T, cs, c, prm=param(a)) if callable(k_bs) else k_bs
    back = k_sb(T.T, cs, c, prm=param(a)) if callable(k_sb) else k_sb
    net = out * c * (1 - cs / n_surf) - back * cs * (1 - c / n_IS)
    F = (net * v - (J + net) * w) * ds(s)
    if dt is not None:
        F += ((cs - csn) / dt.value * w + lambda_IS * (c - cn) / dt.value * v) * ds(s)
    return F


# traps: parameters straight from the user
def u_extrinsic(k_0, E_k, p_0, E_p, m, phi_0, n_amax, n_bmax, eta_a, eta_b, f_a, f_b, n, n_prev, v, dx, dt, T):
    t = ExtrinsicTrap(k_0=k_0, E_k=E_k, p_0=p_0, E_p=E_p, materials=m, phi_0=phi_0, n_amax=n_amax, n_bmax=n_bmax,
                      eta_a=eta_a, eta_b=eta_b, f_a=f_a, f_b=f_b)
    t.density = [n]
    t.density_previous_solution = n_prev
    t.density_test_function = v
    t.create_form_density(dx, dt, T)
    return t.form_density


def prm(a):
    """a number, a sympy expression or a fenics object as a form coefficient"""
    if isinstance(a, (Constant, Expression, UserExpression)):
        return a
    return param(a)


def r_extrinsic(k_0, E_k, p_0, E_p, m, phi_0, n_amax, n_bmax, eta_a, eta_b, f_a, f_b, n, n_prev, v, dx, dt, T):
    dn = prm(phi_0) * (prm(eta_a) * prm(f_a) * (1 - n / prm(n_amax)) + prm(eta_b) * prm(f_b) * (1 - n / prm(n_bmax)))
    return ((n - n_prev) / dt.value - dn) * v * dx


def u_neutron(k_0, E_k, p_0, E_p, m, phi, K, n_max, A_0, E_A, n, n_prev, v, dx, dt, T):
    t = NeutronInducedTrap(k_0=k_0, E_k=E_k, p_0=p_0, E_p=E_p, materials=m, phi=phi, K=K, n_max=n_max, A_0=A_0, E_A=E_A)
    t.density = [n]
    t.density_previous_solution = n_prev
    t.density_test_function = v
    t.create_form_density(dx, dt, T)
    return t.form_density


def r_neutron(k_0, E_k, p_0, E_p, m, phi, K, n_max, A_0, E_A, n, n_prev, v, dx, dt, T):
    dn = prm(phi) * prm(K) * (1 - n / prm(n_max)) - arrh(prm(A_0), prm(E_A), T.T) * n
    return ((n - n_prev) / dt.value - dn) * v * dx


# sources
def u_implantation_flux(flux, imp_depth, width, volume):
    return ImplantationFlux(flux=flux, imp_depth=imp_depth, width=width, volume=volume).value


def r_implantation_flux(flux, imp_depth, width, volume):
    g = sp.exp(-(((x - imp_depth) / width) ** 2) / 2) / (width * (2 * np.pi) ** 0.5)
    return Source(value=flux * g, volume=volume, field="0").value


def u_source(value, volume, field):
    s = Source(value=value, volume=volume, field=field)
    return s.value, s.volume, s.field


def r_source(value, volume, field):
    if isinstance(value, (int, float)):
        return Constant(value), volume, field
    if isinstance(value, sp.Expr):
        return given(value), volume, field
    return value, volume, field


def u_decay(decay_constant, volume, field, c):
    s = RadioactiveDecay(decay_constant=decay_constant, volume=volume, field=field)
    return s.form(c), s.volume, s.field


def r_decay(decay_constant, volume, field, c):
    return -decay_constant * c, volume, field


def i_extrinsic(k_0, E_k, p_0, E_p, m, phi_0, n_amax, n_bmax, eta_a, eta_b, f_a, f_b):
    t = ExtrinsicTrap(k_0=k_0, E_k=E_k, p_0=p_0, E_p=E_p, materials=m, phi_0=phi_0, n_amax=n_amax, n_bmax=n_bmax,
                      eta_a=eta_a, eta_b=eta_b, f_a=f_a, f_b=f_b)
    return t.sub_expressions


def ri_extrinsic(k_0, E_k, p_0, E_p, m, phi_0, n_amax, n_bmax, eta_a, eta_b, f_a, f_b):
    return [prm(phi_0), prm(n_amax), prm(n_bmax), prm(eta_a), prm(eta_b), prm(f_a), prm(f_b)]


def i_neutron(k_0, E_k, p_0, E_p, m, phi, K, n_max, A_0, E_A):
    return NeutronInducedTrap(k_0=k_0, E_k=E_k, p_0=p_0, E_p=E_p, materials=m, phi=phi, K=K, n_max=n_max, A_0=A_0, E_A=E_A).sub_expressions


def ri_neutron(k_0, E_k, p_0, E_p, m, phi, K, n_max, A_0, E_A):
    return [prm(phi), prm(K), prm(n_max), prm(A_0), prm(E_A)]


def s_extrinsic(m, absolute_tolerance, relative_tolerance, maximum_iterations, linear_solver, preconditioner):
    t = ExtrinsicTrap(1, 1, 1, 1, m, 1, 1, 1, 1, 1, 1, 1, absolute_tolerance=absolute_tolerance, relative_tolerance=relative_tolerance,
                      maximum_iterations=maximum_iterations, linear_solver=linear_solver, preconditioner=preconditioner)
    return t.absolute_tolerance, t.relative_tolerance, t.maximum_iterations, t.linear_solver, t.preconditioner


def s_neutron(m, absolute_tolerance, relative_tolerance, maximum_iterations, linear_solver, preconditioner):
    t = NeutronInducedTrap(1, 1, 1, 1, m, 1, 1, 1, 1, 1, absolute_tolerance=absolute_tolerance, relative_tolerance=relative_tolerance,
                           maximum_iterations=maximum_iterations, linear_solver=linear_solver, preconditioner=preconditioner)
    return t.absolute_tolerance, t.relative_tolerance, t.maximum_iterations, t.linear_solver, t.preconditioner
