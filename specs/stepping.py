"""Reference time stepping (read by the analysis, never run)."""
import festim
from fenics import *
import numpy as np
import sympy as sp


def upcoming(times, now):
    """the first milestone that is neither passed nor being left"""
    if times is None:
        return None
    for m in times:
        if now < m and not np.isclose(now, m, atol=0):
            return m
    return None


def not_past_milestone(dt, times, now):
    m = upcoming(times, now)
    if m is not None and now + dt > m and not np.isclose(now, m, atol=0):
        return m - now
    return dt


def changed(dt, prm, t, nb_it, converged):
    """step size after a solve, before milestones"""
    if not prm:
        return dt
    ratio = prm["stepsize_change_ratio"]
    if converged and nb_it < 5:
        dt = dt * ratio
    else:
        dt = dt / ratio
    cap = prm["max_stepsize"]
    if callable(cap):
        cap = cap(t)
    if cap is not None and dt > cap:
        return cap
    return dt


def adapted(self, t, nb_it, converged):
    self.value.assign(not_past_milestone(changed(float(self.value), self.adaptive_stepsize, t, nb_it, converged), self.milestones, t))
    return self.value


def adapt_refused(self, t, nb_it, converged):
    prm = self.adaptive_stepsize
    if not prm or converged:
        return False
    if prm["dt_min"] is None:
        return True
    return float(self.value) / prm["stepsize_change_ratio"] < prm["dt_min"]


def to_milestone(self, t):
    self.value.assign(not_past_milestone(float(self.value), self.milestones, t))
    return self.value


def next_one(self, current_time):
    return upcoming(self.milestones, current_time)


def to_final(self):
    dt = float(self.dt.value)
    end = self.settings.final_time
    if self.t + dt > end:
        dt = end - self.t
    self.dt.value.assign(dt)
    return self.dt.value


def one_step(self):
    self.t += float(self.dt.value)
    self.T.update(self.t)
    self.h_transport_problem.update(self.t, self.dt)
    self.run_post_processing()


def left_after_step(self):
    self.t += float(self.dt.value)
    self.h_transport_problem.update(self.t, self.dt)
    dt = float(self.dt.value)
    if self.t + dt > self.settings.final_time:
        dt = self.settings.final_time - self.t
    self.dt.value.assign(dt)
    return self.dt.value


def whole_run(self):
    if not self.settings.update_jacobian:
        self.h_transport_problem.compute_jacobian()
    while self.t < self.settings.final_time and not np.isclose(self.t, self.settings.final_time, atol=0):
        self.iterate()


def first_dt(self):
    """what the step size is when stepping starts"""
    dt = not_past_milestone(float(self.dt.value), self.dt.milestones, self.t)
    if self.t + dt > self.settings.final_time:
        dt = self.settings.final_time - self.t
    self.dt.value.assign(dt)
    return self.dt.value


def post_process(self):
    self.update_post_processing_solutions()
    self.exports.write(self.label_to_function, self.mesh.dx)


def either(self, completion_tone):
    if self.settings.transient:
        self.run_transient()
    else:
        self.run_steady()


def jacobian(self):
    self.u
    return derivative(self.F, self.u, TrialFunction(self.u.function_space()))


def problem_of(self):
    J = self.J
    if J is None:
        J = derivative(self.F, self.u, TrialFunction(self.u.function_space()))
    return festim.Problem(J, self.F, self.bcs)


def heat_problem(self):
    return festim.Problem(derivative(self.F, self.T, TrialFunction(self.T.function_space())), self.F, self.dirichlet_bcs)


# ---- from the arguments of a user
def step_args(initial_value, stepsize_change_ratio, t_stop, stepsize_stop_max, max_stepsize, dt_min, milestones):
    return festim.Stepsize(initial_value=initial_value, stepsize_change_ratio=stepsize_change_ratio, t_stop=t_stop,
                           stepsize_stop_max=stepsize_stop_max, max_stepsize=max_stepsize, dt_min=dt_min, milestones=milestones)


def u_stepsize(initial_value, stepsize_change_ratio, t_stop, stepsize_stop_max, max_stepsize, dt_min, milestones, t, nb_it, converged):
    s = step_args(initial_value, stepsize_change_ratio, t_stop, stepsize_stop_max, max_stepsize, dt_min, milestones)
    s.adapt(t, nb_it, converged)
    return float(s.value)


def r_stepsize(initial_value, stepsize_change_ratio, t_stop, stepsize_stop_max, max_stepsize, dt_min, milestones, t, nb_it, converged):
    dt = initial_value
    if stepsize_change_ratio is not None:
        if converged and nb_it < 5:
            dt = dt * stepsize_change_ratio
        else:
            dt = dt / stepsize_change_ratio
        cap = max_stepsize
        if t_stop or stepsize_stop_max:
            cap = stepsize_stop_max if t >= t_stop else None
        elif callable(cap):
            cap = cap(t)
        if cap is not None and dt > cap:
            dt = cap
    return not_past_milestone(dt, sorted(milestones) if milestones else milestones, t)


def r_stepsize_refused(initial_value, stepsize_change_ratio, t_stop, stepsize_stop_max, max_stepsize, dt_min, milestones, t, nb_it, converged):
    if stepsize_change_ratio is None or converged:
        return False
    if dt_min is None:
        return True
    return initial_value / stepsize_change_ratio < dt_min


def u_initial(initial_value, stepsize_change_ratio, t_stop, stepsize_stop_max, max_stepsize, dt_min, milestones, v):
    """whatever it has become, re-initialised it is the initial value again"""
    s = step_args(initial_value, stepsize_change_ratio, t_stop, stepsize_stop_max, max_stepsize, dt_min, milestones)
    s.value.assign(v)
    s.initialise_value()
    return float(s.value)


def r_initial(initial_value, v):
    return initial_value


def attempts(self, t, dt):
    """solve until it converges; every attempt is reported to the step size"""
    converged = False
    start = Function(self.u.function_space())
    start.assign(self.u)
    while not converged:
        self.u.assign(start)
        J = self.J
        if J is None:
            J = derivative(self.F, self.u, TrialFunction(self.u.function_space()))
        nb_it, converged = self.newton_solver.solve(festim.Problem(J, self.F, self.bcs), self.u.vector())
        if not converged and dt.adaptive_stepsize is None:
            raise ValueError
        if dt.adaptive_stepsize is not None or dt.milestones is not None:
            dt.adapt(t, nb_it, converged)


def steady(self):
    nb_it, converged = self.h_transport_problem.solve_once()
    if not converged:
        raise ValueError
    self.run_post_processing()


def after_step(self, t, dt):
    self.update_extrinsic_traps_density()
    self.solve_extrinsic_traps()


def extrinsic_update(self, t, dt):
    self.traps.update_extrinsic_traps_density()
    self.traps.solve_extrinsic_traps()


def extrinsic_solves(self):
    for trap in self:
        if isinstance(trap, festim.ExtrinsicTrapBase):
            n = trap.density[0]
            J = derivative(trap.form_density, n, TrialFunction(n.function_space()))
            trap.newton_solver.solve(festim.Problem(J, trap.form_density, []), n.vector())


def extrinsic_forms(self, dx, dt, T):
    for trap in self:
        if isinstance(trap, festim.ExtrinsicTrapBase):
            trap.create_form_density(dx, dt, T)


def extrinsic_solvers(self):
    for trap in self:
        if isinstance(trap, festim.ExtrinsicTrapBase):
            trap.define_newton_solver()


def heat_solution(self, t):
    J = derivative(self.F, self.T, TrialFunction(self.T.function_space()))
    if self.transient:
        self.newton_solver.solve(festim.Problem(J, self.F, self.dirichlet_bcs), self.T.vector())


def heat_start(self, materials, mesh, dt):
    if self.initial_condition is None:
        raise AttributeError("refused")
    V = FunctionSpace(mesh.mesh, "CG", 1)
    self.T = Function(V)
    self.T_n = Function(V)
    if isinstance(self.initial_condition.value, str):
        if self.initial_condition.value.endswith(".xdmf"):
            with XDMFFile(self.initial_condition.value) as f:
                f.read_checkpoint(self.T_n, self.initial_condition.label, self.initial_condition.time_step)
    else:
        self.T_n.assign(interpolate(Expression(sp.printing.ccode(self.initial_condition.value), degree=2, t=0), V))
    self.T.assign(self.T_n)


def law_start(self, mesh):
    V = FunctionSpace(mesh.mesh, "CG", 1)
    self.T = Function(V)
    self.T_n = Function(V)
    self.expression = Expression(sp.printing.ccode(self.value), t=0, degree=2)
    self.T.assign(interpolate(self.expression, V))
    self.T_n.assign(self.T)


def file_start(self, mesh):
    V = FunctionSpace(mesh.mesh, "CG", 1)
    self.T = Function(V)
    self.T_n = Function(V)
    XDMFFile(self.filename).read_checkpoint(self.T, self.label, -1)
    self.T_n.assign(self.T)


def heat_setup(self, materials, mesh, dt):
    V = FunctionSpace(mesh.mesh, "CG", 1)
    self.T = Function(V)
    self.T_n = Function(V)
    self.v_T = TestFunction(V)
    self.define_variational_problem(materials, mesh, dt)
    self.create_dirichlet_bcs(mesh.surface_markers)
    if not self.newton_solver:
        self.define_newton_solver()
    if not self.transient:
        problem = festim.Problem(derivative(self.F, self.T, TrialFunction(V)), self.F, self.dirichlet_bcs)
        self.newton_solver.solve(problem, self.T.vector())
        self.T_n.assign(self.T)


def u_problem(J, F, bcs, b, x, A):
    p = festim.Problem(J, F, bcs)
    p.F(b, x)
    p.J(A, x)


def r_problem(J, F, bcs, b, x, A):
    """Newton sees the residual and the Jacobian of the form, with the boundary conditions"""
    s = SystemAssembler(J, F, bcs)
    s.assemble(b, x)
    s.assemble(A)


def post_processed(self):
    solve(self.form_post_processing == 0, self.post_processing_solution, [])


def steady_prescribed(self):
    return "t" not in sp.printing.ccode(self.value)


def steady_file(self):
    return True


def steady_heat_problem(self):
    return not self.transient


def numeric_value(self):
    return isinstance(self.value, (int, float))
