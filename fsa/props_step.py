"""Time stepping: inputs at the right time, step sizes, the solve protocol, convergence."""
from .oblig import *
from .reg import prop_check
from .props_eq import spec, attr_of, null, form, find, TT, lst, INT_IDS, E, val, items, not_str, bcs_are, FLUX_LAWS
from .props_run import events, ev_sum, same_events, in_order, obj_list, two_traps, SIM
from .interp import elem_raw


def at(*path):
    """fn(it, st, args): value of an attribute path at that point"""
    def fn(it, st, args=None):
        v = sym(path[0])
        for p in path[1:]:
            v = it.get_attr(v, p, st, None)
        return v
    return fn


def held(*path):
    """fn: what the Function/Constant at that path holds"""
    f = at(*path)
    return lambda it, st, args=None: it.val_of(f(it, st), st)


def time_of_any(*path):
    """fn: the time of an arbitrary element of a list of expressions"""
    f = at(*path)
    i = atom(T("sym", "any_index"))

    def fn(it, st, args=None):
        return it.get_attr(it.elem(st, f(it, st), i), "t", st, None)
    return fn


def target(path, fn):
    """probe only the solves whose unknown is at that path"""
    f = at(*path)

    def g(it, st, args=None):
        if args is None or args[2] is not f(it, st):
            return None
        return fn(it, st, args)
    return g


def probes(r, title):
    return [e for e in r.it.events if e.kind == "probe" and e.name == title]


def always(C, title, r, name, want, care=T_, least=1, first=None):
    """at every occurrence of the probed operation the probed value is `want`"""
    ps = probes(r, name)
    if first is not None:
        ps = [e for e in ps if (not any(i is None for d, i in e.ctx)) == first]
    if len(ps) < least:
        C.add(title, "undecided", C.at(r), ["the probed operation does not occur in the analysed code"])
        return
    for e in ps:
        got = r.norm(e.args[0])
        left = diff_terms(got - r.norm(want), c_and(e.g, care))
        if left:
            C.equal(title, got, r.norm(want), c_and(e.g, care), e.func or r.fi)
            return
    SEEN.update(words(r.norm(want)))
    C.add(title, "holds", C.at(r))


def adapt_effect(it, st, env):
    """a step size adaptation changes what the step size holds"""
    v = it.get_attr(env["self"], "value", st, None)
    it.heap_write(st, v, "$val", mkterm("out", "adapt", (env["t"], env["nb_it"], env["converged"]), "dt"))


UPD = dict(types=dict(dt=("Stepsize", True)), stop={"Stepsize.adapt", "solve_extrinsic_traps", "update_extrinsic_traps_density"},
           effects={"Stepsize.adapt": adapt_effect})


@prop_check("C12")
def refreshed(C):
    def one():
        r = run(find(None, "update_expressions"), types={"expressions": ("list", True)})
        C.use(r)
        C.equal("update_expressions sets the time of every expression", r.norm(time_of_any("expressions")(r.it, r.st)), sym("t"), r.g, r.fi)
    C.guarded("update_expressions", one)

    def h():
        r = run(find("HTransportProblem", "update"), "HTransportProblem", watch=[held("dt", "value")],
                probes={"newton": {"times": time_of_any("self", "expressions")}}, **UPD)
        C.use(r)
        always(C, "inputs of the hydrogen problem are at the current time when it is solved", r, "times", sym("t"))
    C.guarded("hydrogen", h)

    def ht():
        r = run(find("HeatTransferProblem", "update"), "HeatTransferProblem",
                probes={"newton": {"times": time_of_any("self", "sub_expressions")}})
        C.use(r)
        always(C, "inputs of the heat problem are at the current time when it is solved", r, "times", sym("t"))
    C.guarded("heat", ht)

    def te():
        r = run(find("Temperature", "update"), "Temperature", probes={"fenics.interpolate": {"time": at("self", "expression", "t")}})
        s = spec("temperature_now", "Temperature")
        C.use(r)
        always(C, "a prescribed temperature is evaluated at the current time", r, "time", sym("t"))
        C.equal("a prescribed temperature is updated to its expression", val(r, attr_of("self", "T")), val(s, s.ret), C.both(r, s), r.fi)
    C.guarded("temperature", te)


@prop_check("C12", "C04", "C05")
def registered(C):
    def asm():
        st = {"create_form", "create_forms"}
        r = run(find("HTransportProblem", "define_variational_problem"), "HTransportProblem",
                types=dict(materials=("Materials", True), mesh="Mesh", dt=("Stepsize", True)), stop=st)
        s = spec("assembled_expressions", "HTransportProblem", stop=st)
        C.use(r)
        t = "time-dependent inputs of the mobile and trap equations are registered"
        C.covers(t, multiset(r.items("expressions")), multiset(s.norm(s.ret)), C.both(r, s), r.fi)
    C.guarded("assembled", asm)

    def tr():
        at_ = dict(INT_IDS)
        at_.update({("Source", "volume"): "int", ("Trap", "sources"): "list"})
        r = run(find("Trap", "create_form"), "Trap", types=TT, attr=at_)
        got = multiset(r.items("sub_expressions"))
        C.use(r)
        s = spec("trap_inputs", "Trap", attr=at_)
        C.covers("densities of a trap are registered", got, multiset(s.norm(s.ret)), c_and(r.g, s.g), r.fi)
        s = spec("source_inputs", "Trap", attr=at_)
        C.covers("sources of a trap are registered", got, multiset(s.norm(s.ret)),
                 c_and(r.g, s.g, c_not(null(attr_of("self", "sources")))), r.fi)
    C.guarded("trap", tr)

    def trs():
        st = {"create_form"}
        r = run(find("Traps", "create_forms"), "Traps", types=TT, stop=st)
        s = spec("all_trap_inputs", "Traps", stop=st)
        C.use(r)
        C.covers("inputs of every trap are registered", multiset(r.items("sub_expressions")), multiset(s.norm(s.ret)), C.both(r, s), r.fi)
    C.guarded("traps", trs)

    for cls in ("Mobile", "Theta"):
        def mo():
            r = run(find(cls, "create_form"), cls, types=TT, pre=lst("boundary_conditions"), args=dict(traps=NONE, materials=mkL([])))
            s = spec("source_inputs", cls)
            C.use(r)
            C.covers("%s: sources are registered" % cls, multiset(r.items("sub_expressions")), multiset(s.norm(s.ret)), C.both(r, s), r.fi)
            for law in FLUX_LAWS + ("SurfaceKinetics",):
                r = run(find(cls, "create_form"), cls, types=TT, pre=lst("sources"), args=dict(traps=NONE, materials=mkL([])), elem=bcs_are(law))
                s = spec("solute_flux_inputs", cls, elem=bcs_are(law))
                C.use(r)
                C.covers("%s: inputs of %s are registered" % (cls, law), multiset(r.items("sub_expressions")), multiset(s.norm(s.ret)), C.both(r, s), r.fi)
        C.guarded(cls, mo)

    def di():
        st = {"create_dirichletbc"}
        r = run(find("HTransportProblem", "create_dirichlet_bcs"), "HTransportProblem", stop=st, types=TT)
        s = spec("dirichlet_inputs", "HTransportProblem", stop=st)
        C.use(r)
        C.covers("inputs of the Dirichlet conditions are registered", multiset(r.items("expressions")), multiset(s.norm(s.ret)), C.both(r, s), r.fi)
    C.guarded("dirichlet", di)

    def he():
        st = {"create_form", "create_expression"}
        r = run(find("HeatTransferProblem", "define_variational_problem"), "HeatTransferProblem", types=TT, stop=st,
                args=dict(materials=mkL([])))
        C.use(r)
        got = multiset(r.items("sub_expressions"))
        s = spec("source_inputs", "HeatTransferProblem")
        C.covers("heat sources are registered", got, multiset(s.norm(s.ret)), c_and(r.g, s.g), r.fi)
        s = spec("heat_flux_inputs", "HeatTransferProblem", stop=st)
        C.covers("inputs of the heat fluxes are registered", got, multiset(s.norm(s.ret)), c_and(r.g, s.g), r.fi)
        r = run(find("HeatTransferProblem", "create_dirichlet_bcs"), "HeatTransferProblem", types=TT, stop=st)
        s = spec("heat_dirichlet_inputs", "HeatTransferProblem", stop=st)
        C.use(r)
        C.covers("inputs of the imposed temperatures are registered", multiset(r.items("sub_expressions")), multiset(s.norm(s.ret)), C.both(r, s), r.fi)
    C.guarded("heat", he)

    for law in ("FluxBC", "ConvectiveFlux", "CustomFlux"):
        def hf():
            r = run(find("HeatTransferProblem", "define_variational_problem"), "HeatTransferProblem", types=TT, elem=bcs_are(law),
                    args=dict(materials=mkL([])))
            s = spec("all_flux_inputs", "HeatTransferProblem", elem=bcs_are(law))
            C.use(r)
            C.covers("heat: inputs of %s are registered" % law, multiset(r.items("sub_expressions")), multiset(s.norm(s.ret)), C.both(r, s), r.fi)
        C.guarded("heat " + law, hf)
    for cls in ("ImplantationDirichlet", "SievertsBC", "HenrysBC", "CustomDirichlet"):
        def dl():
            at_ = {(cls, "prms"): "dict"}
            r = run(find(cls, "create_expression"), cls, attr=at_)
            s = spec("dirichlet_law_inputs", cls, attr=at_)
            C.use(r)
            C.covers("inputs of %s are registered" % cls, multiset(r.items("sub_expressions")), multiset(s.norm(s.ret)),
                     C.both(r, s, c_or(null(attr_of("self", "Kd_0")), c_not(null(attr_of("self", "P"))))), r.fi)
        C.guarded(cls, dl)
    names = "phi_0 n_amax n_bmax eta_a eta_b f_a f_b phi K n_max A_0 E_A".split()
    for n, c in (("extrinsic", "ExtrinsicTrap"), ("neutron", "NeutronInducedTrap")):
        def ex():
            ty = {k: ("sp.Expr", False) for k in names}
            ty["m"] = "Material"
            r, s = spec("i_" + n, types=ty), spec("ri_" + n, types=ty)
            C.use(r)
            got = fmap(lambda g: mkL(r.it.segs_of(r.st, g)), r.ret)
            C.covers("%s: time-dependent parameters are registered" % c, multiset(r.norm(got)), multiset(s.norm(s.ret)), C.both(r, s), find(c, "__init__"))
        C.guarded(c, ex)


@prop_check("C13")
def stepsize(C):
    S = {("Stepsize", "value"): ("fenics.Constant", True)}

    def ad():
        r = run(find("Stepsize", "adapt"), "Stepsize", attr=S)
        s = spec("adapted", "Stepsize", attr=S)
        q = spec("adapt_refused", "Stepsize", attr=S)
        C.use(r)
        C.equal("step size after a solve", val(r, attr_of("self", "value")), val(s, s.ret), c_and(r.g, s.g), r.fi)
        C.same_cond("a diverged step without room to shrink is refused", r.raised(), c_truth(q.ret), T_, r.fi)
    C.guarded("adapt", ad)

    def mi():
        r = run(find("Stepsize", "next_milestone"), "Stepsize")
        s = spec("next_one", "Stepsize")
        C.use(r)
        C.equal("next milestone", r.norm(r.ret), s.norm(s.ret), C.both(r, s), r.fi)
        r = run(find("Stepsize", "adapt_to_next_milestone"), "Stepsize", attr=S)
        s = spec("to_milestone", "Stepsize", attr=S)
        C.use(r)
        C.equal("a step does not go past a milestone", val(r, attr_of("self", "value")), val(s, s.ret), C.both(r, s), r.fi)
    C.guarded("milestones", mi)

    def fi():
        A = dict(S)
        A[("Simulation", "dt")] = ("Stepsize", True)
        A[("Simulation", "_dt")] = ("Stepsize", True)
        r = run(find("Simulation", "adapt_to_final_time"), "Simulation", attr=A)
        s = spec("to_final", "Simulation", attr=A)
        C.use(r)
        C.equal("a step does not go past the final time", val(r, r.it.get_attr(r.it.get_attr(r.selfv, "dt", r.st, None), "value", r.st, None)), val(s, s.ret), C.both(r, s), r.fi)
    C.guarded("final time", fi)


SV = {("Stepsize", "value"): ("fenics.Constant", True)}
SIMT = dict(SV)
for _a, _c in (("dt", "Stepsize"), ("T", "Temperature"), ("h_transport_problem", "HTransportProblem"), ("exports", "Exports"),
               ("settings", "Settings"), ("mesh", "Mesh")):
    SIMT[("Simulation", _a)] = (_c, True)
    SIMT[("Simulation", "_" + _a)] = (_c, True)


def step_effect(it, st, env):
    """solving changes the step size"""
    v = it.get_attr(env["dt"], "value", st, None)
    it.heap_write(st, v, "$val", mkterm("out", "update", (env["t"],), "dt"))


def dt_of(it, st, args=None):
    return it.val_of(it.get_attr(it.get_attr(sym("self"), "dt", st, None), "value", st, None), st)


def adapted_by(it, st, env):
    pass


@prop_check("C13")
def stepping(C):
    t0 = sym("self")

    def us():
        ty = {k: ("float", False) for k in "initial_value stepsize_change_ratio t_stop stepsize_stop_max dt_min t".split()}
        ty["milestones"] = ("list", False)
        r, s, q = spec("u_stepsize", types=ty), spec("r_stepsize", types=ty), spec("r_stepsize_refused", types=ty)
        C.use(r)
        fi = find("Stepsize", "adapt")
        C.equal("step size after a solve, from the arguments of Stepsize", r.norm(r.ret), s.norm(s.ret), c_and(r.g, s.g), fi)
        r, s = spec("u_initial", types=ty), spec("r_initial", types=ty)
        C.equal("a step size starts from its initial value", r.norm(r.ret), s.norm(s.ret), C.both(r, s), find("Stepsize", "initialise_value"))
    C.guarded("user", us)


@prop_check("C13", "C12", "C14")
def one_iteration(C):
    def it_():
        kw = dict(attr=SIMT, stop={"Temperature.update", "HTransportProblem.update", "run_post_processing", "display_time"},
                  effects={"HTransportProblem.update": step_effect})
        now = {"self.t": at("self", "t")}
        r = run(find("Simulation", "iterate"), "Simulation", probes={"run_post_processing": now}, **kw)
        s = spec("one_step", "Simulation", **kw)
        C.use(r)
        names = ("update", "run_post_processing")
        same_events(C, "a step advances time by the step size and solves for that time", r, s, names, C.both(r, s))
        heat = lambda e: any(e.args[0] is attr_of("self", n) for n in ("T", "_T"))
        es = events(r, ("update",))
        in_order(C, "temperature, then hydrogen", r, [e for e in es if heat(e)], [e for e in es if not heat(e)])
        in_order(C, "post-processing comes last", r, events(r, ("update",)), events(r, ("run_post_processing",)))
        always(C, "results are attributed to the time of the step", r, "self.t", s.attr("t"))
        s = spec("left_after_step", "Simulation", **kw)
        C.equal("the next step does not go past the final time", r.norm(dt_of(r.it, r.st)), s.norm(dt_of(s.it, s.st)), C.both(r, s), r.fi)
    C.guarded("iterate", it_)


@prop_check("C13", "C20", "C22")
def whole_run(C):
    def tr():
        kw = dict(attr=SIMT, stop={"iterate", "compute_jacobian"})
        r = run(find("Simulation", "run_transient"), "Simulation", probes={"iterate": {"final": at("self", "exports", "final_time"), "dt": dt_of}}, **kw)
        s = spec("whole_run", "Simulation", **kw)
        C.use(r)
        same_events(C, "steps are made until the final time", r, s, ("iterate", "compute_jacobian"))
        always(C, "exports know the final time", r, "final", attr_of("self", "settings", "final_time"))
        s = spec("first_dt", "Simulation", **kw)
        always(C, "the first step does not go past a milestone or the final time", r, "dt", s.norm(dt_of(s.it, s.st)), first=True)
        r = run(find("Simulation", "run"), "Simulation", attr=SIMT, stop={"run_transient", "run_steady"})
        s = spec("either", "Simulation", attr=SIMT, stop={"run_transient", "run_steady"})
        C.use(r)
        same_events(C, "transient or steady, as set", r, s, ("run_transient", "run_steady"))
    C.guarded("run", tr)


@prop_check("C13", "C22", "C23", "C24")
def step_results(C):
    def pp():
        kw = dict(attr=SIMT, stop={"update_post_processing_solutions", "write"})
        r = run(find("Simulation", "run_post_processing"), "Simulation", probes={"write": {"t": at("self", "exports", "t")}}, **kw)
        s = spec("post_process", "Simulation", **kw)
        C.use(r)
        same_events(C, "every step is post-processed and exported", r, s, ("update_post_processing_solutions", "write"), C.both(r, s))
        in_order(C, "exports see the fields of the step", r, events(r, ("update_post_processing_solutions",)), events(r, ("write",)))
        always(C, "exports are dated with the current time", r, "t", attr_of("self", "t"))
    C.guarded("post", pp)


def solves(r, u):
    return [e for e in r.it.events if e.kind == "newton" and e.args[2] is u]


@prop_check("C14")
def protocol(C):
    u, un = attr_of("self", "u"), attr_of("self", "u_n")

    def up():
        r = run(find("HTransportProblem", "update"), "HTransportProblem", watch=[held("dt", "value")],
                probes={"newton": {"u": held("self", "u"), "u_n": held("self", "u_n"), "dt": held("dt", "value")}}, **UPD)
        C.use(r)
        always(C, "every attempt starts from the solution of the last step", r, "u", r.norm(mkterm("val", u)) if False else start(r, u), least=2)
        always(C, "the previous solution is that of the last step in every attempt", r, "u_n", start(r, un), least=2)
        always(C, "the first attempt uses the step size time was advanced by", r, "dt", start(r, attr_of("dt", "value")), first=True)
        what_is_solved(C, r)
        C.equal("after a step the previous solution is the accepted one", val(r, un), val(r, u), r.g, r.fi)
    C.guarded("update", up)


def what_is_solved(C, r):
        s = spec("problem_of", "HTransportProblem")
        es = [e for e in r.it.events if e.kind == "newton"]
        for e in es:
            got = r.norm(e.args[1])
            if diff_terms(got - s.norm(s.ret), c_and(e.g, s.g)):
                C.equal("what is solved: residual, Jacobian and Dirichlet conditions", got, s.norm(s.ret), c_and(e.g, s.g), e.func)
                break
        else:
            C.add("what is solved: residual, Jacobian and Dirichlet conditions", "holds" if es else "undecided", C.at(r))


def start(r, f):
    """what the Function at f held at the beginning"""
    from .interp import State
    return r.norm(r.it.val_of(f, State()))


def accepted(C, title, r, f):
    """whatever the unknown ends up holding comes from a solve that converged"""
    v = r.it.val_of(f, r.st)
    n = 0
    for c, g in core.cases(v):
        if not feasible(c_and(c, r.g)):
            continue
        t = as_atom(g)
        if t is None or t.op != "newton":
            C.add(title, "undecided", C.at(r), ["the unknown holds %s" % cut(show(g))])
            return
        n += 1
        ok = c_truth(atom(T("converged", *t.args)))
        x = c_and(c, r.g, c_not(ok))
        if feasible(x):
            if C.undecidable((x,)):
                C.add(title, "undecided", C.at(r), [cut(show_cond(x))])
            else:
                C.add(title, "violated", C.at(r), ["the function returns with a solution of a solve that did not converge when %s" % cut(show_cond(x), 400)],
                      "accepted solution")
            return
    C.add(title, "holds" if n else "undecided", C.at(r))


def parameter(r, obj, name):
    """value of obj.newton_solver.parameters[name]"""
    v = r.it.get_attr(obj, "newton_solver", r.st, None)
    v = r.it.get_attr(v, "parameters", r.st, None)
    return r.norm(r.it.getitem(v, mkstr(name), r.st, NODE))


SOLVERS = ("HTransportProblem", "HeatTransferProblem", "ExtrinsicTrapBase")


@prop_check("C15")
def convergence(C):
    u = attr_of("self", "u")

    def up():
        r = run(find("HTransportProblem", "update"), "HTransportProblem", watch=[held("dt", "value")], **UPD)
        s = spec("attempts", types=dict(self=("HTransportProblem", True), dt=("Stepsize", True)), watch=[held("dt", "value")],
                 stop=UPD["stop"], effects=UPD["effects"])
        C.use(r)
        accepted(C, "a step is accepted only if its solve converged", r, u)
        C.same_cond("a diverged step that cannot be retried is refused", r.raised(), s.raised(), T_, r.fi)
        same_events(C, "every attempt is reported to the step size", r, s, ("adapt",))
    C.guarded("update", up)

    def st():
        kw = dict(attr=SIMT, stop={"solve_once", "run_post_processing"})
        r = run(find("Simulation", "run_steady"), "Simulation", **kw)
        s = spec("steady", "Simulation", **kw)
        C.use(r)
        C.same_cond("a diverged steady state is refused", r.raised(), s.raised(), T_, r.fi)
        same_events(C, "a converged steady state is exported", r, s, ("solve_once", "run_post_processing"), C.both(r, s))
        in_order(C, "a steady state is exported once solved", r, events(r, ("solve_once",)), events(r, ("run_post_processing",)))
    C.guarded("steady", st)

    def so():
        r = run(find("HTransportProblem", "solve_once"), "HTransportProblem")
        C.use(r)
        v = r.it.val_of(u, r.st)
        if any(as_atom(g) is None or as_atom(g).op != "newton" for c, g in core.cases(v) if feasible(c_and(c, r.g))):
            C.add("solve_once reports the convergence of its solve", "undecided", C.at(r))
            return
        for i, op in ((0, "niter"), (1, "converged")):
            C.equal("solve_once reports the convergence of its solve (%s)" % op, r.norm(r.it.getitem(r.ret, num(i), r.st, NODE)),
                    r.norm(fmap(lambda g: atom(T(op, *as_atom(g).args)), v)), r.g, r.fi)
    C.guarded("solve_once", so)

    def quiet():
        r = run(find("HTransportProblem", "define_newton_solver"), "HTransportProblem")
        C.use(r)
        C.equal("HTransportProblem: a solve that does not converge is reported, so that the step is retried", parameter(r, r.selfv, "error_on_nonconvergence"), FALSE, r.g, r.fi)
    C.guarded("reported", quiet)
    for cls in SOLVERS[1:]:
        def pa():
            r = run(find(cls, "define_newton_solver"), cls)
            C.use(r)
            C.equal("%s: the solver raises when it does not converge" % cls, parameter(r, r.selfv, "error_on_nonconvergence"), TRUE, r.g, r.fi)
        C.guarded(cls, pa)


@prop_check("C20")
def solver_settings(C):
    for cls in SOLVERS:
        def pa():
            r = run(find(cls, "define_newton_solver"), cls)
            C.use(r)
            own = attr_of("self", "settings") if cls == "HTransportProblem" else sym("self")
            for n in ("absolute_tolerance", "relative_tolerance", "maximum_iterations", "linear_solver", "preconditioner"):
                C.equal("%s: %s" % (cls, n), parameter(r, r.selfv, n), attr_of(own, n), r.g, r.fi)
        C.guarded(cls, pa)


TOL = ("absolute_tolerance", "relative_tolerance", "maximum_iterations", "linear_solver", "preconditioner")


def keeps(C, cls, names, types=None, title="%s: argument %s", **kw):
    """the constructor stores its arguments under their own names"""
    def go():
        r = run(find(cls, "__init__"), cls, types=types, **kw)
        C.use(r)
        for n in names:
            C.equal(title % (cls, n), r.attr(n), sym(n), r.g, r.fi, "attribute " + n)
    C.guarded("arguments of " + cls, go)


@prop_check("C20")
def settings_kept(C):
    keeps(C, "Settings", ("transient", "final_time", "chemical_pot", "soret", "traps_element_type", "update_jacobian") + TOL)
    keeps(C, "HeatTransferProblem", TOL + ("transient",))
    for cls, n in (("ExtrinsicTrap", "extrinsic"), ("NeutronInducedTrap", "neutron")):
        def go():
            r = spec("s_" + n, types=dict(m="Material"))
            C.use(r)
            for i, a in enumerate(TOL):
                C.equal("%s: argument %s" % (cls, a), r.norm(r.it.getitem(r.ret, num(i), r.st, NODE)), sym(a), r.g, find(cls, "__init__"))
        C.guarded(cls, go)

    def ja():
        r = run(find("HTransportProblem", "compute_jacobian"), "HTransportProblem")
        s = spec("jacobian", "HTransportProblem")
        C.use(r)
        C.equal("a Jacobian computed once is that of the problem", r.attr("J"), s.norm(s.ret), C.both(r, s), r.fi)
        r = run(find("HTransportProblem", "solve_once"), "HTransportProblem", probes={"newton": {"solver": lambda it, st, a: a[0]}})
        C.use(r)
        always(C, "hydrogen: the configured solver solves", r, "solver", r.norm(r.it.get_attr(r.selfv, "newton_solver", r.st, None)))
        what_is_solved(C, r)
        r = run(find("HeatTransferProblem", "update"), "HeatTransferProblem", probes={"newton": {"solver": lambda it, st, a: a[0]}})
        C.use(r)
        always(C, "heat: the configured solver solves", r, "solver", r.norm(r.it.get_attr(r.selfv, "newton_solver", r.st, None)))
    C.guarded("jacobian", ja)

    def own():
        st = {"define_variational_problem", "create_dirichlet_bcs", "define_newton_solver"}
        r = run(find("HeatTransferProblem", "create_functions"), "HeatTransferProblem", stop=st)
        C.use(r)
        made = F_
        for e in r.it.events:
            if e.name == "define_newton_solver":
                made = c_or(made, e.g)
        x = atom(T("attr", sym("self"), "_newton_solver"))
        has = r.it.truth(x, r.st)
        care = c_and(r.g, c_or(has, c_eq(x, NONE)))  # a solver is true
        C.same_cond("heat: a solver given by the user is kept", made, c_not(has), care, r.fi)
    C.guarded("heat solver", own)


@prop_check("C14", "C20", "C05")
def problem(C):
    def pb():
        r, s = spec("u_problem"), spec("r_problem")
        C.use(r)
        same_events(C, "a problem is its residual, its Jacobian and its boundary conditions", r, s, ("assemble",), C.both(r, s), fi=find("Problem", "__init__"))
        C.completes("a problem is assembled", r, s.g)
    C.guarded("problem", pb)


@prop_check("C07")
def post_processed(C):
    def go():
        r = run(find("Theta", "post_processing_solution_to_concentration"), "Theta")
        s = spec("post_processed", "Theta")
        C.use(r)
        C.equal("exported concentration: solved from its form", val(r, r.it.get_attr(r.selfv, "post_processing_solution", r.st, None)),
                val(s, s.it.get_attr(s.args["self"], "post_processing_solution", s.st, None)), C.both(r, s), r.fi, "solve")
        C.completes("exported concentration: solved from its form", r, s.g)
    C.guarded("exported concentration", go)
    for cls, law in (("Temperature", "steady_prescribed"), ("HeatTransferProblem", "steady_heat_problem")):
        def st():
            r = run(find(cls, "is_steady_state"), cls)
            s = spec(law, cls)
            C.use(r)
            yes = r.it.truth(r.ret, r.st)
            q = spec("numeric_value", cls)
            expr = c_not(q.it.truth(q.ret, q.st))
            C.same_cond("%s: solubility is frozen only when it cannot change" % cls, yes, s.it.truth(s.ret, s.st), c_and(C.both(r, s), yes, expr), r.fi)
        C.guarded("steady", st)


@prop_check("C14")
def temperatures(C):
    T, Tn = attr_of("self", "T"), attr_of("self", "T_n")

    def pre():
        r = run(find("Temperature", "update"), "Temperature")
        C.use(r)
        C.equal("prescribed temperature: the previous one is that of the last step", val(r, Tn), start(r, T), r.g, r.fi)
    C.guarded("prescribed", pre)

    def heat():
        r = run(find("HeatTransferProblem", "update"), "HeatTransferProblem", probes={"newton": {"T": held("self", "T"), "T_n": held("self", "T_n")}})
        s = spec("heat_solution", "HeatTransferProblem")
        C.use(r)
        tr = c_truth(attr_of("self", "transient"))
        C.equal("computed temperature: the previous one is that of the last step", val(r, Tn), start(r, T), c_and(r.g, tr), r.fi)
        C.equal("computed temperature: what is solved", val(r, T), val(s, T), C.both(r, s), r.fi)
        always(C, "computed temperature: solved from the last step", r, "T_n", start(r, T))
    C.guarded("computed", heat)


@prop_check("C08", "C14")
def extrinsic_steps(C):
    def up():
        r = run(find("HTransportProblem", "update"), "HTransportProblem", watch=[held("dt", "value")], **UPD)
        s = spec("extrinsic_update", types=dict(self=("HTransportProblem", True), dt=("Stepsize", True)), stop=UPD["stop"])
        C.use(r)
        same_events(C, "densities advance once per accepted step", r, s, ("update_extrinsic_traps_density", "solve_extrinsic_traps"), c_and(r.g, s.g))
    C.guarded("update", up)

    def so():
        r = run(find("Traps", "solve_extrinsic_traps"), "Traps")
        s = spec("extrinsic_solves", "Traps")
        C.use(r)
        same_events(C, "the density of every extrinsic trap is solved", r, s, ("newton",), C.both(r, s), kinds=("newton",))
    C.guarded("solve", so)

    def prev():
        i = atom(T("sym", "any_index"))
        r = run(find("Traps", "update_extrinsic_traps_density"), "Traps", elem={"Traps": ("ExtrinsicTrapBase", False)})
        C.use(r)
        t = r.it.elem(r.st, r.selfv, i)
        C.equal("the previous density is that of the last step", val(r, r.it.get_attr(t, "density_previous_solution", r.st, None)),
                start(r, r.it.getitem(r.it.get_attr(t, "density", r.st, None), num(0), r.st, NODE)), r.g, r.fi)
    C.guarded("previous", prev)

    def fo():
        st = {"create_form_density", "define_newton_solver"}
        r = run(find("Traps", "define_variational_problem_extrinsic_traps"), "Traps", stop=st)
        s = spec("extrinsic_forms", "Traps", stop=st)
        C.use(r)
        same_events(C, "every extrinsic trap gets its density equation", r, s, ("create_form_density",), C.both(r, s))
        r = run(find("Traps", "define_newton_solver_extrinsic_traps"), "Traps", stop=st)
        s = spec("extrinsic_solvers", "Traps", stop=st)
        C.use(r)
        same_events(C, "every extrinsic trap gets its solver", r, s, ("define_newton_solver",), C.both(r, s))
    C.guarded("forms", fo)


def heat_form_effect(it, st, env):
    """the form is made of the functions there are at that time"""
    me = env["self"]
    fs = tuple(it.get_attr(me, n, st, None) for n in ("T", "T_n", "v_T"))
    it.heap_write(st, me, "F", mkterm("out", "define_variational_problem", (env["materials"], env["mesh"], env["dt"]) + fs, "F"))


def heat_bcs_effect(it, st, env):
    me = env["self"]
    it.heap_write(st, me, "dirichlet_bcs", mkterm("out", "create_dirichlet_bcs", (env["surface_markers"], it.get_attr(me, "T", st, None)), "dirichlet_bcs"))


@prop_check("C03")
def steady_heat(C):
    def go():
        cls = "HeatTransferProblem"
        kw = dict(stop={"define_variational_problem", "create_dirichlet_bcs", "define_newton_solver"},
                  effects={"define_variational_problem": heat_form_effect, "create_dirichlet_bcs": heat_bcs_effect},
                  probes={"newton": {"solver": lambda it, st, a: a[0]}})
        r = run(find(cls, "create_functions"), cls, types=dict(TT, self=(cls, True)), **kw)
        s = spec("heat_setup", cls, **kw)
        C.use(r)
        r.tag("T", "T_n")
        s.tag("T", "T_n")
        steady = c_not(c_truth(attr_of("self", "transient")))
        both = c_and(r.g, s.g)
        get = lambda q, n: q.norm(q.it.val_of(q.it.get_attr(q.selfv if q is r else q.args["self"], n, q.st, None), q.st))
        for n in ("T", "T_n"):
            C.equal("steady heat transfer: %s is the solution of the problem" % n, get(r, n), get(s, n), c_and(both, steady), r.fi)
        for n in ("F", "dirichlet_bcs"):
            C.equal("heat transfer: %s is that of the model" % n, r.attr(n), s.attr(n), both, r.fi)
        C.completes("steady heat transfer", r, c_and(s.g, steady))
        always(C, "steady heat transfer: the configured solver solves", r, "solver", r.it.get_attr(r.selfv, "newton_solver", r.st, None), steady)
    C.guarded("steady heat", go)
