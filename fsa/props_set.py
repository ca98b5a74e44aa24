"""Setting a simulation up: every part is prepared, from the right parts, before it is used."""
from .oblig import *
from .reg import prop_check
from .props_eq import spec, attr_of, null, form, find, TT, lst, INT_IDS, E, val, items, not_str
from .props_run import events, ev_sum, same_events, in_order, obj_list, two_traps, distinct_ids, SIM
from .props_step import at, held, probes, always, start, SIMT, keeps
from .props_cfg import SETUP

SETT = {("Simulation", "settings"): ("Settings", True), ("Simulation", "exports"): ("Exports", True)}
CALLS = ("initialise_value", "attribute_source_terms", "attribute_boundary_conditions", "check_mesh_dim_coords", "define_measures",
         "create_functions", "check_materials", "create_properties", "create_solubility_law_markers", "solubility_as_function",
         "initialise", "initialise_derived_quantities")

# what a step reads has been prepared by the step before it
ORDER = [("define_measures", "create_functions"), ("create_functions", "create_properties"), ("create_properties", "initialise"),
         ("define_measures", "create_properties"), ("define_measures", "create_solubility_law_markers"),
         ("create_solubility_law_markers", "initialise"), ("create_properties", "solubility_as_function"),
         ("create_functions", "solubility_as_function"), ("solubility_as_function", "initialise"),
         ("attribute_source_terms", "initialise"), ("attribute_source_terms", "create_functions"),
         ("attribute_boundary_conditions", "create_functions"), ("attribute_boundary_conditions", "initialise"),
         ("create_properties", "initialise_derived_quantities"), ("define_measures", "initialise_derived_quantities"),
         ("initialise_value", "initialise"),
         ("initialise_value", "create_functions")]


def no_exports(it, st, v):
    put(it, st, v["self"], "exports", obj_list(it, st, "Exports", []))


@prop_check("C18")
def simulation(C):
    def go():
        for mesh in ("Mesh1D", "Mesh"):
            for T in ("Temperature", "HeatTransferProblem"):
                kw = dict(stop=SETUP, attr={**SETT, ("Simulation", "mesh"): (mesh, True), ("Simulation", "T"): (T, True), ("Simulation", "_T"): (T, True)}, pre=no_exports)
                r = run(find("Simulation", "initialise"), "Simulation", **kw)
                s = spec("set_up", "Simulation", **kw)
                C.use(r)
                care = C.both(r, s)
                where = "%s, %s: " % (mesh, T)
                for n in CALLS:
                    # the object initialised is compared by its contents below
                    same_events(C, where + n, r, s, (n,), care, args=(lambda e: e.args[1:]) if n == "initialise" else None)
                for a in ("mobile", "traps", "T", "settings", "initial_conditions"):
                    a = "h_transport_problem." + a
                    C.equal(where + a, r.attr(a), s.attr(a, s.args["self"]), care, r.fi)
                ev = lambda n: events(r, (n,), ("call",))
                for a, b in ORDER:
                    in_order(C, where + "%s before %s" % (a, b), r, ev(a), ev(b))
                for n in ("t", "V_DG1", "exports.V_DG1", "exports.nb_iterations", "mobile"):
                    C.equal(where + n, r.attr(n), s.attr(n, s.args["self"]), care, r.fi)
    C.guarded("simulation", go)


def typed(it, cls, exact, *names):
    for n in names:
        it.types[T("sym", n)] = (cls, exact)
    return [sym(n) for n in names]


def with_exports(it, st, v):
    """two exports of each kind"""
    qs = typed(it, "DerivedQuantity", False, "q1", "q2", "q3")
    xs = [obj_list(it, st, "DerivedQuantities", qs[:2]), obj_list(it, st, "DerivedQuantities", qs[2:])]
    xs += typed(it, "XDMFExport", True, "x1", "x2") + typed(it, "TXTExport", True, "p1", "p2")
    for p in ("p1", "p2"):
        it.heap_write(st, sym(p), "times", NONE)
    put(it, st, v["self"], "exports", obj_list(it, st, "Exports", xs))


@prop_check("C18", "C22", "C24", "C25")
def exports(C):
    def go():
        kw = dict(stop=SETUP, attr={**SETT, ("Simulation", "T"): ("Temperature", True), ("Simulation", "_T"): ("Temperature", True)}, pre=with_exports)
        r = run(find("Simulation", "initialise"), "Simulation", **kw)
        s = spec("set_up_exports", "Simulation", **kw)
        C.use(r)
        care = C.both(r, s)
        for n in ("define_xdmf_file",):
            same_events(C, "exports: " + n, r, s, (n,), care)
        same_events(C, "exports: profiles are initialised", r, s, ("initialise",), care, args=lambda e: e.args[1:] if len(e.args) == 4 and e.args[0] not in (sym("p1"), sym("p2")) else e.args)
        for q in ("q1", "q2", "q3"):
            for a in ("soret", "T"):
                C.equal("exports: %s of %s" % (a, q), r.attr(a, sym(q)), s.attr(a, sym(q)), care, r.fi)
        for x in ("x1", "x2"):
            C.equal("exports: %s starts a new file" % x, r.attr("append", sym(x)), s.attr("append", sym(x)), care, r.fi)
    C.guarded("exports", go)

    def times():
        for given in (None, ["m1"], ["m1", "m2"]):
            def pre(it, st, v):
                it.types[T("sym", "dt")] = ("Stepsize", True)
                put(it, st, v["self"], "dt", sym("dt"))
                put(it, st, sym("dt"), "milestones", NONE if given is None else it.new_list(st, [("one", T_, x) for x in typed(it, "float", True, *given)]))
                xs = typed(it, "TXTExport", True, "p1", "p2", "p3")
                for p, ts in zip(xs, (["t1", "t2"], None, ["t3"])):
                    it.heap_write(st, p, "times", NONE if ts is None else it.new_list(st, [("one", T_, x) for x in typed(it, "float", True, *ts)]))
                put(it, st, v["self"], "exports", obj_list(it, st, "Exports", xs))
            kw = dict(stop=SETUP, attr=SETT, pre=pre)
            r = run(find("Simulation", "initialise"), "Simulation", **kw)
            s = spec("times_reached", "Simulation", **kw)
            C.use(r)
            care = C.both(r, s)
            ns = [sym(x) for x in (given or []) + ["t1", "t2", "t3"]]
            for i, a in enumerate(ns):
                for b in ns[i + 1:]:
                    care = c_and(care, c_not(c_eq(a, b)))
            C.equal("times of profiles are milestones (%d given)" % len(given or []), r.items("milestones", sym("dt")), s.norm(s.it.reify(s.st, fmap(lambda g: mkL(s.it.segs_of(s.st, g)), s.ret))), care, r.fi)
            care = C.both(r, s, c_eq(ns[-1], ns[0]))
            for i, a in enumerate(ns[:-1]):
                for b in ns[i + 1:-1]:
                    care = c_and(care, c_not(c_eq(a, b)))
            C.equal("a time is a milestone once (%d given)" % len(given or []), r.items("milestones", sym("dt")), s.norm(s.it.reify(s.st, fmap(lambda g: mkL(s.it.segs_of(s.st, g)), s.ret))), care, r.fi)
    C.guarded("times", times)


HSTOP = {"attribute_flux_boundary_conditions", "assign_traps_ids", "define_function_space", "initialise_concentrations", "make_traps_materials",
         "initialise_extrinsic_traps", "create_form_post_processing", "define_variational_problem", "HTransportProblem.define_newton_solver", "create_dirichlet_bcs",
         "define_variational_problem_extrinsic_traps", "define_newton_solver_extrinsic_traps"}
HORDER = [("define_function_space", "initialise_concentrations"), ("define_function_space", "initialise_extrinsic_traps"),
          ("assign_traps_ids", "initialise_concentrations"), ("initialise_concentrations", "define_variational_problem"),
          ("initialise_concentrations", "create_form_post_processing"), ("define_function_space", "create_form_post_processing"),
          ("make_traps_materials", "define_variational_problem"), ("initialise_extrinsic_traps", "define_variational_problem"),
          ("attribute_flux_boundary_conditions", "define_variational_problem"), ("define_function_space", "create_dirichlet_bcs"),
          ("define_variational_problem", "create_dirichlet_bcs"), ("initialise_extrinsic_traps", "define_variational_problem_extrinsic_traps")]


@prop_check("C18", "C07", "C08")
def hydrogen(C):
    def go():
        for mob in ("Mobile", "Theta"):
            kw = dict(stop=HSTOP, types=dict(TT, self=("HTransportProblem", True)), attr={("HTransportProblem", "mobile"): (mob, True), ("HTransportProblem", "traps"): ("Traps", True),
                      ("HTransportProblem", "settings"): ("Settings", True)})
            r = run(find("HTransportProblem", "initialise"), "HTransportProblem", **kw)
            s = spec("h_set_up", "HTransportProblem", **kw)
            C.use(r)
            care = C.both(r, s)
            chem = c_truth(r.it.get_attr(attr_of("self", "settings"), "chemical_pot", start_state(), None))
            care = c_and(care, chem if mob == "Theta" else c_not(chem))
            for n in sorted(HSTOP):
                n = n.split(".")[-1]
                same_events(C, "hydrogen problem, %s: %s" % (mob, n), r, s, (n,), care)
            for n in ("S", "materials", "volume_markers", "T") if mob == "Theta" else ():
                C.equal("hydrogen problem, %s: %s" % (mob, n), r.attr("mobile." + n), s.attr("mobile." + n, s.args["self"]), care, r.fi)
            ev = lambda n: events(r, (n,), ("call",))
            for a, b in HORDER:
                in_order(C, "hydrogen problem, %s: %s before %s" % (mob, a, b), r, ev(a), ev(b))
            if mob == "Theta":
                st = [e for e in r.it.events if e.kind == "store" and e.name in ("S", "materials", "volume_markers", "T") and e.args[0] is attr_of("self", "mobile")]
                in_order(C, "hydrogen problem: the chemical potential knows its materials before it is initialised", r, st, ev("initialise_concentrations"))
    C.guarded("hydrogen", go)


def start_state():
    from .interp import State
    return State()


@prop_check("C18", "C04", "C05")
def attributed(C):
    def bcs():
        r = run(find("Simulation", "attribute_boundary_conditions"), "Simulation", stop={"check_boundary_conditions"}, attr=SIM)
        s = spec("bcs_attributed", "Simulation", stop={"check_boundary_conditions"}, attr=SIM)
        C.use(r)
        care = C.both(r, s)
        same_events(C, "boundary conditions are checked", r, s, ("check_boundary_conditions",), care)
        for k, n in enumerate(("T.boundary_conditions", "h_transport_problem.boundary_conditions")):
            C.equal("conditions in " + n, multiset(r.items(n)), multiset(s.norm(s.it.reify(s.st, s.it.getitem(s.ret, num(k), s.st, NODE)))), care, r.fi, "boundary conditions")
    C.guarded("boundary conditions", bcs)

    def flux():
        r = run(find("HTransportProblem", "attribute_flux_boundary_conditions"), "HTransportProblem")
        s = spec("flux_added", "HTransportProblem")
        C.use(r)
        C.equal("flux conditions of the mobile field", multiset(r.items("mobile.boundary_conditions")), multiset(s.norm(s.ret)), C.both(r, s), r.fi, "boundary conditions")
    C.guarded("flux conditions", flux)


def some_exports(it, st, v):
    qs = typed(it, "DerivedQuantity", False, "q1", "q2", "q3")
    a, b = obj_list(it, st, "DerivedQuantities", qs[:2]), obj_list(it, st, "DerivedQuantities", qs[2:])
    v["dq1"], v["dq2"] = a, b
    xs = [a] + typed(it, "XDMFExport", True, "x1") + [b]
    it.heap_write(st, v["self"], "$items", mkL([("one", T_, x) for x in xs]))


@prop_check("C18", "C10", "C23", "C24")
def quantities(C):
    def go():
        kw = dict(types=dict(TT, ds="fenics.Measure"), pre=some_exports)
        r = run(find("Exports", "initialise_derived_quantities"), "Exports", **kw)
        s = spec("quantities_ready", "Exports", **kw)
        C.use(r)
        care = C.both(r, s)
        for q in ("q1", "q2", "q3"):
            for n in ("dx", "ds", "n", "D", "S", "thermal_cond", "Q"):
                C.equal("derived quantities: %s of %s" % (n, q), r.attr(n, sym(q)), s.attr(n, sym(q)), care, r.fi)
            for n in ("data", "t"):
                C.equal("derived quantities: %s of %s is emptied" % (n, q), r.items(n, sym(q)), s.items(n, sym(q)), care, r.fi)
        for q in ("dq1", "dq2"):
            for n in ("data", "t"):
                C.equal("derived quantities: %s of the %s table is emptied" % (n, q), r.items(n, r.args[q]), s.items(n, s.args[q]), care, r.fi)
            C.equal("derived quantities: markers of the %s table" % q, r.attr("volume_markers", r.args[q]), s.attr("volume_markers", s.args[q]), care, r.fi)
    C.guarded("quantities", go)


def some_traps(it, st, v):
    ts = typed(it, "Trap", False, "trap1", "trap2", "trap3")
    it.heap_write(st, v["self"], "$items", mkL([("one", T_, x) for x in ts]))


@prop_check("C18", "C01", "C08")
def traps(C):
    def go(m, sp_, names, title):
        st = {"make_materials", "create_form_density", "define_newton_solver"}
        kw = dict(types=TT, pre=some_traps, stop=st)
        r = run(find("Traps", m), "Traps", **kw)
        s = spec(sp_, "Traps", **kw)
        C.use(r)
        care = C.both(r, s)
        C.completes("traps: " + title, r, s.g)
        if not names:
            same_events(C, "traps: " + title, r, s, tuple(st), care)
        for n in names:
            for t in ("trap1", "trap2", "trap3"):
                f = (lambda q: q.items(n, sym(t))) if n == "density" else (lambda q: q.attr(n, sym(t)))
                C.equal("traps: %s: %s of %s" % (title, n, t), f(r), f(s), care, r.fi)
    for a in (("make_traps_materials", "traps_made", (), "materials"), ("assign_traps_ids", "trap_numbers", ("id",), "numbers"),
              ("initialise_extrinsic_traps", "densities_ready", ("density", "density_test_function", "density_previous_solution"), "densities"),
              ("define_variational_problem_extrinsic_traps", "densities_stated", (), "density equations"),
              ("define_newton_solver_extrinsic_traps", "density_solvers", (), "density solvers")):
        C.guarded(a[3], lambda: go(*a))

    def find_trap():
        kw = dict(pre=some_traps)
        r = run(find("Traps", "get_trap"), "Traps", **kw)
        s = spec("found_trap", "Traps", **kw)
        C.use(r)
        C.equal("traps are found by id", r.norm(r.ret), s.norm(s.ret), C.both(r, s), r.fi)
        C.same_cond("a trap that does not exist is refused", r.raised(), s.raised(), T_, r.fi)
    C.guarded("get_trap", find_trap)


@prop_check("C18")
def filters(C):
    def go():
        def pre(it, st, v):
            it.heap_write(st, v["self"], "$items", mkL([("one", T_, x) for x in typed(it, "DerivedQuantity", False, "q1", "q2")]))
        for given in ("surfaces", "volumes", "fields", "instances"):
            args = {k: NONE for k in ("surfaces", "volumes", "fields", "instances") if k != given}
            kw = dict(pre=pre, args=args)
            r = run(find("DerivedQuantities", "filter"), "DerivedQuantities", **kw)
            s = spec("filtered", "DerivedQuantities", **kw)
            C.use(r)
            C.equal("quantities are found by " + given, r.norm(r.ret), s.norm(s.ret), C.both(r, s), r.fi)
        r = run(find("DerivedQuantities", "filter"), "DerivedQuantities", pre=pre)
        s = spec("filtered", "DerivedQuantities", pre=pre)
        C.equal("quantities are found by all criteria", r.norm(r.ret), s.norm(s.ret), C.both(r, s), r.fi)
    C.guarded("filter", go)
