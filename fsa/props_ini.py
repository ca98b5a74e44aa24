"""Function spaces, components and initial values."""
from .oblig import *
from .reg import prop_check
from .props_eq import spec, attr_of, null, form, find, TT, lst, INT_IDS, E, val, items, not_str
from .props_run import events, ev_sum, same_events, in_order, obj_list, two_traps, distinct_ids, SIM
from .props_step import at, held, probes, always, start, SIMT, keeps
from .props_mat import stores, returns

def start_state():
    from .interp import State
    return State()


HTP = {("HTransportProblem", "mobile"): ("Mobile", True), ("HTransportProblem", "settings"): ("Settings", True)}


def n_traps(n, cls="Trap"):
    def pre(it, st, v):
        for k in range(n):
            it.types[T("sym", "trap%d" % (k + 1))] = (cls, True)
        it.heap_write(st, v["self"], "traps", obj_list(it, st, "Traps", [sym("trap%d" % (k + 1)) for k in range(n)]))
    return pre


def no_kinetics(it, st, v):
    n_traps(0)(it, st, v)
    it.heap_write(st, v["self"], "boundary_conditions", it.new_list(st, []))


def components(s, r=None):
    v = s.it.call_method(s.it.get_attr(s.args["self"], "V", s.st, None), "num_sub_spaces", [], [], s.st, NODE)
    return c_eq(v, num(0))


def pairs(C, title, r, names, care, fi):
    for k, n in enumerate(names):
        p = r.it.getitem(r.ret, num(k), r.st, NODE)
        a, b = (r.it.reify(r.st, r.it.getitem(p, num(j), r.st, NODE)) for j in (0, 1))
        C.equal("%s: %s" % (title, n), a, b, c_and(r.g, care), fi, "component")


@prop_check("C19", "C07")
def spaces(C):
    stores(C, "function spaces", ("HTransportProblem", "define_function_space"), "spaces", ("V", "V_CG1", "V_DG1"), attr=HTP)
    fi = ("HTransportProblem", "initialise_concentrations")
    st = {"initialise"}

    def single():
        kw = dict(attr=HTP, types=dict(self=("HTransportProblem", True)), stop={"initialise"}, pre=no_kinetics)
        r = spec("u_single", **kw)
        C.use(r)
        pairs(C, "one component", r, ("solution", "previous solution", "test function"), components(r), find(*fi))
        kw = dict(attr=HTP, stop={"initialise"}, pre=no_kinetics)
        r = run(find(*fi), "HTransportProblem", **kw)
        s = spec("r_single_values", "HTransportProblem", **kw)
        C.use(r)
        for n in ("u", "u_n", "v"):
            x = r.it.get_attr(r.selfv, n, r.st, None)
            C.equal("function space of " + n, r.norm(r.it.call_method(x, "function_space", [], [], r.st, NODE)), attr_of("self", "V"), c_and(r.g, components(s)), r.fi)
        r.tag("u", "u_n")
        s.tag("u", "u_n")
        same_events(C, "one component: initial values", r, s, ("initialise", "assign"), c_and(s.g, r.g, components(s)))
    C.guarded("one component", single)

    def mixed(n):
        kw = dict(attr=HTP, types=dict(self=("HTransportProblem", True), sa=("int", False), law=("object", False)), stop=st, pre=n_traps(n))
        r = spec("u_mixed", **kw)
        C.use(r)
        many = c_not(components(r))
        f = ("solution", "previous solution", "test function")
        names = ["%s of %s" % (a, b) for b in ["the mobile field"] + ["trap %d" % (k + 1) for k in range(n)] + ["surface %d" % (k + 1) for k in range(3)] for a in f]
        pairs(C, "%d traps" % n, r, names, many, find(*fi))
        r, s = spec("u_values", **kw), spec("r_values", **kw)
        C.use(r)
        r.tag("u", "u_n")
        s.tag("u", "u_n")
        care = C.both(r, s, many, distinct_ids() if n else T_)
        same_events(C, "%d traps: initial conditions go to their field" % n, r, s, ("initialise",), care, find(*fi))
        same_events(C, "%d traps: initial values of adsorbed concentrations, first guess" % n, r, s, ("assign",), care, find(*fi))
        in_order(C, "%d traps: initial values before the first guess" % n, r, events(r, ("initialise",)),
                 [e for e in events(r, ("assign",)) if contains(e.args, lambda t: t.op == "call" and t.args[0] == "fenics.project")], fi=find(*fi))
    for n in (0, 1, 2):
        C.guarded("%d traps" % n, lambda: mixed(n))
    for cls in ("Mobile", "Trap"):
        def go():
            r = run(find(cls, "initialise"), cls)
            s = spec("starts_from", cls)
            C.use(r)
            same_events(C, "%s: initial value" % cls, r, s, ("assign", "read_checkpoint"), C.both(r, s))
        C.guarded(cls, go)


@prop_check("C19")
def temperatures(C):
    for cls, sp_, names in (("Temperature", "law_start", ("T", "T_n", "expression")), ("TemperatureFromXDMF", "file_start", ("T", "T_n")),
                            ("HeatTransferProblem", "heat_start", ("T", "T_n"))):
        def go():
            kw = dict(stop={"define_variational_problem", "create_dirichlet_bcs", "define_newton_solver"} if cls == "HeatTransferProblem" else ())
            ty = dict(TT, self=(cls, True))
            r = run(find(cls, "create_functions"), cls, types=ty, **kw)
            s = spec(sp_, cls, **kw)
            C.use(r)
            care = C.both(r, s)
            if cls == "HeatTransferProblem":
                care = c_and(care, c_truth(attr_of("self", "transient")), c_truth(r.it.get_attr(r.selfv, "initial_condition", start_state(), None)))
            for n in names:
                C.equal("%s: %s is created" % (cls, n), r.attr(n), s.attr(n), care, r.fi)
                if n != "expression":
                    a, b = (q.norm(q.it.val_of(q.it.get_attr(q.selfv if q is r else q.args["self"], n, q.st, None), q.st)) for q in (r, s))
                    C.equal("%s: %s starts from the initial value" % (cls, n), a, b, care, r.fi, "initial value")
        C.guarded(cls, go)
