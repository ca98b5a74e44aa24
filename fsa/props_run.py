"""Assembly of the problem, time stepping, solve protocol."""
from .oblig import *
from .reg import prop_check
from .props_eq import spec, attr_of, null, form, find, TT, lst, INT_IDS, E


def events(r, names, kinds=("call", "mcall", "vcall", "new", "store", "app")):
    return [e for e in r.it.events if e.kind in kinds and e.name in names]


def ev_sum(r, evs, args=None):
    """formal sum of the events: how often, with which arguments, under which conditions"""
    tot = num(0)
    for e in evs:
        a = tuple(r.norm(x) if isinstance(x, Lin) else x for x in (e.args if args is None else args(e)))
        n = sum(1 for d, i in e.ctx if i is None)
        x = scale(mkterm("ev", e.name, a, num(n)), e.g)
        for d, i in reversed(e.ctx):
            if i is not None:
                x = mk_sum(d, i, x)
        tot = add(tot, x)
    return tot


def same_events(C, title, r, s, names, care=T_, fi=None, args=None, kinds=("call", "mcall", "vcall", "new", "store", "app")):
    return C.equal(title, ev_sum(r, events(r, names, kinds), args), ev_sum(s, events(s, names, kinds), args), care, fi or r.fi, "calls")


def in_order(C, title, r, before, after, care=T_, fi=None):
    """every event of `before` precedes every event of `after` it can occur with"""
    bad = []
    for a in before:
        for b in after:
            if a.seq > b.seq and feasible(c_and(a.g, b.g, care)):
                bad.append((a, b))
    if bad:
        a, b = bad[0]
        C.add(title, "violated", C.at(fi or r), ["%s (line %d) happens after %s (line %d)" % (a.name, a.line, b.name, b.line)], "order of calls")
    else:
        C.add(title, "holds", C.at(fi or r))


HT = dict(materials=("Materials", True), mesh="Mesh", dt=("Stepsize", True))


@prop_check("C02", "C01", "C09")
def assembly(C):
    def go():
        st = {"create_form", "create_forms"}
        r = run(find("HTransportProblem", "define_variational_problem"), "HTransportProblem", types=HT, stop=st)
        s = spec("assembled_form", "HTransportProblem", stop=st)
        C.use(r)
        C.equal("the problem solved is the mobile equation plus the trap equations", r.attr("F"), s.norm(s.ret), C.both(r, s), r.fi, "form")
        C.completes("the problem solved is the mobile equation plus the trap equations", r, s.g)
    C.guarded("assembly", go)


@prop_check("C01")
def all_traps(C):
    def go():
        st = {"create_form"}
        ty = dict(TT, self=("Traps", True))
        r = run(find("Traps", "create_forms"), "Traps", types=ty, stop=st)
        s = spec("all_trap_forms", "Traps", stop=st)
        C.use(r)
        C.equal("every trap has its equation", r.attr("F"), s.norm(s.ret), C.both(r, s), r.fi, "trap forms")
    C.guarded("all traps", go)


def obj_list(it, st, cls, items):
    from .interp import _uid
    o = atom(T("new", cls, next(_uid), ()))
    it.heap_write(st, o, "$items", mkL([("one", T_, x) for x in items]))
    return o


def two_traps(it, st, vals):
    it.types[T("sym", "trap1")] = ("Trap", False)
    it.types[T("sym", "trap2")] = ("Trap", False)
    put(it, st, vals["self"], "traps", obj_list(it, st, "Traps", [sym("trap1"), sym("trap2")]))


def distinct_ids():
    """two traps whose ids differ from each other and from the other labels"""
    a, b = attr_of("trap1", "id"), attr_of("trap2", "id")
    sa, sb = (atom(T("strof", x, "")) for x in (a, b))
    ids = [a, b, sa, sb]
    c = T_
    for i, x in enumerate(ids):
        for y in ids[i + 1:]:
            c = c_and(c, c_not(c_eq(x, y)))
        for w in (mkstr("solute"), mkstr("0"), num(0), mkstr("mobile"), mkstr("T"), mkstr("all"), mkstr("retention"), mkstr("adsorbed"), NONE):
            c = c_and(c, c_not(c_eq(x, w)))
    return c


SIM = {("Simulation", "mobile"): ("Mobile", False), ("Simulation", "T"): ("HeatTransferProblem", False),
       ("Simulation", "_T"): ("HeatTransferProblem", False)}


def one_source(field, cls, anonymous=False):
    def pre(it, st, vals):
        two_traps(it, st, vals)
        it.types[T("sym", "src")] = (cls, cls != "Source")
        it.heap_write(st, sym("src"), "field", field)
        put(it, st, vals["self"], "sources", it.new_list(st, [("one", T_, sym("src"))]))
        if anonymous:
            for t in ("trap1", "trap2"):
                put(it, st, sym(t), "id", NONE)
    return pre


@prop_check("C09")
def attribution(C):
    def go():
        r = run(find("Simulation", "attribute_source_terms"), "Simulation", attr=SIM, pre=two_traps)
        C.use(r)
        care = c_and(r.g, distinct_ids())
        for what, sp_, got, kw in (
                ("mobile field", "src_mobile", lambda: r.attr("mobile.sources"), {}),
                ("temperature", "src_T", lambda: r.attr("T.sources"), {}),
                ("first trap", "src_trap", lambda: r.attr("sources", sym("trap1")), dict(args=dict(trap=sym("trap1")))),
                ("second trap", "src_trap", lambda: r.attr("sources", sym("trap2")), dict(args=dict(trap=sym("trap2"))))):
            s = spec(sp_, "Simulation", attr=SIM, **kw)
            C.equal("sources of the " + what, multiset(got()), multiset(s.norm(s.ret)), c_and(care, s.g), r.fi, "sources")
        ids = {"solute": mkstr("solute"), "mobile": mkstr("mobile"), "'0'": mkstr("0"), "0": num(0), "T": mkstr("T"), "all": mkstr("all")}
        for k in ("trap1", "trap2"):
            ids["the id of " + k] = attr_of(k, "id")
            ids["the id of %s as a string" % k] = atom(T("strof", attr_of(k, "id"), ""))
        for w, x in ids.items():
            r = run(find("Simulation", "attribute_source_terms"), "Simulation", attr=SIM, pre=one_source(x, "RadioactiveDecay" if w == "all" else "Source"))
            C.completes("a source for %s is accepted" % w, r, c_and(distinct_ids(), r.it.c_isinst(attr_of("self", "T"), atom(T("class", "HeatTransferProblem")), r.st)), r)
        for w, x, k in (("1", num(1), "trap1"), ("2", num(2), "trap2"), ("'1'", mkstr("1"), "trap1"), ("'2'", mkstr("2"), "trap2")):
            r = run(find("Simulation", "attribute_source_terms"), "Simulation", attr=SIM, pre=one_source(x, "Source", True))
            C.completes("a source for %s, traps without ids, is accepted" % w, r, T_, r)
            for t in ("trap1", "trap2"):
                C.equal("source for %s, traps without ids: sources of %s" % (w, t), multiset(r.attr("sources", sym(t))), mkterm("el", sym("src")) if t == k else num(0), r.g, r.fi)
    C.guarded("attribution of sources", go)
