"""Exports: schedules, tables, labels, files."""
from .oblig import *
from .reg import prop_check
from .props_eq import spec, attr_of, null, form, find, TT, lst, INT_IDS, E, val, items, not_str
from .props_run import events, ev_sum, same_events, in_order, obj_list, two_traps, distinct_ids, SIM
from .props_step import at, held, probes, always, start, SIMT, keeps


def decides(C, title, fi, sp_, care=T_, **kw):
    """the function returns a true value exactly when the reference does"""
    def go():
        r = run(find(*fi), fi[0], **kw)
        s = spec(sp_, fi[0], **kw)
        C.use(r)
        C.same_cond(title, r.it.truth(r.ret, r.st), s.it.truth(s.ret, s.st), C.both(r, s, care), r.fi)
        C.completes(title, r, c_and(s.g, care))
    C.guarded(title, go)


WR = {"DerivedQuantities.compute", "DerivedQuantities.write", "XDMFExport.write", "TrapDensityXDMF.write", "TXTExport.write"}


@prop_check("C22")
def schedule(C):
    decides(C, "derived quantities: when they are written", ("DerivedQuantities", "is_export"), "dq_export")
    decides(C, "derived quantities: when they are computed", ("DerivedQuantities", "is_compute"), "dq_compute")
    decides(C, "XDMF: when it is written", ("XDMFExport", "is_export"), "xdmf_export")
    decides(C, "TXT: when a profile is recorded", ("TXTExport", "is_it_time_to_export"), "txt_time")
    decides(C, "TXT: when the last profile is recorded", ("TXTExport", "is_last"), "txt_last")

    def wr():
        r = run(find("Exports", "write"), "Exports", stop=WR)
        C.use(r)
        s = spec("due", "Exports", stop=WR)
        same_events(C, "exports are computed and written when they are due", r, s, ("compute", "write"), C.both(r, s))
        in_order(C, "computed before written", r, events(r, ("compute",)), [e for e in events(r, ("write",)) if len(e.args) == 1])
        C.equal("steps are counted", r.attr("nb_iterations"), attr_of("self", "nb_iterations") + num(1), r.g, r.fi)
    C.guarded("write", wr)

    def sv():
        r = run(find("TXTExport", "write"), "TXTExport")
        s = spec("txt_file", "TXTExport")
        C.use(r)
        when = lambda e: ()
        same_events(C, "TXT: when the file is written", r, s, ("np.savetxt",), C.both(r, s), args=when)
        r = run(find("TXTExport", "__init__"), "TXTExport", types=dict(times=("list", False)))
        s = spec("sorted_times", types=dict(times=("list", False)))
        C.use(r)
        C.equal("TXT: times are kept in order", r.attr("times"), s.norm(s.ret), c_and(r.g, s.g), r.fi)
    C.guarded("save", sv)


@prop_check("C23")
def tables(C):
    def co(n, header):
        st = {"make_header"}

        def pre(it, st, v):
            it.heap_write(st, v["self"], "data", it.new_list(st, [("one", T_, sym("row0"))] if header else []))
            if n is not None:
                qs = [sym("q%d" % k) for k in range(n)]
                for k in range(n):
                    it.types[T("sym", "q%d" % k)] = ("DerivedQuantity", False)
                it.heap_write(st, v["self"], "$items", mkL([("one", T_, q) for q in qs]))
        kw = dict(vopaque={"compute"}, stop=st, pre=pre)
        r = run(find("DerivedQuantities", "compute"), "DerivedQuantities", **kw)
        s = spec("rows", "DerivedQuantities", **kw)
        C.use(r)
        t = "%s, %s" % ("any number of quantities" if n is None else "%d quantities" % n, "later steps" if header else "first step")
        C.equal("a row per computation, a column per quantity (%s)" % t, r.items("data"), s.norm(s.ret), C.both(r, s), r.fi)
        C.equal("times of the table (%s)" % t, r.items("t"), app(s, attr_of("self", "t"), sym("t")), C.both(r, s), r.fi)
        for q in ([r.it.elem(r.st, r.selfv, atom(T("sym", "any_index")))] if n is None else [sym("q%d" % k) for k in range(n)]):
            v = spec("value_of", "DerivedQuantities", vopaque={"compute"}, args=dict(q=q), types={k: ("DerivedQuantity", False) for k in ("q0", "q1")})
            C.equal("values of a quantity (%s)" % t, r.items("data", q), app(v, r.it.get_attr(q, "data", v.st, None), v.ret), c_and(r.g, v.g), r.fi)
            C.equal("times of a quantity (%s)" % t, r.items("t", q), app(v, r.it.get_attr(q, "t", v.st, None), sym("t")), c_and(r.g, v.g), r.fi)
    for n, h in ((None, True), (0, False), (1, False), (2, False)):
        C.guarded("compute", lambda: co(n, h))


def app(s, lst_, x):
    """a list with one more element"""
    return s.norm(s.it.reify(s.st, mkL(list(s.it.segs_of(s.st, lst_)) + [("one", T_, s.it.reify(s.st, x))])))


@prop_check("C23", "C28")
def headers(C):
    def hd():
        r = run(find("DerivedQuantities", "make_header"), "DerivedQuantities", vopaque={"title"})
        s = spec("header_of", "DerivedQuantities", vopaque={"title"})
        C.use(r)
        C.equal("a title per column", r.norm(r.ret), s.norm(s.ret), C.both(r, s), r.fi)
        q = r.it.elem(r.st, r.selfv, atom(T("sym", "any_index")))
        C.equal("units are shown if asked for", r.attr("show_units", q), attr_of("self", "show_units"), r.g, r.fi)
        r = run(find("DerivedQuantities", "write"), "DerivedQuantities")
        s = spec("dq_file", "DerivedQuantities")
        C.use(r)
        same_events(C, "the table is written to its file", r, s, ("np.savetxt",), C.both(r, s))
        r = run(find("TXTExport", "write"), "TXTExport")
        s = spec("txt_file", "TXTExport")
        C.use(r)
        same_events(C, "profiles are written to their file", r, s, ("np.savetxt",), C.both(r, s))
        C.equal("a column per profile", r.attr("data"), s.attr("data"), C.both(r, s), r.fi)
        C.equal("a title per profile", r.attr("header"), s.attr("header"), C.both(r, s), r.fi)
    C.guarded("header", hd)


@prop_check("C23")
def profiles(C):
    def go(dg, keep, title):
        ty = dict(materials=("Materials", True))
        kw = dict(types=ty, args=dict(project_to_DG=mkbool(T_ if dg else F_)), pre=lambda it, st, v: it.heap_write(st, v["self"], "filter", mkbool(T_ if keep else F_)))
        r = run(find("TXTExport", "initialise"), "TXTExport", **kw)
        s = spec("txt_setup", "TXTExport", **kw)
        C.use(r)
        for n, w in (("V", "function space"), ("header", "first title"), ("_unique_indices", "order of the values"), ("data", "positions of the values")):
            C.equal("TXT, %s: %s" % (title, w), r.attr(n), s.attr(n), C.both(r, s), r.fi)
        C.completes("TXT, %s" % title, r, s.g)
    s = spec("txt_setup", "TXTExport", types=dict(materials=("Materials", True)))
    C.vocabulary = words(s.attr("_unique_indices"))
    C.guarded("TXT setup", lambda: go(False, True, "continuous"))
    C.guarded("TXT setup", lambda: go(True, False, "discontinuous, all values"))
    C.guarded("TXT setup", lambda: go(True, True, "discontinuous"))
    C.vocabulary = frozenset()


@prop_check("C25")
def folders(C):
    for cls, where in (("DerivedQuantities", None), ("TXTExport", None), ("DerivedQuantities", "a/b/c.csv"), ("TXTExport", "a/b/c.txt"),
                       ("DerivedQuantities", "c.csv"), ("TXTExport", "c.txt")):
        def go():
            pre = (lambda it, st, v: put(it, st, v["self"], "filename", mkstr(where))) if where else None
            r = run(find(cls, "write"), cls, pre=pre)
            C.use(r)
            s = spec("folder_of", cls, pre=pre)
            d = s.it.getitem(s.ret, num(0), s.st, NODE)
            missing = c_and(c_truth(d), c_not(c_truth(s.it.getitem(s.ret, num(1), s.st, NODE))))
            made = F_
            mk = [e for e in r.it.events if e.name in ("os.makedirs",)]
            other = [e for e in r.it.events if "mkdir" in e.name and e.name != "os.mkdir"]     # which makes one level only
            for e in mk:
                if e.args[0] is d or not diff_terms(e.args[0] - d, e.g):
                    made = c_or(made, e.g)
            w = [e for e in r.it.events if e.name == "np.savetxt"]
            t = "%s: missing folders%s are created before the file is written" % (cls, " of %s" % where if where else "")
            if other or not w:
                C.add(t, "undecided", C.at(r), ["other ways of writing"])
                return
            need = F_
            for e in w:
                need = c_or(need, e.g)
            C.same_cond(t, c_and(need, missing, made), c_and(need, missing), T_, r.fi)
            in_order(C, t + " (order)", r, mk, w)
            C.same_cond("%s: no folder is created for a bare file name%s" % (cls, ", %s" % where if where else ""), c_and(made, c_not(c_truth(d))), F_, T_, r.fi)
        C.guarded(cls, go)


@prop_check("C24")
def functions(C):
    def lab():
        at_ = dict(SIMT)
        at_.update({("Simulation", "mobile"): ("Mobile", False)})
        kw = dict(attr=at_, pre=two_traps)
        r = run(find("Simulation", "update_post_processing_solutions"), "Simulation", stop={"HTransportProblem.update_post_processing_solutions"}, **kw)
        s = spec("labels", "Simulation", **kw)
        C.use(r)
        got = r.it.get_attr(r.selfv, "label_to_function", r.st, None)
        ids = [("solute", mkstr("solute")), ("'0'", mkstr("0")), ("0", num(0)), ("T", mkstr("T")), ("retention", mkstr("retention"))]
        for k in ("trap1", "trap2"):
            ids += [("id of " + k, attr_of(k, "id")), ("id of %s as a string" % k, atom(T("strof", attr_of(k, "id"), "")))]
        for n, k in ids + [("adsorbed", mkstr("adsorbed"))]:
            C.same_cond("there is a function for %s" % n, r.it.c_in(r.st, k, got), T_, c_and(r.g, distinct_ids()), r.fi)
        for n, k in ids:
            C.equal("function exported for %s" % n, r.norm(r.it.getitem(got, k, r.st, NODE)), s.norm(s.it.getitem(s.ret, k, s.st, NODE)), C.both(r, s, distinct_ids()), r.fi)
        s = spec("adsorbed", "Simulation", **kw)
        L = r.it.getitem(got, mkstr("adsorbed"), r.st, NODE)
        C.equal("adsorbed concentrations exported", r.norm(L), s.norm(s.ret), C.both(r, s, distinct_ids()), r.fi)
        r = run(find("Simulation", "update_post_processing_solutions"), "Simulation", stop={"HTransportProblem.update_post_processing_solutions"}, attr=at_)
        C.use(r)
        es = events(r, ("update_post_processing_solutions",))
        C.add("solutions are read before labels are made", "holds" if len(es) == 1 and es[0].g is T_ else "undecided", C.at(r))
    C.guarded("labels", lab)

    def ret():
        r = run(find("Simulation", "update_post_processing_solutions"), "Simulation", stop={"HTransportProblem.update_post_processing_solutions"}, attr=at_)
        s = spec("total", "Simulation", attr=at_)
        C.use(r)
        got = r.it.getitem(r.it.get_attr(r.selfv, "label_to_function", r.st, None), mkstr("retention"), r.st, NODE)
        C.equal("retention is the sum of all concentrations", r.norm(got), s.norm(s.ret), C.both(r, s, no_trap_named(r, "retention")), r.fi)
    at_ = dict(SIMT)
    at_.update({("Simulation", "mobile"): ("Mobile", False)})
    C.guarded("retention", ret)

    def giv(cls, q, first=None):
        def pre(it, st, v):
            it.types[T("sym", "e")] = (cls, True)
            it.types[T("sym", "q")] = (q, True) if q else ("object", False)
            it.heap_write(st, v["self"], "$items", mkL([("one", T_, sym("e"))]))
            if q:
                it.types[T("sym", "q1")] = (first, True)
                it.heap_write(st, sym("e"), "$items", mkL(([("one", T_, sym("q1"))] if first else []) + [("one", T_, sym("q"))]))
            d = it.new_list(st, [("ent", T_, mkstr(k), sym("f_" + k)) for k in ("solute", "0", "T", "retention", "1")], "dict")
            it.heap_write(st, d, "$items", mkL(list(it.segs_of(st, d)) + [("ent", T_, mkstr("adsorbed"), sym("f_adsorbed"))]))
            v["label_to_function"] = d
        name = {"DerivedQuantities": "compute"}.get(cls, "write")
        what = at("q" if q else "e", "function")
        kw = dict(pre=pre, stop=WR, types={"f_adsorbed": ("list", False)})
        r = run(find("Exports", "write"), "Exports", probes={name: {"f": what}}, **kw)
        s = spec("works_on", "Exports", **kw)
        C.use(r)
        always(C, "%s works on the function of its field%s" % (q or cls, " after a %s" % first if first else ""), r, "f", s.norm(what(s.it, s.st)), s.g)
    for c, q in (("XDMFExport", None), ("TXTExport", None), ("DerivedQuantities", "TotalVolume"), ("DerivedQuantities", "MaximumVolume"),
                 ("DerivedQuantities", "MinimumVolume"), ("DerivedQuantities", "AdsorbedHydrogen")):
        C.guarded("given", lambda: giv(c, q))
    for q, first in (("TotalVolume", "TotalVolume"), ("TotalVolume", "AdsorbedHydrogen"), ("AdsorbedHydrogen", "TotalVolume"), ("MaximumVolume", "TotalVolume")):
        C.guarded("given", lambda: giv("DerivedQuantities", q, first))


def no_trap_named(r, *words_):
    """no trap has one of these labels as its id"""
    traps = r.it.get_attr(r.selfv, "traps", r.st, None)
    out = T_
    for w in words_:
        for x in (lambda v: v, lambda v: atom(T("strof", v, ""))):
            out = c_and(out, c_not(r.it.c_in(r.st, mkstr(w), ids_of(r, traps, x))))
    return out


def ids_of(r, traps, fn):
    i = fresh_index()
    from .subst import close_gen
    return fmap(lambda d: mkL([close_gen(T_, d, i, (("one", T_, fn(r.it.get_attr(r.it.elem(r.st, d, atom(i)), "id", r.st, None))),))]), traps)


@prop_check("C24", "C07")
def solutions(C):
    def up(cls):
        HT = {("HTransportProblem", "mobile"): (cls, True)}
        kw = dict(attr=HT, elem={("attr", "boundary_conditions"): ("SurfaceKinetics", True)})
        st = {"post_processing_solution_to_concentration"}
        r = run(find("HTransportProblem", "update_post_processing_solutions"), "HTransportProblem", stop=st, **kw)
        s = spec("components", "HTransportProblem", **kw)
        C.use(r)
        i = atom(T("sym", "any_index"))
        tr = r.it.elem(r.st, r.it.get_attr(r.selfv, "traps", r.st, None), i)
        C.equal("%s: a trap is read from its component" % cls, r.attr("post_processing_solution", tr),
                s.norm(s.it.getitem(s.ret, add(i, num(1)), s.st, NODE)), C.both(r, s, c_not(c_zero_of(s, "num_sub_spaces"))), r.fi)
        chem = c_truth(attr_of("self", "settings", "chemical_pot"))
        C.equal("%s: the mobile concentration is the first component" % cls, r.attr("mobile.post_processing_solution"),
                s.norm(s.it.getitem(s.ret, num(0), s.st, NODE)), C.both(r, s, c_not(chem)), r.fi)
        if cls == "Theta":
            es = events(r, ("post_processing_solution_to_concentration",))
            C.same_cond("%s: chemical potential is converted" % cls, c_or(*[e.g for e in es]) if es else F_, chem, r.g, r.fi)
        kw = dict(attr=HT, types=dict(self=("HTransportProblem", True), sc=("int", False)), stop=st)
        r, s = spec("u_adsorbed", **kw), spec("r_adsorbed", **kw)
        C.use(r)
        many = c_not(c_zero_of(s, "num_sub_spaces"))
        items(C, "%s: adsorbed concentrations are read from their components" % cls, r, s, ("first", "second", "third"), many,
              find("HTransportProblem", "update_post_processing_solutions"))
    for cls in ("Mobile", "Theta"):
        C.guarded(cls, lambda: up(cls))


def c_zero_of(s, name):
    """number of components of the solution is zero"""
    v = s.it.call_method(s.it.get_attr(s.args["self"] if "self" in s.args else s.selfv, "u", s.st, None), "function_space", [], [], s.st, NODE)
    return c_eq(s.it.call_method(v, name, [], [], s.st, NODE), num(0))


@prop_check("C25")
def files(C):
    def pa():
        r = run(find("XDMFExport", "define_xdmf_file"), "XDMFExport")
        s = spec("xdmf_path", "XDMFExport")
        C.use(r)
        C.equal("XDMF: file of the export", r.attr("file"), s.attr("file"), C.both(r, s), r.fi)
        r = run(find("XDMFExport", "write"), "XDMFExport")
        s = spec("xdmf_file", "XDMFExport")
        C.use(r)
        same_events(C, "XDMF: what is written", r, s, ("write_checkpoint", "write", "rename"), C.both(r, s))
        r = run(find("XDMFExport", "__init__"), "XDMFExport", stop={"define_xdmf_file"})
        C.use(r)
        for n, sp_ in (("label", "xdmf_label"), ("filename", "xdmf_name")):
            s = spec(sp_)
            C.equal("XDMF: %s" % n, r.attr(n), s.norm(s.ret), c_and(r.g, s.g), r.fi)
    C.guarded("xdmf", pa)

    def two():
        def pre(it, st, v):
            it.types[T("sym", "e")] = ("XDMFExport", True)
            it.heap_write(st, v["self"], "$items", mkL([("one", T_, sym("e"))]))
            it.heap_write(st, sym("e"), "field", mkstr("solute"))
            v["labels"] = it.new_list(st, [("ent", T_, mkstr("solute"), sym("f_solute"))], "dict")
        kw = dict(pre=pre, types=dict(self=("Exports", True), e=("XDMFExport", True)))
        r, s = spec("u_two_steps", **kw), spec("r_two_steps", **kw)
        C.use(r)
        same_events(C, "XDMF: later steps continue the file", r, s, ("write_checkpoint",), C.both(r, s), fi=find("Exports", "write"))
        kw["pre"] = density
        r, s = spec("u_two_steps", **kw), spec("r_two_steps", **kw)
        C.use(r)
        same_events(C, "trap density: later steps continue the file", r, s, ("write_checkpoint",), C.both(r, s), fi=find("Exports", "write"), args=lambda e: e.args[:1] + e.args[2:])

    def density(it, st, v):
        it.types[T("sym", "e")] = ("TrapDensityXDMF", True)
        it.heap_write(st, v["self"], "$items", mkL([("one", T_, sym("e"))]))
        it.heap_write(st, sym("e"), "field", mkstr("solute"))
        v["labels"] = it.new_list(st, [("ent", T_, mkstr("solute"), sym("f_solute"))], "dict")
    C.guarded("two steps", two)

    def td():
        r = run(find("TrapDensityXDMF", "write"), "TrapDensityXDMF", types=TT)
        s = spec("density_file", "TrapDensityXDMF")
        C.use(r)
        same_events(C, "trap density: what is solved and written", r, s, ("fenics.solve", "write_checkpoint", "write", "rename"), C.both(r, s))
    C.guarded("trap density", td)
