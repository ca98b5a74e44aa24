"""The same laws on small models written out: two materials, two traps, two sources, two conditions.

The general obligations quantify over lists of any length; they decide nothing when the code carries
a value from one element to the next in a way that has no closed form.  On lists of two, each
iteration is analysed by itself, so that such code is decided there."""
from .oblig import *
from .reg import prop_check
from .props_eq import spec, attr_of, find, TT, form, lst, INT_IDS, THETA, FLUX_LAWS
from .props_run import obj_list, SIM, two_traps, distinct_ids
from .props_set import typed


def all_of(*pres):
    def pre(it, st, v):
        for p in pres:
            if p:
                p(it, st, v)
    return pre


def new(it, st, xs):
    return it.new_list(st, [("one", T_, x) for x in xs])


def two_materials(plain=False):
    """one material in one subdomain, another in two"""
    def pre(it, st, v):
        ms = typed(it, "Material", True, "m1", "m2")
        for n in ("i1", "i2", "i3"):
            it.types[T("sym", n)] = ("int", True)
        it.heap_write(st, ms[0], "id", sym("i1"))
        it.heap_write(st, ms[1], "id", sym("i2") if plain else new(it, st, [sym("i2"), sym("i3")]))
        v["materials"] = obj_list(it, st, "Materials", ms)
    return pre


def trap_of(it, st, name, mats, lists):
    it.types[T("sym", name)] = ("Trap", True)
    t = sym(name)
    put(it, st, t, "materials", new(it, st, mats))
    for k in ("k_0", "E_k", "p_0", "E_p"):
        fs = [sym("%s_%s%d" % (name, k, j)) for j in range(len(mats))]
        for f in fs:
            it.types[as_atom(f)] = ("float", True)
        it.heap_write(st, t, k, new(it, st, fs) if lists else fs[0])
    it.heap_write(st, t, "density", new(it, st, [sym("%s_n%d" % (name, j)) for j in range(len(mats) if lists else 1)]))
    return t


def some_traps(lists):
    def pre(it, st, v):
        m1, m2 = sym("m1"), sym("m2")
        a = trap_of(it, st, "trap1", [m1, m2], lists)
        b = trap_of(it, st, "trap2", [m2], False)
        c = trap_of(it, st, "trap3", [m2, m1], lists)
        v["traps"] = obj_list(it, st, "Traps", [a, b, c])
    return pre


@prop_check("C02")
def transport(C):
    for cls in ("Mobile", "Theta"):
        def go():
            r, F = form(cls, "create_form", all_of(lst("sources", "boundary_conditions"), two_materials()), args=dict(traps=NONE))
            s = spec("mobile_transport", cls, pre=two_materials())
            C.use(r)
            C.equal("%s, two materials: transient, Fick and Soret terms" % cls, F, s.norm(s.ret), C.both(r, s), r.fi, "transport form")
        C.guarded("%s, two materials" % cls, go)


@prop_check("C01")
def exchange(C):
    for cls in ("Mobile", "Theta"):
        for lists in (False, True):
            def go():
                p = all_of(two_materials(True), some_traps(lists))
                e = lst("sources", "boundary_conditions")
                r, F1 = form(cls, "create_form", all_of(e, p))
                r0, F0 = form(cls, "create_form", all_of(e, two_materials(True)), args=dict(traps=NONE))
                s = spec("mobile_exchange", cls, pre=p)
                C.use(r, r0)
                C.equal("%s, three traps%s: what they take out of the mobile field" % (cls, " with lists" if lists else ""), F1 - F0, s.norm(s.ret),
                        c_and(r.g, r0.g, s.g), r.fi, "trapping term of the mobile equation")
            C.guarded("%s, three traps" % cls, go)

            def trap():
                def me(it, st, v):
                    two_materials(True)(it, st, v)
                    it.types[T("sym", "self")] = ("Trap", True)
                    trap_of(it, st, "self", [sym("m2"), sym("m1")], lists)
                    it.heap_write(st, v["self"], "sources", it.new_list(st, []))
                r, F = form("Trap", "create_form", me, types=dict(mobile=(cls, True)))
                s = spec("trap_form", "Trap", pre=me, types=dict(mobile=(cls, True)))
                C.use(r)
                C.equal("Trap in two materials%s, with %s: what the trap gains" % (", with lists" if lists else "", cls), F, s.norm(s.ret), C.both(r, s), r.fi, "trap equation")
            C.guarded("Trap in two materials", trap)


@prop_check("C03")
def heat(C):
    def go():
        cls = "HeatTransferProblem"
        r, F = form(cls, "define_variational_problem", all_of(lst("sources", "boundary_conditions", "sub_expressions"), two_materials()))
        s = spec("heat_form", cls, pre=two_materials())
        C.use(r)
        C.equal("two materials: storage and conduction", F, s.norm(s.ret), C.both(r, s), r.fi, "heat form")
    C.guarded("heat, two materials", go)


def two_sources(kinds, where=None, single=False):
    def pre(it, st, v):
        xs = []
        for j, k in enumerate(kinds):
            x, = typed(it, k, True, "src%d" % j)
            vols = typed(it, "int", True, "v%da" % j, "v%db" % j)
            it.heap_write(st, x, "volume", vols[0] if j % 2 or single else new(it, st, vols))
            xs.append(x)
        o = new(it, st, xs)
        if where:
            it.heap_write(st, v["self"], "sources", o)
        else:
            v["sources"] = o
    return pre


MIX = (("Source", "Source"), ("RadioactiveDecay", "Source"), ("ImplantationFlux", "RadioactiveDecay"))


@prop_check("C09")
def sources(C):
    from .props_eq import spec_conc
    for cls in ("Mobile", "Theta"):
        c, cn, g = spec_conc(cls)
        for kinds in MIX:
            def go():
                r, F = form(cls, "create_form", all_of(lst("boundary_conditions"), two_sources(kinds, "self")), args=dict(traps=NONE, materials=mkL([])))
                s = spec("sources_form", pre=two_sources(kinds), args=dict(c=c, v=attr_of("self", "test_function"), dx=attr_of("mesh", "dx")))
                C.use(r)
                C.equal("%s, %s and %s" % ((cls,) + kinds), F, s.norm(s.ret), C.both(r, s, g), r.fi, "source term")
            C.guarded("two sources", go)
    for kinds in MIX:
        def trap():
            r, F1 = form("Trap", "create_form", two_sources(kinds, "self", True), attr=INT_IDS)
            r0, F0 = form("Trap", "create_form", lst("sources"), attr=INT_IDS)
            s = spec("sources_form", pre=two_sources(kinds, None, True),
                     args=dict(c=attr_of("self", "solution"), v=attr_of("self", "test_function")))
            C.use(r)
            C.equal("Trap, %s and %s" % kinds, F1 - F0, s.norm(s.ret), c_and(r.g, r0.g, s.g), r.fi, "source term")
        C.guarded("Trap, two sources", trap)


FIELDS = {"mobile": mkstr("0"), "T": mkstr("T"), "trap1": attr_of("trap1", "id"), "trap2": attr_of("trap2", "id"), "all": mkstr("all")}


@prop_check("C09")
def attribution(C):
    for a, b in (("all", "mobile"), ("mobile", "all"), ("all", "trap1"), ("trap2", "all"), ("trap1", "trap1"), ("T", "all"), ("mobile", "T"), ("all", "all")):
        def go():
            def pre(it, st, v):
                two_traps(it, st, v)
                xs = []
                for j, f in enumerate((a, b)):
                    x, = typed(it, "RadioactiveDecay" if f == "all" else "Source", True, "src%d" % j)
                    it.heap_write(st, x, "field", FIELDS[f])
                    xs.append(x)
                put(it, st, v["self"], "sources", new(it, st, xs))
            r = run(find("Simulation", "attribute_source_terms"), "Simulation", attr=SIM, pre=pre)
            C.use(r)
            heat = r.it.c_isinst(attr_of("self", "T"), atom(T("class", "HeatTransferProblem")), r.st)
            care = c_and(r.g, distinct_ids(), heat)
            got = {"mobile": r.attr("mobile.sources"), "T": r.attr("T.sources"), "trap1": r.attr("sources", sym("trap1")), "trap2": r.attr("sources", sym("trap2"))}
            for o, g in got.items():
                want = num(0)
                for j, f in enumerate((a, b)):
                    if f == o or f == "all" and o != "T":
                        want = want + mkterm("el", sym("src%d" % j))
                C.equal("sources for %s then %s: those of %s" % (a, b, o), multiset(g), want, care, r.fi, "sources")
        C.guarded("two sources", go)


# ------------------------------------------------------------------ two boundary conditions
def two_conditions(kinds, field=num(0)):
    """the first on two surfaces, the second on one"""
    def pre(it, st, v):
        xs = []
        for j, k in enumerate(kinds):
            if k is None:
                continue
            x, = typed(it, k, True, "bc%d" % j)
            ss = typed(it, "int", True, "s%da" % j, "s%db" % j)
            ss = ss if j == 0 else ss[:1]
            it.heap_write(st, x, "surfaces", new(it, st, ss))
            it.heap_write(st, x, "field", field)
            for n in ("sub_expressions",):
                it.heap_write(st, x, n, new(it, st, []))
            if k in ("CustomFlux", "SurfaceKinetics", "CustomDirichlet"):
                d = it.new_list(st, [("ent", T_, mkstr("p%d" % q), sym("bc%d_p%d" % (j, q))) for q in range(3)], "dict")
                it.heap_write(st, x, "prms", d)
            if k == "SurfaceKinetics":
                for n in ("solutions", "previous_solutions", "test_functions"):
                    it.heap_write(st, x, n, new(it, st, [sym("bc%d_%s%d" % (j, n, q)) for q in range(len(ss))]))
            xs.append(x)
        o = new(it, st, xs)
        if "self" in v:
            it.heap_write(st, v["self"], "boundary_conditions", o)
        else:
            v["bcs"] = o
    return pre


PAIRS = (("FluxBC", "FluxBC"), ("CustomFlux", "CustomFlux"), ("RecombinationFlux", "DissociationFlux"), ("MassFlux", "CustomFlux"))


@prop_check("C04", "C06")
def two_fluxes(C):
    from .props_eq import spec_conc
    for cls in ("Mobile", "Theta"):
        c, cn, g = spec_conc(cls)
        for kinds in PAIRS if C.pid == "C04" else (("SurfaceKinetics", "SurfaceKinetics"), ("FluxBC", "SurfaceKinetics"), ("SurfaceKinetics", "DirichletBC")):
            def go():
                r, F = form(cls, "create_form", all_of(lst("sources"), two_conditions(kinds)), args=dict(traps=NONE, materials=mkL([])))
                pre = two_conditions(kinds)
                a = dict(c=c, v=attr_of("self", "test_function"), ds=attr_of("mesh", "ds"))
                s = spec("flux_form", args=dict(a, T=attr_of("T", "T")), pre=pre)
                want = s.norm(s.ret)
                care = C.both(r, s, g)
                if C.pid == "C06":
                    k = spec("surface_kinetics_form", args=dict(a, T=sym("T"), cn=cn), pre=two_conditions([x if x == "SurfaceKinetics" else None for x in kinds]))
                    want = want + k.norm(k.ret)
                    care = c_and(care, k.g)
                C.use(r)
                C.equal("%s: %s on two surfaces, %s on one" % ((cls,) + kinds), F, want, care, r.fi, "flux term")
            C.guarded("two conditions", go)


@prop_check("C12", "C04", "C06")
def two_flux_inputs(C):
    for cls in ("Mobile", "Theta"):
        for kinds in ((("SurfaceKinetics", "SurfaceKinetics"),) if C.pid == "C06" else PAIRS + ((("SurfaceKinetics", "CustomFlux"),) if C.pid == "C12" else ())):
            def go():
                pre = all_of(lst("sources", "sub_expressions"), two_conditions(kinds))
                r = run(find(cls, "create_form"), cls, types=TT, pre=pre, args=dict(traps=NONE, materials=mkL([])))
                s = spec("solute_flux_inputs", cls, pre=two_conditions(kinds))
                C.use(r)
                C.covers("%s: inputs of %s and %s are registered" % ((cls,) + kinds), multiset(r.items("sub_expressions")), multiset(s.norm(s.ret)), C.both(r, s), r.fi)
            C.guarded("two conditions, inputs", go)


@prop_check("C30")
def two_quantities(C):
    for a, b in (("SurfaceFlux", "SurfaceFlux"), ("SurfaceFlux", "TotalVolume"), ("TotalVolume", "ThermalFlux")):
        def go():
            def pre(it, st, v):
                v["derived_quantities"] = new(it, st, typed(it, a, True, "q1") + typed(it, b, True, "q2"))
            r = run(find("Materials", "check_for_unused_properties"), "Materials", pre=pre)
            s = spec("w_unused", "Materials", pre=pre)
            C.use(r)
            from .props_run import same_events
            same_events(C, "unused thermal properties with %s and %s" % (a, b), r, s, ("warnings.warn",), C.both(r, s), args=lambda e: ())
        C.guarded("two quantities", go)
