"""Governing equations: the variational forms against the reference laws."""
from .oblig import *
from .reg import prop_check

TT = dict(materials=("Materials", True), mesh="Mesh", T="Temperature", dt=("Stepsize", True),
          traps=("Traps", True), mobile="Mobile", dx="fenics.Measure", ds="fenics.Measure")
INT_IDS = {("Material", "id"): "int"}


NUMS = {k: ("float", False) for k in "S_0 E_S H_0 E_H D_0 E_D Kr_0 E_Kr Kd_0 E_Kd lambda_IS n_surf n_IS".split()}


def items(C, title, r, s, names, care=T_, fi=None):
    """the elements of a returned tuple, one by one"""
    for i, n in enumerate(names):
        a, b = (q.norm(q.it.getitem(q.ret, num(i), q.st, NODE)) for q in (r, s))
        C.equal("%s: %s" % (title, n), a, b, C.both(r, s, care), fi or r.fi)


def user_law(C, name, anchor, types=None, care=T_, title=None):
    """constructor arguments -> imposed law"""
    def go():
        ty = {"m": "Material"}
        ty.update(types or {})
        r, s = spec("u_" + name, types=ty), spec("r_" + name, types=ty)
        C.use(r)
        C.equal(title or "%s: from its arguments" % anchor[0], r.norm(r.ret), s.norm(s.ret), C.both(r, s, care), find(*anchor),
                "law of " + anchor[0])
        C.completes(title or "%s: from its arguments" % anchor[0], r, c_and(s.g, care), find(*anchor))
    C.guarded("user law " + name, go)


def not_str(v, *words):
    """a field that is an integer is none of these labels"""
    return c_and(*[c_not(c_eq(v, mkstr(w))) for w in words or ("0", "solute", "T", "mobile", "1")])


def null(v):
    return c_eq(v, NONE)


def E(it, st):
    return it.new_list(st, [])


def lst(*names):
    """pre-state of a run: the named attributes of self are empty lists"""
    def pre(it, st, vals):
        for n in names:
            it.heap_write(st, vals["self"], n, E(it, st))
    return pre


def spec(name, cls=None, **kw):
    types = dict(TT)
    if cls:
        types["self"] = (cls, True)
    types.update(kw.pop("types", {}))
    r = run(spec_func(name), types=types, **kw)
    return r


def form(cls, meth, pre=None, attr_="F", **kw):
    types = dict(TT)
    types.update(kw.pop("types", {}))
    fi = find(cls, meth)
    r = run(fi, cls, types=types, pre=pre, **kw)
    return r, r.attr(attr_)


def mobile_forms(cls, traps=True):
    """Mobile.create_form without sources nor fluxes; with and without traps"""
    pre = lst("sources", "boundary_conditions")
    if not traps:
        return form(cls, "create_form", pre, args=dict(traps=NONE))
    return form(cls, "create_form", pre, attr=INT_IDS)


@prop_check("C02")
def transport(C):
    for cls in ("Mobile", "Theta"):
        def go():
            r, F = mobile_forms(cls, False)
            s = spec("mobile_transport", cls)
            C.use(r)
            C.equal("%s: transient, Fick and Soret terms on every subdomain of every material" % cls,
                    F, s.norm(s.ret), C.both(r, s), r.fi, "transport form")
        C.guarded("%s transport" % cls, go)


@prop_check("C01")
def exchange(C):
    for cls in ("Mobile", "Theta"):
        def go():
            r, F1 = mobile_forms(cls, True)
            r0, F0 = form(cls, "create_form", lst("sources", "boundary_conditions"), args=dict(traps=NONE), attr=INT_IDS)
            s = spec("mobile_exchange", cls, attr=INT_IDS)
            C.use(r, r0)
            C.equal("%s: what the traps take out of the mobile field" % cls, F1 - F0, s.norm(s.ret), c_and(r.g, r0.g, s.g), r.fi,
                    "trapping term of the mobile equation")
        C.guarded("%s exchange" % cls, go)

        def go2():
            r, F = form("Trap", "create_form", lst("sources"), types=dict(mobile=(cls, True)), attr=INT_IDS)
            s = spec("trap_form", "Trap", attr=INT_IDS, types=dict(mobile=(cls, True)))
            C.use(r)
            C.equal("Trap with %s: what the trap gains" % cls, F, s.norm(s.ret), C.both(r, s), r.fi, "trap equation")
        C.guarded("Trap with %s" % cls, go2)


FLUX_LAWS = ("FluxBC", "RecombinationFlux", "DissociationFlux", "ConvectiveFlux", "MassFlux", "CustomFlux")


def bcs_are(c):
    return {("attr", "boundary_conditions"): (c, True)}


def spec_conc(cls):
    """H concentration seen by the boundary conditions, from the unknown"""
    if cls == "Mobile":
        return attr_of("self", "solution"), attr_of("self", "previous_solution"), T_
    a = spec("theta_concentration", cls, attr=THETA)
    b = spec("theta_previous_concentration", cls, attr=THETA)
    return a.norm(a.ret), b.norm(b.ret), c_and(a.g, b.g)


THETA = {("Theta", "T"): ("Temperature", False)}


@prop_check("C04")
def fluxes(C):
    for cls in ("Mobile", "Theta"):
        c, cn, g = spec_conc(cls)
        for law in FLUX_LAWS:
            def go():
                r, F = form(cls, "create_form", lst("sources"), args=dict(traps=NONE, materials=mkL([])), elem=bcs_are(law))
                s = spec("flux_form", args=dict(bcs=attr_of("self", "boundary_conditions"), T=attr_of("T", "T"), c=c,
                                                v=attr_of("self", "test_function"), ds=attr_of("mesh", "ds")), elem=bcs_are(law))
                C.use(r)
                C.equal("%s: %s once on each of its surfaces" % (cls, law), F, s.norm(s.ret), C.both(r, s, g), r.fi, law + " term")
            C.guarded("%s %s" % (cls, law), go)

        def other():
            r, F = form(cls, "create_form", lst("sources"), args=dict(traps=NONE, materials=mkL([])), elem=bcs_are("DirichletBC"))
            C.use(r)
            C.equal("%s: a Dirichlet condition adds no flux" % cls, F, num(0), r.g, r.fi)
        C.guarded("%s Dirichlet" % cls, other)
    for law in FLUX_LAWS:
        def heat():
            r, F = form("HeatTransferProblem", "define_variational_problem", lst("sources", "sub_expressions"),
                        args=dict(materials=mkL([])), elem=bcs_are(law))
            s = spec("heat_flux_form", args=dict(bcs=attr_of("self", "boundary_conditions"), T=attr_of("self", "T"),
                                                 v=attr_of("self", "v_T"), ds=attr_of("mesh", "ds")), elem=bcs_are(law))
            C.use(r)
            C.equal("heat: %s once on each of its surfaces" % law, F, s.norm(s.ret), C.both(r, s), r.fi, law + " term")
        if law in ("FluxBC", "ConvectiveFlux", "CustomFlux"):
            C.guarded("heat %s" % law, heat)


@prop_check("C04")
def fluxes_user(C):
    for n, c in (("flux", "FluxBC"), ("recombination", "RecombinationFlux"), ("dissociation", "DissociationFlux"),
                 ("convective", "ConvectiveFlux"), ("mass", "MassFlux"), ("customflux", "CustomFlux")):
        user_law(C, n, (c, "create_form"))


@prop_check("C05")
def dirichlet_user(C):
    care = c_or(null(sym("Kd_0")), c_not(null(sym("P"))))
    for n, c in (("dirichlet", "DirichletBC"), ("sieverts", "SievertsBC"), ("henry", "HenrysBC"),
                 ("implantation", "ImplantationDirichlet"), ("custom", "CustomDirichlet")):
        user_law(C, n, (c, "create_expression"), NUMS if n not in ("dirichlet", "custom") else None, care)


@prop_check("C06")
def kinetics_user(C):
    user_law(C, "kinetics", ("SurfaceKinetics", "create_form"), {k: NUMS[k] for k in ("lambda_IS", "n_surf", "n_IS")})


@prop_check("C08")
def extrinsic_user(C):
    names = "phi_0 n_amax n_bmax eta_a eta_b f_a f_b phi K n_max A_0 E_A".split()
    for kind in ("float", "sp.Expr", "fenics.Expression"):
        ty = {k: (kind, False) for k in names}
        for n, c in (("extrinsic", "ExtrinsicTrap"), ("neutron", "NeutronInducedTrap")):
            user_law(C, n, (c, "create_form_density"), ty, title="%s: from its arguments (%s)" % (c, kind))


@prop_check("C09")
def sources_user(C):
    user_law(C, "implantation_flux", ("ImplantationFlux", "__init__"))
    for kind in ("float", "int", "sp.Expr", "fenics.Expression", "fenics.UserExpression", "fenics.Function"):
        user_law(C, "source", ("Source", "__init__"), {"value": (kind, False)}, title="Source of a %s" % kind)
    user_law(C, "decay", ("RadioactiveDecay", "form"), {"decay_constant": ("float", False)}, care=c_lt(num(0), sym("decay_constant")))


@prop_check("C06")
def surface_kinetics(C):
    el = bcs_are("SurfaceKinetics")
    for cls in ("Mobile", "Theta"):
        def go():
            c, cn, g = spec_conc(cls)
            r, F = form(cls, "create_form", lst("sources"), args=dict(traps=NONE, materials=mkL([])), elem=el)
            s = spec("surface_kinetics_form", args=dict(
                bcs=attr_of("self", "boundary_conditions"), T=sym("T"), c=c, cn=cn, v=attr_of("self", "test_function"),
                ds=attr_of("mesh", "ds")), elem=el)
            C.use(r)
            C.equal("%s: surface balance and its bulk counterpart" % cls, F, s.norm(s.ret), C.both(r, s, g), r.fi,
                    "SurfaceKinetics form")
        C.guarded(cls, go)


@prop_check("C03")
def heat(C):
    def go():
        r, F = form("HeatTransferProblem", "define_variational_problem", lst("sources", "boundary_conditions", "sub_expressions"))
        s = spec("heat_form", "HeatTransferProblem")
        C.use(r)
        C.equal("storage and conduction on every subdomain of every material", F, s.norm(s.ret), C.both(r, s), r.fi, "heat form")
    C.guarded("heat form", go)

    def src():
        r, F = form("HeatTransferProblem", "define_variational_problem", lst("boundary_conditions", "sub_expressions"),
                    args=dict(materials=mkL([])))
        s = spec("heat_sources_form", args=dict(sources=attr_of("self", "sources"), v=attr_of("self", "v_T"), dx=attr_of("mesh", "dx")))
        C.use(r)
        C.equal("heat sources", F, s.norm(s.ret), C.both(r, s), r.fi, "heat source form")
    C.guarded("heat sources", src)


@prop_check("C09")
def sources(C):
    for cls in ("Mobile", "Theta"):
        def go():
            c, cn, g = spec_conc(cls)
            r, F = form(cls, "create_form", lst("boundary_conditions"), args=dict(traps=NONE, materials=mkL([])))
            s = spec("sources_form", args=dict(sources=attr_of("self", "sources"), c=c, v=attr_of("self", "test_function"),
                                               dx=attr_of("mesh", "dx")))
            C.use(r)
            C.equal("%s: every source on every of its volumes" % cls, F, s.norm(s.ret), C.both(r, s, g), r.fi, "source term")
        C.guarded(cls, go)

    def trap():
        at = dict(INT_IDS)
        at.update({("Source", "volume"): "int", ("Trap", "sources"): "list"})
        r, F1 = form("Trap", "create_form", attr=at)
        r0, F0 = form("Trap", "create_form", lst("sources"), attr=at)
        s = spec("sources_form", attr=at, args=dict(sources=attr_of("self", "sources"), c=attr_of("self", "solution"),
                                                v=attr_of("self", "test_function")))
        C.use(r)
        C.equal("Trap: every source in its volume", F1 - F0, s.norm(s.ret),
                c_and(r.g, r0.g, s.g, c_not(null(attr_of("self", "sources")))), r.fi, "source term of the trap")
    C.guarded("Trap", trap)


@prop_check("C08")
def extrinsic(C):
    for cls, law in (("ExtrinsicTrap", "extrinsic_density_form"), ("NeutronInducedTrap", "neutron_density_form")):
        def go():
            r, F = form(cls, "create_form_density", attr_="form_density")
            s = spec(law, cls)
            C.use(r)
            C.equal("%s: density law" % cls, F, s.norm(s.ret), C.both(r, s), r.fi, "density form")
        C.guarded(cls, go)


@prop_check("C07")
def theta(C):
    for m, law in (("mobile_concentration", "theta_concentration"), ("previous_mobile_concentration", "theta_previous_concentration")):
        def go():
            r = run(find("Theta", m), "Theta", attr=THETA)
            s = spec(law, "Theta", attr=THETA)
            C.use(r)
            C.equal("Theta.%s" % m, r.norm(r.ret), s.norm(s.ret), C.both(r, s), r.fi)
        C.guarded(m, go)

    def pp():
        r, F = form("Theta", "create_form_post_processing", attr_="form_post_processing", attr=INT_IDS)
        s = spec("post_processing_form", "Theta", attr=INT_IDS)
        C.use(r)
        C.equal("exported concentration of a chemical-potential run", F, s.norm(s.ret), C.both(r, s), r.fi)
    C.guarded("post processing", pp)


NUMERIC = {(None, k): ("float", False) for k in ("S_0", "E_S", "H_0", "E_H", "D_0", "E_D", "Kr_0", "E_Kr", "Kd_0", "E_Kd")}


@prop_check("C05")
def dirichlet(C):
    def go():
        r = run(find("DirichletBC", "create_expression"), "DirichletBC")
        s = spec("dirichlet_expression", "DirichletBC")
        C.use(r)
        C.equal("DirichletBC: the given value", r.attr("expression"), s.norm(s.ret), C.both(r, s), r.fi)
    C.guarded("DirichletBC", go)
    for cls, law in (("SievertsBC", "sieverts_value"), ("HenrysBC", "henrys_value"), ("ImplantationDirichlet", "implantation_value"),
                     ("CustomDirichlet", "custom_value")):
        def go2():
            r = spec("probe", cls, attr=NUMERIC)
            s = spec(law, cls, attr=NUMERIC)
            C.use(r)
            care = c_or(null(attr_of("self", "Kd_0")), c_not(null(attr_of("self", "P"))))
            C.equal("%s: imposed value" % cls, r.norm(r.ret), s.norm(s.ret), C.both(r, s, care), find(cls, "create_expression"), "imposed value")
        C.guarded(cls, go2)

    def th():
        r = spec("theta_bc_probe")
        s = spec("theta_bc_value")
        C.use(r)
        C.equal("conversion to chemical potential", r.norm(r.ret), s.norm(s.ret), C.both(r, s),
                find("BoundaryConditionTheta", "eval_cell"), "imposed chemical potential")
    C.guarded("BoundaryConditionTheta", th)


def attr_of(obj, *path):
    v = sym(obj) if isinstance(obj, str) else obj
    for p in path:
        v = atom(T("attr", v, p))
    return v


@prop_check("C05")
def dirichlet_places(C):
    def one():
        st = {"create_expression"}
        at = {("DirichletBC", "field"): ("int", True), ("DirichletBC", "surfaces"): "list"}
        r = run(find("DirichletBC", "create_dirichletbc"), "DirichletBC", stop=st, attr=at, types=dict(materials=("Materials", True)))
        s = spec("imposed_on", "DirichletBC", stop=st, attr=at)
        C.use(r)
        C.equal("one condition on each surface, on the component of the field", multiset(r.attr("dirichlet_bc")), multiset(s.norm(s.ret)),
                C.both(r, s, not_str(attr_of("self", "field"))), r.fi, "fenics.DirichletBC objects")
        C.completes("one condition on each surface, on the component of the field", r, s.g)
    C.guarded("create_dirichletbc", one)

    def h():
        st = {"create_dirichletbc"}
        r = run(find("HTransportProblem", "create_dirichlet_bcs"), "HTransportProblem", stop=st, types=TT)
        s = spec("all_imposed", "HTransportProblem", stop=st)
        C.use(r)
        C.equal("every Dirichlet condition of the hydrogen problem is applied", multiset(r.attr("bcs")), multiset(s.norm(s.ret)), C.both(r, s),
                r.fi, "conditions")
    C.guarded("create_dirichlet_bcs", h)

    def t():
        st = {"create_expression"}
        r = run(find("HeatTransferProblem", "create_dirichlet_bcs"), "HeatTransferProblem", stop=st, types=TT)
        s = spec("all_imposed_T", "HeatTransferProblem", stop=st)
        C.use(r)
        C.equal("every Dirichlet condition of the heat problem is applied", multiset(r.attr("dirichlet_bcs")), multiset(s.norm(s.ret)), C.both(r, s),
                r.fi, "conditions")
    C.guarded("heat create_dirichlet_bcs", t)


def val(r, v):
    """what a fenics Function holds in the end"""
    return r.norm(r.it.val_of(r.it.reify(r.st, v, shallow=True), r.st))


@prop_check("C07")
def theta_more(C):
    def ini():
        st = {"get_comp"}
        r = run(find("Theta", "initialise"), "Theta", attr=INT_IDS, stop=st)
        s = spec("theta_initial", "Theta", attr=INT_IDS, stop=st)
        C.use(r)
        C.equal("initial chemical potential from the initial concentration", val(r, r.it.get_attr(r.selfv, "previous_solution", r.st, None)), val(s, s.ret),
                C.both(r, s), r.fi, "initial theta")
        C.completes("initial chemical potential from the initial concentration", r, s.g)
    C.guarded("initial", ini)

    def loc():
        r = run(find("Theta", "get_concentration_for_a_given_material"), "Theta", types=dict(material="Material", T="Temperature"))
        s = spec("local_concentrations", "Theta", types=dict(material="Material", T="Temperature"))
        C.use(r)
        items(C, "concentration in a material", r, s, ("now", "before"))
    C.guarded("local", loc)

    def sol():
        ty = dict(mesh="Mesh")
        r = run(find("Materials", "solubility_as_function"), "Materials", attr=INT_IDS, types=ty)
        s = spec("solubility_function", "Materials", attr=INT_IDS, types=ty)
        C.use(r)
        C.equal("solubility projected on the mesh", val(r, r.it.get_attr(r.selfv, "S", r.st, None)), val(s, s.ret), C.both(r, s), r.fi)
        r = run(find("Materials", "create_solubility_law_markers"), "Materials", types=ty)
        C.use(r)
        for law, a in (("henry", "henry_marker"), ("sievert", "sievert_marker")):
            s = spec("law_marker", "Materials", types=ty, args=dict(law=mkstr(law)))
            C.equal("marker of the %s materials" % law, val(r, r.it.get_attr(r.selfv, a, r.st, None)), val(s, s.ret), C.both(r, s), r.fi)
    C.guarded("solubility", sol)


def user_parameters(C, cls):
    """every parameter the user gives to a law is the function of space and time that was given"""
    def go():
        r, s = spec("prms_" + cls), spec("two_prms")
        C.use(r)
        C.equal("%s: all parameters of the user's law" % cls, r.norm(r.ret), s.norm(s.ret), c_and(r.g, s.g), find(cls, "__init__"))
    C.guarded("parameters of " + cls, go)


@prop_check("C04")
def flux_parameters(C):
    user_parameters(C, "CustomFlux")


@prop_check("C05")
def dirichlet_parameters(C):
    user_parameters(C, "CustomDirichlet")


@prop_check("C06")
def kinetics_parameters(C):
    user_parameters(C, "SurfaceKinetics")
