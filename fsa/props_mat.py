"""Material properties, mesh marking, function spaces and initial values."""
import ast
from .oblig import *
from . import subst as S
from .reg import prop_check
from .props_eq import spec, attr_of, null, form, find, TT, lst, INT_IDS, E, val, items, not_str
from .props_run import events, ev_sum, same_events, in_order, obj_list, two_traps, distinct_ids, SIM
from .props_step import at, held, probes, always, start, SIMT, keeps
from .props_out import decides


def returns(C, title, fi, sp_, care=T_, cls=None, exc=True, **kw):
    """the function returns what the reference returns, and raises when it raises"""
    def go():
        c = cls or fi[0]
        r = run(find(*fi), c, **kw)
        s = spec(sp_, c, **kw)
        C.use(r)
        C.equal(title, r.norm(r.ret), s.norm(s.ret), C.both(r, s, care), r.fi)
        if exc:
            C.same_cond(title + " (refused)", r.raised(), s.raised(), care, r.fi, "raised exceptions")
    C.guarded(title, go)


def stores(C, title, fi, sp_, names, care=T_, cls=None, obj=None, **kw):
    """the function leaves the attributes the reference leaves"""
    def go():
        c = cls or fi[0]
        r = run(find(*fi), c, **kw)
        s = spec(sp_, c, **kw)
        C.use(r)
        for n in names:
            C.equal("%s: %s" % (title, n), r.attr(n, obj), s.attr(n, obj), C.both(r, s, care), r.fi, "attribute " + n)
        C.completes(title, r, c_and(s.g, care))
    C.guarded(title, go)


MAT = {("ArheniusCoeff", "_materials"): ("Materials", True), ("ThermalProp", "_materials"): ("Materials", True)}


@prop_check("C27")
def lookup(C):
    returns(C, "material with a given id", ("Materials", "find_material_from_id"), "material_of_id")
    returns(C, "material with a given name", ("Materials", "find_material_from_name"), "material_of_name")
    returns(C, "material with a given tag", ("Materials", "find_material"), "material_of")
    for name, sp_, args, need in (
            ("D", "r_arrhenius", dict(pre="D_0", E="E_D"), None),
            ("S", "r_arrhenius", dict(pre="S_0", E="E_S"), "S_0"),
            ("thermal_cond", "r_thermal", dict(key="thermal_cond"), "thermal_cond"),
            ("heat_capacity", "r_thermal", dict(key="heat_capacity"), "thermal_cond"),
            ("density", "r_thermal", dict(key="rho"), "thermal_cond"),
            ("Q", "r_thermal", dict(key="Q"), "Q")):
        def go():
            ty = dict(vm="fenics.MeshFunction", T="fenics.Function")
            r = spec("u_field", "Materials", types=ty, args=dict(name=mkstr(name)))
            s = spec(sp_, "Materials", types=ty, args={k: mkstr(v) for k, v in args.items()})
            C.use(r)
            fi = find("Materials", "create_properties")
            care = T_ if need is None else c_not(null(r.it.get_attr(r.it.getitem(sym("self"), num(0), r.st, NODE), need, r.st, None)))
            C.equal("%s in a cell is that of the material there" % name, r.norm(r.ret), s.norm(s.ret), C.both(r, s, care), fi)
            C.completes("%s in a cell" % name, r, c_and(s.g, care), fi)
        C.guarded(name, go)


@prop_check("C27")
def helpers(C):
    returns(C, "constants", (None, "as_constant"), "constant_of")
    returns(C, "expressions", (None, "as_expression"), "expression_of")
    returns(C, "constants or expressions", (None, "as_constant_or_expression"), "constant_or_expression_of")
    returns(C, "kJ/mol to eV", (None, "kJmol_to_eV"), "ev_of_kj")

    def consts():
        p = program()
        for name, ref in (("k_B", 8.617333262e-5), ("R", 8.314462618)):
            ms = [m for m in p.modules.values() if not m.name.startswith("spec_") and name in m.names and m.names[name][0] == "const"]
            for m in ms:
                node = m.names[name][1]
                v = fold(node)
                where = "%s:%d %s" % (m.rel, node.lineno, name)
                if v is None:
                    C.add("value of %s" % name, "undecided", where, ["not a number"])
                elif abs(v / ref - 1) > 1e-4:
                    C.add("value of %s" % name, "violated", where, ["%s is %r, its physical value is %r" % (name, v, ref)], name)
                else:
                    C.add("value of %s" % name, "holds", where)
        m = p.modules["festim"]
        for i, (name, want) in enumerate((("x", "x[0]"), ("y", "x[1]"), ("z", "x[2]"), ("t", "t"))):
            got = symbol_of(m, name)
            if got is None:
                C.add("symbol %s" % name, "undecided", m.rel)
            elif got != want:
                C.add("symbol %s" % name, "violated", m.rel, ["festim.%s is the symbol %r instead of %r" % (name, got, want)], name)
            else:
                C.add("symbol %s" % name, "holds", m.rel)
    C.guarded("constants", consts)


def fold(n):
    """a numeric constant expression"""
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
        return n.value
    if isinstance(n, ast.BinOp):
        a, b = fold(n.left), fold(n.right)
        if a is None or b is None:
            return None
        if isinstance(n.op, ast.Mult):
            return a * b
        if isinstance(n.op, ast.Div) and b:
            return a / b
        if isinstance(n.op, ast.Pow) and abs(b) < 100:
            return a ** b
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        a = fold(n.operand)
        return None if a is None else -a
    return None


def symbol_of(m, name):
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, (ast.Attribute, ast.Name)):
            fn = n.value.func.attr if isinstance(n.value.func, ast.Attribute) else n.value.func.id
            if fn not in ("symbols", "Symbol") or len(n.value.args) != 1 or n.value.keywords:
                continue
            a = n.value.args[0]
            if not isinstance(a, ast.Constant) or not isinstance(a.value, str):
                continue
            for t in n.targets:
                ts = t.elts if isinstance(t, ast.Tuple) else [t]
                vs = a.value.replace(",", " ").split() if fn == "symbols" else [a.value]
                if len(ts) == len(vs):
                    for q, v in zip(ts, vs):
                        if isinstance(q, ast.Name) and q.id == name:
                            return v
    return None


def marks(r, obj):
    """the value a mesh function ends up with on a generic entity of the mesh: ({domain: value}, problem)"""
    t = as_atom(obj)
    if t is None or t.op != "alloc":
        return None, "markers are not a new MeshFunction"
    c = as_atom(t.args[0])
    if c is None or c.op != "call" or c.args[0] != "fenics.MeshFunction":
        return None, "markers are not a new MeshFunction"
    a = c.args[1]
    base = a[3] if len(a) > 3 else None
    idx = T("sym", "any_entity")
    cur, dom = base, None
    for e in sorted(r.it.events, key=lambda e: e.seq):
        if not e.args or not isinstance(e.args[0], Lin) or e.args[0] is not obj:
            continue
        if e.kind == "mcall" and e.name == "set_all" and not e.ctx and e.g is T_:
            cur = e.args[1]
        elif e.kind == "setitem":
            if len(e.ctx) != 1 or e.ctx[0][1] is None or e.name != "[]":
                return None, "a marker is set outside a loop over the entities"
            d, i = e.ctx[0]
            from .interp import elem_raw
            if dom is None:
                dom = d
            if d is not dom or e.args[1] is not elem_raw(d, atom(i)):
                return None, "a marker is set on another entity"
            m = {i: atom(idx)}
            g = S.subst_cond(e.g, m)
            v = subst(r.it.reify(r.st, e.args[2]), m)
            if cur is None and g is not T_:
                return None, "an entity may be left without marker"
            cur = v if g is T_ else ite(g, v, cur)
        elif e.kind not in ("setitem",) and e.name in ("set_value", "set_values", "assign"):
            return None, "markers are set by " + e.name
    return (dom, cur), None


@prop_check("C26")
def marking(C):
    returns(C, "subdomain at a coordinate", ("Materials", "find_subdomain_from_x_coordinate"), "subdomain_at")

    def go():
        ty = dict(materials=("Materials", True))
        st = {"check_borders", "find_subdomain_from_x_coordinate"}
        kw = dict(types=ty, stop=st)
        r = run(find("Mesh1D", "define_measures"), "Mesh1D", **kw)
        s = spec("mesh_1d_marked", "Mesh1D", **kw)
        C.use(r)
        x = T("sym", "any_entity")
        for which, ms in (("volume_markers", "dx"), ("surface_markers", "ds")):
            a, b = (q.it.get_attr(q.selfv, which, q.st, None) for q in (r, s))
            (va, ea), (vb, eb) = marks(r, a), marks(s, b)
            if ea or eb:
                C.add("1D mesh: %s" % which, "undecided", C.at(r), [ea or eb])
                continue
            if va[0] is not vb[0]:
                C.add("1D mesh: %s" % which, "undecided", C.at(r), ["another loop"])
                continue
            care = c_and(r.g, s.g)
            if which == "surface_markers":
                w = spec("both_ends", "Mesh1D", args=dict(facet=elem_of(va[0], x)))
                care = c_and(care, c_not(c_truth(w.ret)))
            C.equal("1D mesh: %s" % which, r.norm(va[1]), s.norm(vb[1]), care, r.fi, "markers")
            C.equal("1D mesh: dimension of the %s" % which, r.norm(a), s.norm(b), c_and(r.g, s.g), r.fi, "markers")
            C.equal("1D mesh: %s" % ms, r.attr(ms), s.attr(ms), c_and(r.g, s.g), r.fi, "measure")
            d = r.it.get_attr(r.selfv, ms, r.st, None)
            C.add("1D mesh: %s uses the markers" % ms, "holds" if contains_raw(d, a) else "undecided", C.at(r))
    C.guarded("1D mesh", go)
    for cls in ("Mesh", "MeshFromXDMF"):
        stores(C, "measures of a " + cls, (cls, "define_measures"), "mesh_any", ("dx", "ds"))

    def vert():
        r = run(find("MeshFromVertices", "__init__"), "MeshFromVertices")
        s = spec("mesh_vertices", "MeshFromVertices")
        C.use(r)
        care = C.both(r, s)
        for n in ("size", "start", "mesh"):
            C.equal("mesh from vertices: " + n, r.attr(n), s.attr(n), care, r.fi, "attribute " + n)
        same_events(C, "mesh from vertices: cells and vertices", r, s, ("open", "init_vertices", "init_cells", "add_vertex", "add_cell", "close"), care)
        one = lambda *n: events(r, n)
        in_order(C, "mesh from vertices: opened first", r, one("open"), one("init_vertices", "init_cells", "add_vertex", "add_cell", "close"))
        in_order(C, "mesh from vertices: closed last", r, one("init_vertices", "init_cells", "add_vertex", "add_cell"), one("close"))
        r = run(find("MeshFromXDMF", "__init__"), "MeshFromXDMF")
        s = spec("mesh_xdmf", "MeshFromXDMF")
        C.use(r)
        care = C.both(r, s)
        for n in ("mesh", "volume_markers", "surface_markers"):
            C.equal("mesh from files: " + n, r.attr(n), s.attr(n), care, r.fi, "attribute " + n)
        same_events(C, "mesh from files: what is read", r, s, ("read",), care)
    C.guarded("meshes", vert)
    keeps(C, "Mesh", ("mesh", "volume_markers", "surface_markers", "type"))


def elem_of(d, i):
    from .interp import elem_raw
    return elem_raw(d, atom(i))


def contains_raw(x, y):
    t = as_atom(y)
    return contains(x, lambda z: z is t)
