"""Runs the value-flow analysis on an entry point of festim and on its reference
law, and compares the two normal forms."""
import ast
import os
import sys

sys.setrecursionlimit(30000)
from . import core, subst as S
from .core import *
from .core import PROPS, TooBig
from .subst import subst, diff_terms, show_key, open_segs, fresh_index, mk_sum, mkterm
from .loader import Program
from .interp import Interp, State, sym, unk, mkL, is_L, NONE, TRUE, FALSE
from .interp2 import erase

REPO = os.environ.get("FESTIM_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
SPECDIR = os.path.join(os.path.dirname(HERE), "specs")

ATTR = {
    (None, "sub_expressions"): "list", (None, "expressions"): "list",
    (None, "dx"): "fenics.Measure", (None, "ds"): "fenics.Measure",
    ("Simulation", "mesh"): "Mesh", ("Simulation", "materials"): "Materials", ("Simulation", "traps"): "Traps",
    ("Simulation", "T"): "Temperature", ("Simulation", "settings"): "Settings", ("Simulation", "dt"): "Stepsize",
    ("Simulation", "exports"): "Exports", ("Simulation", "h_transport_problem"): "HTransportProblem",
    ("Simulation", "mobile"): "Mobile",
    ("HTransportProblem", "mobile"): "Mobile", ("HTransportProblem", "traps"): "Traps",
    ("HTransportProblem", "T"): "Temperature", ("HTransportProblem", "settings"): "Settings",
    ("Theta", "T"): "Temperature", ("Theta", "materials"): "Materials",
    ("Mesh", "mesh"): "fenics.Mesh",
    ("TrapDensityXDMF", "trap"): "Trap",
}
ELEM = {
    "Materials": "Material", "Traps": "Trap", "DerivedQuantities": "DerivedQuantity",
    ("attr", "sources"): "Source", ("attr", "boundary_conditions"): "BoundaryCondition",
    ("attr", "materials"): "Material", ("attr", "_materials"): "Material", ("attr", "traps"): "Trap",
    ("attr", "initial_conditions"): "InitialCondition",
}


class Missing(Exception):
    """an anchor of the analysis is gone from the source"""


_prog = None


def program():
    global _prog
    if _prog is None:
        extra = []
        for f in sorted(os.listdir(SPECDIR)):
            if f.endswith(".py"):
                extra.append(("spec_" + f[:-3], open(os.path.join(SPECDIR, f)).read()))
        from . import ctors
        extra.append(("spec_auto", ctors.source()))
        _prog = Program(REPO, "festim", extra)
    return _prog


class Run:
    def __init__(self, it, st, ret, args, selfv, fi):
        self.it, self.st, self.ret, self.args, self.selfv, self.fi = it, st, ret, args, selfv, fi
        self.tags = {}

    def tag(self, *names):
        """objects created by the code and kept in these attributes of self are told apart by that name"""
        obj = self.selfv if self.selfv is not None else self.args["self"]
        for n in names:
            t = as_atom(self.it.get_attr(obj, n, self.st, None))
            if t is not None and t.op == "alloc":
                self.tags[t] = sym("self." + n + " afterwards")

    @property
    def g(self):
        """guard of normal completion"""
        return self.st.g

    def attr(self, path, obj=None):
        """value of self.<path> afterwards"""
        v = self.selfv if obj is None else obj
        if isinstance(v, str):
            v = self.args[v]
        for p in path.split("."):
            v = self.it.get_attr(v, p, self.st, None)
        return self.norm(v)

    def items(self, path, obj=None):
        """contents of the list self.<path> afterwards"""
        v = self.selfv if obj is None else obj
        for p in path.split("."):
            v = self.it.get_attr(v, p, self.st, None)
        return self.norm(self.it.reify(self.st, fmap(lambda g: mkL(self.it.segs_of(self.st, g)), v)))

    def norm(self, v):
        v = self.it.reify(self.st, v)
        if self.tags:
            v = subst(v, self.tags)
        return erase(v)

    def raised(self, exc=None):
        g = F_
        for r in self.it.raises:
            if exc is None or r.exc in exc:
                g = c_or(g, r.g)
        return g


_names = None


def known_names():
    """functions and methods of the code under analysis, plain and qualified"""
    global _names
    if _names is None:
        _names = set()
        for m in program().modules.values():
            if not m.name.startswith("spec_"):
                _names |= {n for n, b in m.names.items() if b[0] == "func"}
        for c in program().classes.values():
            if not c.module.name.startswith("spec_"):
                for k in program().mro(c):
                    if not isinstance(k, str):
                        for n in list(k.methods) + list(k.getters):
                            _names |= {n, c.name + "." + n}
    return _names


def make_interp(types=None, attr=None, elem=None, stop=(), vopaque=(), vmax=8, effects=None, watch=(), probes=None, dim=None):
    it = Interp(program())
    it.mesh_dim = dim
    it.attr_types = dict(ATTR)
    it.elem_types = dict(ELEM)
    it.attr_types.update(attr or {})
    it.elem_types.update(elem or {})
    it.stop = set(stop)
    for n in it.stop:
        if n not in known_names():
            raise Missing("function %s" % n)
    it.effects = dict(effects or {})
    it.watch = tuple(watch)
    it.probes = dict(probes or {})
    it.vopaque = set(vopaque)
    it.vmax = vmax
    for k, v in (types or {}).items():
        it.types[T("sym", k)] = v if isinstance(v, tuple) else (v, False)
    return it


def put(it, st, obj, name, v):
    """give an attribute a value, whatever the attribute behind a property is called"""
    t = as_atom(it.get_attr(obj, name, st, None))
    it.heap_write(st, obj, t.args[1] if t is not None and t.op == "attr" and t.args[0] is obj else name, v)


def find(cls, name):
    p = program()
    if cls is None:
        for m in p.modules.values():
            if m.name.startswith("festim") and name in m.names and m.names[name][0] == "func":
                return m.names[name][1]
        raise Missing("function %s" % name)
    if cls not in p.classes:
        raise Missing("class %s" % cls)
    c = p.classes[cls]
    for getter in (lambda: p.find_method(c, name), lambda: p.find_prop(c, name), ):
        f = getter()
        if f is not None:
            return f
    raise Missing("%s.%s" % (cls, name))


def spec_func(name):
    fs = [m.names[name][1] for m in program().modules.values()
          if m.name.startswith("spec_") and name in m.names and m.names[name][0] == "func"]
    if len(fs) != 1:
        raise RuntimeError("%d reference laws named %s" % (len(fs), name))
    return fs[0]


NODE = ast.parse("0").body[0]


def run(fi, cls=None, args=None, defaults=True, pre=None, call=None, **kw):
    """analyse fi on symbolic arguments.  args: {name: Lin}; unnamed parameters
    become symbols of the same name."""
    it = make_interp(**kw)
    if cls is not None:
        it.types.setdefault(T("sym", "self"), (cls, True))
    st = State()
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    vals = {}
    selfv = None
    for n in names:
        if args and n in args:
            vals[n] = args[n]
        else:
            vals[n] = sym(n)
    if args:
        for n in args:
            vals.setdefault(n, args[n])
    if pre:
        pre(it, st, vals)
    if names and names[0] == "self":
        selfv = vals["self"]
    kws = [(n, vals[n]) for n in names if n != "self"]
    it.frames.append(_frame(fi))
    it.frames.pop()
    ret = it.call_func(fi, [], kws, st, NODE, selfv=selfv if fi.cls is not None and selfv is not None else None) \
        if fi.cls is not None else it.call_func(fi, [], ([("self", selfv)] if selfv is not None else []) + kws, st, NODE)
    return Run(it, st, ret, vals, selfv, fi)


def _frame(fi):
    from .interp import Frame
    return Frame(fi, {})


# ------------------------------------------------------------------ comparison
def contains(x, pred, seen=None):
    seen = set() if seen is None else seen
    if isinstance(x, (Lin, Term, Node)):
        k = (type(x).__name__, x.id)
        if k in seen:
            return False
        seen.add(k)
    if isinstance(x, Term):
        if pred(x):
            return True
        return any(contains(a, pred, seen) for a in x.args)
    if isinstance(x, Lin):
        return any(contains(n, pred, seen) or any(contains(t, pred, seen) for t, e in m) for m, n in x.items)
    if isinstance(x, Node):
        return any(contains(PROPS[v], pred, seen) for v in core.support(x))
    if isinstance(x, tuple):
        return any(contains(a, pred, seen) for a in x)
    return False


def is_unk(t):
    return t.op in ("unk",)


def multiset(v):
    """a list value as the formal sum of its elements (order forgotten)"""
    def segs(ss):
        r = num(0)
        for s in ss:
            if s[0] == "one":
                x = mkterm("el", s[2])
            elif s[0] == "ent":
                x = mkterm("ent", s[2], s[3])
            elif s[0] == "spl":
                i = fresh_index()
                from .interp import elem_raw
                x = fmap(lambda d: mk_sum(d, i, mkterm("el", elem_raw(d, atom(i)))), s[2])
            else:
                i = fresh_index()
                x = mk_sum(s[2], i, segs(open_segs(s[4], s[3], i)))
            r = add(r, scale(x, s[1]))
        return r

    def fn(g):
        t = as_atom(g)
        if t is not None and t.op == "L":
            return segs(t.args[0])
        i = fresh_index()
        from .interp import elem_raw
        if t is not None and t.op in ("attr", "sym", "elem"):
            return mk_sum(g, i, mkterm("el", elem_raw(g, atom(i))))
        return mkterm("el*", g)
    return fmap(fn, v)
