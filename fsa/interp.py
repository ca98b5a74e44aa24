"""Gated value-flow analysis of the festim sources.

Every function body is turned, statement by statement, into guarded values
(core.Lin): branches are merged into gated values (as in gated SSA), calls to
festim code are inlined, loops over collections become sums / quantifiers /
generated sequences over the collection.  No path is enumerated, nothing is
executed and no solver is involved; the result is one normal form per location.
"""
import ast
import itertools
from .core import *
from .core import PROPS, TooBig
from . import core, subst as S
from .subst import (subst, subst_cond, mk_sum, c_exists, mk_pick, mk_prefix, fresh_index, mkterm,
                    f_len, c_pos_len, close_gen, open_segs, pick_index)
from .loader import ClassInfo, FuncInfo, Program

_uid = itertools.count(1)


class Unsupported(Exception):
    pass


def unk(why):
    return atom(T("unk", why))


def sym(name):
    return atom(T("sym", name))


LISTM = {"append", "extend", "insert", "sort", "pop", "remove", "clear", "index", "count", "copy", "reverse"}
def _ty(x):
    return x if isinstance(x, tuple) else (x, False)


IGNORED_CALLS = {"print", "warnings.warn", "fenics.begin", "fenics.end", "fenics.set_log_level",
                 "warnings.simplefilter", "fenics.info", "warnings.filterwarnings"}
ALLOC = {"fenics.Function", "fenics.Constant", "fenics.Expression", "fenics.NewtonSolver", "fenics.XDMFFile",
         "fenics.TestFunction", "fenics.TrialFunction", "fenics.MeshFunction", "fenics.Mesh",
         "fenics.MeshEditor", "fenics.MeshValueCollection", "fenics.UserExpression"}
EXT_CLASSES = {"fenics.Function", "fenics.Constant", "fenics.Expression", "fenics.NewtonSolver", "fenics.XDMFFile",
               "fenics.UserExpression", "sp.Expr", "fenics.Mesh", "fenics.Measure", "fenics.MeshFunction",
               "np.ndarray"}
DISJOINT = ["int", "float", "str", "list", "dict", "tuple", "set", "sp.Expr", "fenics.Function", "fenics.Constant",
            "fenics.Expression", "fenics.UserExpression", "fenics.NewtonSolver", "np.ndarray", "fenics.Measure"]
EXC = {"ValueError", "TypeError", "AttributeError", "KeyError", "NotImplementedError", "RuntimeError", "Exception",
       "IndexError", "StopIteration", "ImportError", "AssertionError", "NameError", "Warning", "DeprecationWarning",
       "UserWarning", "OSError", "FileNotFoundError", "UnboundLocalError", "ZeroDivisionError", "LookupError"}


class QS:
    """quantified store: for all vars in their domains, obj.key = val (guard)"""
    __slots__ = ("ts", "vars", "obj", "key", "val", "g")

    def __init__(self, ts, vars, obj, key, val, g):
        self.ts, self.vars, self.obj, self.key, self.val, self.g = ts, vars, obj, key, val, g


class State:
    __slots__ = ("env", "heap", "qs", "g")

    def __init__(self, env=None, heap=None, qs=(), g=T_):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.qs = qs
        self.g = g

    def clone(self):
        return State(dict(self.env), dict(self.heap), self.qs, self.g)

    def become(self, o):
        self.env, self.heap, self.qs, self.g = o.env, o.heap, o.qs, o.g


class Event:
    __slots__ = ("kind", "name", "args", "g", "ctx", "line", "func", "seq", "result")

    def __init__(self, kind, name, args, g, ctx, line, func, seq, result=None):
        self.kind, self.name, self.args, self.g, self.ctx = kind, name, args, g, ctx
        self.line, self.func, self.seq, self.result = line, func, seq, result

    def __repr__(self):
        return "%s %s(%s) if %s @%s" % (self.kind, self.name, ", ".join(show(a) for a in self.args), show_cond(self.g), self.line)


class Raised:
    __slots__ = ("g", "exc", "line", "func", "msg")

    def __init__(self, g, exc, line, func, msg=None):
        self.g, self.exc, self.line, self.func, self.msg = g, exc, line, func, msg


def own_nodes(f):
    """nodes of a function outside the functions nested in it"""
    todo = list(f.body) if isinstance(f.body, list) else [f.body]
    while todo:
        q = todo.pop()
        yield q
        if not isinstance(q, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(q))


def is_generator(f):
    if not hasattr(f, "_gen"):
        f._gen = any(isinstance(q, (ast.Yield, ast.YieldFrom)) for q in own_nodes(f))
    return f._gen


def local_names(f):
    out = {q.id for q in own_nodes(f) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store)}
    return out | {q.name for q in own_nodes(f) if isinstance(q, ast.FunctionDef)}


def rebound(home, f):
    """names of the enclosing function that f reads and that are set again after f is defined"""
    if home is None or home.fi is None or not hasattr(home.fi.node, "body"):
        return set()
    free = {q.id for q in ast.walk(f) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Load)} - local_names(f)
    a = f.args
    free -= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    end = getattr(f, "end_lineno", f.lineno)
    return {q.id for q in own_nodes(home.fi.node) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store) and q.id in free and q.lineno > end}


class Frame:
    shared = ()

    def __init__(self, fi, env):
        self.fi = fi
        self.rets = []
        self.loops = []
        self.cls = fi.cls if fi else None
        self.module = fi.module if fi else None


class Ctl:
    def __init__(self):
        self.breaks, self.conts = [], []


def seg_one(v, g=T_):
    return ("one", g, v)


_xyzt = {}


def mentions_xyzt(x):
    """is an arithmetic expression of festim.x, y, z or t"""
    k = x.id
    if k not in _xyzt:
        def rec(y):
            if isinstance(y, Lin):
                return any(rec(t) for m, n in y.items for t, e in m)
            if isinstance(y, Term):
                if y.op == "sym":
                    return y.args[0] in ("festim.x", "festim.y", "festim.z", "festim.t")
                if y.op in ("exp", "lin", "abs", "pow"):
                    return any(rec(a) for a in y.args if isinstance(a, (Lin, Term)))
            return False
        _xyzt[k] = rec(x)
    return _xyzt[k]


def plain_copy(s):
    """[x for x in d] is d"""
    if s[0] == "gen" and len(s[4]) == 1 and s[4][0][0] == "one" and s[4][0][1] is T_:
        t = as_atom(s[4][0][2])
        if t is not None and t.op == "elem" and t.args[1] is atom(T("b", s[3])) and t.args[0] is s[2]:
            return ("spl", s[1], s[2])
    return s


def merge_segs(segs):
    """alternatives of one element, under exclusive guards, are one gated element"""
    out = []
    for s in segs:
        if s[0] in ("one", "ent") and s[1] is F_:
            continue
        if out and s[0] in ("one", "ent"):
            p = out[-1]
            if p[0] == s[0] and s[1] is not T_ and p[1] is not T_ and not feasible(c_and(p[1], s[1])):
                if s[0] == "one":
                    out[-1] = ("one", c_or(p[1], s[1]), ite(p[1], p[2], s[2]))
                    continue
        if out and s[0] == "spl" and out[-1][0] == "spl" and out[-1][2] is s[2] and not feasible(c_and(out[-1][1], s[1])):
            out[-1] = ("spl", c_or(out[-1][1], s[1]), s[2])
            continue
        if s[0] == "ent":
            # a later entry replaces the value of the same key
            hit = None
            for j in range(len(out) - 1, -1, -1):
                if out[j][0] != "ent":
                    break
                if out[j][2] is s[2]:
                    hit = j
                    break
                if const_of(out[j][2]) is None or const_of(s[2]) is None:
                    break
            if hit is not None:
                p = out[hit]
                out[hit] = ("ent", c_or(p[1], s[1]), p[2], ite(s[1], s[3], p[3]))
                continue
        out.append(s)
        # parts that exclude each other have no order
        k = len(out) - 1
        while k and _rank(out[k]) < _rank(out[k - 1]) and T_ not in (out[k][1], out[k - 1][1]) \
                and not feasible(c_and(out[k][1], out[k - 1][1])):
            out[k], out[k - 1] = out[k - 1], out[k]
            k -= 1
    return tuple(out)


def _rank(s):
    if s[0] == "gen":
        return (2, 0, 0) if all(q[0] != "ent" for q in s[4]) else (3, 0, 0)
    return {"one": (0, 0, 0), "spl": (1, s[2].id, 0)}.get(s[0], (3, 0, 0))


def mkL(segs):
    segs = tuple(plain_copy(s) for s in segs)
    return atom(T("L", merge_segs(segs)))


def is_L(L):
    t = as_atom(L)
    return t is not None and t.op == "L"


def is_listobj(L):
    t = as_atom(L)
    return t is not None and t.op == "new" and t.args[0] in ("list", "dict", "set")


def is_strlike(L):
    t = as_atom(L)
    return t is not None and t.op in ("str", "cat", "strof")


def mk_cat(parts):
    out = []
    for p in parts:
        t = as_atom(p)
        if t is not None and t.op == "cat":
            sub = t.args[0]
        else:
            sub = (p,)
        for q in sub:
            tq = as_atom(q)
            if tq is not None and tq.op == "strof" and not tq.args[1] and len(parts) > 1:
                q = tq.args[0]      # text made of several parts: each is shown as it is
                tq = as_atom(q)
            if out and tq is not None and tq.op == "str":
                tl = as_atom(out[-1])
                if tl is not None and tl.op == "str":
                    out[-1] = mkstr(tl.args[0] + tq.args[0])
                    continue
            if tq is not None and tq.op == "str" and tq.args[0] == "":
                continue
            out.append(q)
    if not out:
        return mkstr("")
    if len(out) == 1:
        return out[0]
    return mkterm("cat", tuple(out))


def f_strof(v, spec=""):
    def fn(g):
        q = as_num(g)
        if q is not None and not spec and q.denominator == 1:
            return mkstr(str(q.numerator))
        t = as_atom(g)
        if t is not None and t.op in ("str", "cat", "strof") and not spec:
            return g
        return atom(T("strof", g, spec))
    return fmap(fn, v)


def elem_raw(cont, idx):
    """element of a sequence value, without a heap"""
    def fn(c, i):
        t = as_atom(c)
        if t is not None:
            if t.op == "range":
                if as_num(i) is None or as_num(i) >= 0:
                    return i
            if t.op == "L":
                r = index_L(t.args[0], i)
                if r is not None:
                    return r
            if t.op == "slice" and t.args[3] is NONE and _index_at_least(i, 0) and (t.args[1] is NONE or _index_at_least(t.args[1], 0)):
                return elem_raw(t.args[0], i if t.args[1] is NONE else add(i, t.args[1]))
            if t.op == "str" and as_num(i) is not None:
                try:
                    return mkstr(t.args[0][int(as_num(i))])
                except IndexError:
                    pass
        if as_num(i) is None and any(x.op in ("len", "sum") for m, n in i.items for x, e in m):
            d = as_num(add(i, neg(f_len(c))))
            if d is not None and d < 0:
                i = num(d)
        if S.SIZES is not None and as_num(i) is not None and as_num(i) < 0:
            n = as_num(f_len(c))
            if n is not None and n + as_num(i) >= 0:
                return elem_raw(c, num(n + as_num(i)))
        return atom(T("elem", c, i))
    return fmap(fn, cont, idx)


def index_L(segs, i):
    q = as_num(i)
    if q is not None and q.denominator == 1:
        q = int(q)
        if q >= 0:
            for n, s in enumerate(segs):
                if s[0] == "one" and s[1] is T_:
                    if n == q:
                        return s[2]
                    continue
                if s[0] == "spl" and s[1] is T_:
                    return elem_raw(s[2], num(q - n)) if n == 0 or True else None
                if s[0] == "gen" and s[1] is T_ and len(s[4]) == 1 and s[4][0][0] == "one" and s[4][0][1] is T_:
                    return subst(s[4][0][2], {T("b", s[3]): num(q - n)})
                return None
            return None
        for n, s in enumerate(reversed(segs)):
            if s[0] == "one" and s[1] is T_:
                if n == -q - 1:
                    return s[2]
                continue
            if s[0] == "spl" and s[1] is T_ and n + 1 == len(segs):
                return elem_raw(s[2], num(q + n))  # what all of it was made of
            return None
        return None
    # symbolic index: offset by leading singletons, then one generated part
    for n, s in enumerate(segs):
        if s[0] == "one" and s[1] is T_:
            continue
        rest = segs[n:]
        if len(rest) != 1:
            return None
        if s[0] == "gen" and s[1] is T_ and len(s[4]) == 1 and s[4][0][0] == "one" and s[4][0][1] is T_:
            j = add(i, num(-n))
            if n and not _index_at_least(i, n):
                return None
            return subst(s[4][0][2], {T("b", s[3]): j})
        if s[0] == "spl" and s[1] is T_ and (n == 0 or _index_at_least(i, n)):
            return elem_raw(s[2], add(i, num(-n)))
        return None
    return None


def _index_at_least(i, n):
    """i = (index variable) + c with c >= n"""
    c = ZERO
    for m, k in i.items:
        if m == ():
            c = k.val
        elif k.var is None and k.val > 0 and all(t.op in ("i", "b", "prefix", "len", "first", "last", "sum") for t, e in m):
            continue
        else:
            return False
    return c >= n


S.REMAKE_HOOK["elem"] = elem_raw
S.REMAKE_HOOK["len"] = f_len
S.REMAKE_HOOK["cat"] = lambda parts: mk_cat(list(parts))


IN_PLACE = {"set_local", "add_local", "axpy", "zero", "abs", "set_array", "set_value", "set_values", "set_all"}
IN_PLACE_SELF = {"set_all", "set_value", "set_values", "set_array", "snap_boundary"}


def inside(v, whole=False):
    """the function (markers, mesh) whose values v refers to"""
    t = as_atom(v)
    if whole and t is not None and t.op == "slice" and t.args[1] is NONE and t.args[2] is NONE:
        t = as_atom(t.args[0])
    if whole and t is not None and t.op == "mcall" and t.args[1] in ("get_local", "copy"):
        t = as_atom(t.args[0])
    if t is not None and t.op == "mcall" and t.args[1] in ("vector", "array", "coordinates") and isinstance(t.args[0], Lin):
        return t.args[0]
    return None


SPACED = ("fenics.Function", "fenics.TestFunction", "fenics.TrialFunction")


def equation(F):
    """lhs(X) == rhs(X) is X == 0"""
    for i, j in ((0, 1), (1, 0)) if len(F.items) == 2 else ():
        (m, a), (n, b) = F.items[i], F.items[j]
        if len(m) == len(n) == 1 and m[0][1] == n[0][1] == 1:
            x, y = m[0][0], n[0][0]
            if x.op == y.op == "call" and (x.args[0], y.args[0]) == ("fenics.lhs", "fenics.rhs") and x.args[1:] == y.args[1:] \
                    and a.val is not None and b is leaf(-a.val):
                return scale(x.args[1][0], leaf(a.val))
    return F


class Interp:
    def __init__(self, prog, types=None, max_depth=40):
        self.prog = prog
        self.types = types or {}  # Term -> (class, exact)
        self.attr_types = {}  # (class, attr) -> class ; (None, attr) -> class
        self.elem_types = {}  # class -> class ; ("attr", name) -> class
        self.events, self.raises = [], []
        self.half_set = set()  # variables read where some paths leave them unassigned
        self.ctx = []
        self.effects = {}
        self.probes = {}  # name of an operation -> {title: fn(it, st, args)} evaluated at each occurrence
        self.watch = ()  # locations whose value is recorded at each non-linear solve
        self.frames = []
        self.depth = 0
        self.max_depth = max_depth
        self.analysed = set()
        self.ts = itertools.count(1)
        self.objs = {}
        self.notes = set()
        self.stop = set()  # qualified names kept opaque
        self.vopaque = set()  # virtual methods kept opaque
        self.vmax = 8
        self.quiet = 0
        core.SUBCLASS_HOOK[0] = self.h_subclass
        core.COMMON_HOOK[0] = self.h_common
        core.TRUTH_HOOK[0] = None
        S.PROP_HOOK["isinst"] = lambda x, c: lift(lambda g: self.isinst_g(g, c, None), x)

    # ---- class theory -----------------------------------------------------
    def h_subclass(self, a, b):
        if a == b:
            return True
        return self.prog.is_subclass(a, b)

    def h_common(self, a, b):
        if a == b:
            return True
        if a in DISJOINT and b in DISJOINT:
            return False
        ca, cb = a in self.prog.classes, b in self.prog.classes
        if ca and cb:
            return self.prog.common(a, b)
        if ca or cb:
            c, e = (a, b) if ca else (b, a)
            if e in ("int", "float", "str", "tuple", "sp.Expr"):
                return any(self.prog.is_subclass(s, e) for s in self.prog.subclasses(c))
            if e in EXT_CLASSES or e in ("list", "dict"):
                return any(self.prog.is_subclass(s, e) for s in self.prog.subclasses(c))
        return True

    # ---- heap -------------------------------------------------------------
    def match(self, pat, tgt, vars, b):
        """pattern Lin/Term/tuple against a target, binding index vars"""
        if pat is tgt:
            return True
        if isinstance(pat, Lin) and isinstance(tgt, Lin):
            t = as_atom(pat)
            if t is not None and t in vars:
                if t in b:
                    return b[t] is tgt
                b[t] = tgt
                return True
            u = as_atom(tgt)
            if t is not None and u is not None:
                return self.match(t, u, vars, b)
            # i + c
            vs = [x for x in pat.fv if x in vars]
            if len(vs) == 1 and as_atom(pat) is None and vs[0] not in b:
                d = pat - atom(vs[0])
                if vs[0] not in d.fv:
                    b[vs[0]] = tgt - d
                    return True
            return False
        if isinstance(pat, Term) and isinstance(tgt, Term):
            if pat.op != tgt.op or len(pat.args) != len(tgt.args):
                return False
            if not any(v in pat.fv for v in vars):
                return False
            return all(self.match(x, y, vars, b) for x, y in zip(pat.args, tgt.args))
        if isinstance(pat, tuple) and isinstance(tgt, tuple):
            return len(pat) == len(tgt) and all(self.match(x, y, vars, b) for x, y in zip(pat, tgt))
        if isinstance(pat, Node) or isinstance(tgt, Node):
            return False
        return type(pat) is type(tgt) and pat == tgt

    def heap_get(self, st, obj, key):
        """Lin or None"""
        ent = st.heap.get((obj, key))
        ts = ent[0] if ent else -1
        val = ent[1] if ent else None
        over = []
        for q in reversed(st.qs):
            if q.ts < ts:
                break
            if type(q.key) is not type(key):
                continue
            b = {}
            vs = [v for d, v in q.vars]
            if not self.match(q.obj, obj, vs, b):
                continue
            if isinstance(key, tuple):
                if not self.match(q.key, key, vs, b):
                    continue
            elif q.key != key:
                continue
            if any(v not in b for v in vs if v in q.val.fv or v in cond_fv(q.g)):
                v = unk("several writers of " + str(key))
            else:
                v = subst(q.val, b)
            g = subst_cond(q.g, b)
            if q.obj.fv & frozenset(vs) == frozenset() and not isinstance(key, tuple):
                v = unk("store in loop")
            over.append((g, v))
            if g is T_:
                break
        if not over:
            return val
        res = val
        for g, v in reversed(over):
            if g is T_:
                res = v
            else:
                if res is None:
                    res = self.default(obj, key)
                res = ite(g, v, res)
        return res

    def default(self, obj, key):
        if key == "$items":
            return mkL([("spl", T_, obj)])
        if key == "$val":
            t = as_atom(obj)
            if t is not None and t.op == "alloc":
                ct = as_atom(t.args[0])
                if ct.args[0] == "fenics.Constant" and ct.args[1]:
                    return ct.args[1][0]
            return obj
        if isinstance(key, tuple):
            return elem_raw(obj, key[1])
        return atom(T("attr", obj, key))

    def heap_read(self, st, obj, key):
        v = self.heap_get(st, obj, key)
        if v is None:
            v = self.default(obj, key)
        return lrestrict(v, st.g) if not is_ground(v) else v

    def heap_write(self, st, obj, key, val):
        st.heap[(obj, key)] = (next(self.ts), val)

    def join(self, a, b):
        """merge two states"""
        if a.g is F_ or not feasible(a.g):
            return b
        if b.g is F_ or not feasible(b.g):
            return a
        g = c_or(a.g, b.g)
        sel = restrict(a.g, g)
        env = {}
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            if x is y:
                env[k] = x
            elif x is None or y is None:
                z = atom(T("undef", k))
                env[k] = ite(sel, x if x is not None else z, y if y is not None else z)
            else:
                env[k] = self.vjoin(sel, x, y)
        heap = {}
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is not None and y is not None and x[1] is y[1]:
                heap[k] = x if x[0] >= y[0] else y
                continue
            vx, vy = self.heap_get(a, *k), self.heap_get(b, *k)
            if vx is None or vy is None:
                t = as_atom(k[0])
                if t is not None and t.op == "new" and t.args[1] > 0 and k[1] == "$items" :
                    # allocated in one branch only
                    vx, vy = (vy, vy) if vx is None else (vx, vx)
                else:
                    vx = self.default(*k) if vx is None else vx
                    vy = self.default(*k) if vy is None else vy
            heap[k] = (next(self.ts), vx if vx is vy else (self.ljoin(sel, vx, vy) if k[1] == "$items" else self.vjoin(sel, vx, vy)))
        n = 0
        while n < len(a.qs) and n < len(b.qs) and a.qs[n] is b.qs[n]:
            n += 1
        qs = list(a.qs[:n])
        for q in a.qs[n:]:
            qs.append(QS(q.ts, q.vars, q.obj, q.key, q.val, c_and(sel, q.g)))
        for q in b.qs[n:]:
            qs.append(QS(q.ts, q.vars, q.obj, q.key, q.val, c_and(c_not(sel), q.g)))
        qs.sort(key=lambda q: q.ts)
        return State(env, heap, tuple(qs), g)

    def vjoin(self, sel, x, y):
        if is_L(x) and is_L(y):
            sx, sy = as_atom(x).args[0], as_atom(y).args[0]
            if len(sx) == len(sy) and all(p[0] == q[0] == "one" and p[1] is q[1] is T_ for p, q in zip(sx, sy)):
                return mkL([seg_one(self.vjoin(sel, p[2], q[2])) for p, q in zip(sx, sy)])
        return ite(sel, x, y)

    def ljoin(self, sel, x, y):
        if is_L(x) and is_L(y):
            sx, sy = as_atom(x).args[0], as_atom(y).args[0]
            n = 0
            while n < len(sx) and n < len(sy) and core._key(sx[n]) == core._key(sy[n]):
                n += 1
            out = list(sx[:n])
            def alike(p, q):
                return p[0] == q[0] and p[1] is q[1] and (p[0] == "one" or p[0] == "ent" and core._key(p[2]) == core._key(q[2]))
            if len(sx) == len(sy) and all(alike(p, q) for p, q in zip(sx[n:], sy[n:])):
                for p, q in zip(sx[n:], sy[n:]):
                    out.append(p[:-1] + (p[-1] if p[-1] is q[-1] else self.vjoin(sel, p[-1], q[-1]),))
                return mkL(out)
            for s in sx[n:]:
                out.append((s[0], c_and(sel, s[1])) + tuple(s[2:]))
            for s in sy[n:]:
                out.append((s[0], c_and(c_not(sel), s[1])) + tuple(s[2:]))
            return mkL(out)
        return ite(sel, x, y)

    def joins(self, sts):
        r = None
        for s in sts:
            if s is None or s.g is F_:
                continue
            r = s if r is None else self.join(r, s)
        return r

    # ---- lists --------------------------------------------------------------
    def items(self, st, L):
        """segments of the sequence value L (ground)"""
        t = as_atom(L)
        if t is not None:
            if t.op == "L":
                return t.args[0]
            if t.op == "new":
                v = self.heap_read(st, L, "$items")
                return self.segs_of(st, v)
            if t.op == "str":
                return tuple(seg_one(mkstr(c)) for c in t.args[0])
        v = self.heap_get(st, L, "$items")
        if v is not None:
            return self.segs_of(st, v)
        if S.SIZES is not None and t is not None:
            n = as_num(f_len(L))
            if n is not None and n == int(n) and 0 <= n <= 30:
                return tuple(seg_one(elem_raw(L, num(k))) for k in range(int(n)))
        return (("spl", T_, L),)

    def segs_of(self, st, v):
        if is_L(v):
            return as_atom(v).args[0]
        out = []
        for c, g in cases(v):
            if not feasible(c_and(c, st.g)):
                continue
            for s in self.items(st, g):
                out.append((s[0], c_and(c, s[1])) + tuple(s[2:]))
        return tuple(out)

    def seq(self, st, L):
        """segments of a possibly gated sequence; splices of opaque sequences
        are expanded into generated elements"""
        out = []
        for c, g in self.cases_in(L, st):
            for s in self.items(st, g):
                s = (s[0], c_and(c, s[1])) + tuple(s[2:])
                if s[0] == "spl":
                    out.extend(self.expand(st, s))
                else:
                    out.append(s)
        return out

    def expand(self, st, s):
        V = s[2]
        out = []
        for c, d in self.cases_in(V, st):
            t = as_atom(d)
            if t is not None and (t.op == "L" or t.op == "new" or self.heap_get(st, d, "$items") is not None):
                ii = self.items(st, d)
                if not (len(ii) == 1 and ii[0][0] == "spl" and ii[0][2] is d):
                    for q in ii:
                        q = (q[0], c_and(s[1], c, q[1])) + tuple(q[2:])
                        if q[0] == "spl":
                            out.extend(self.expand(st, q))
                        else:
                            out.append(q)
                    continue
            i = fresh_index()
            out.append(close_gen(c_and(s[1], c), d, i, (seg_one(self.elem_of(st, d, atom(i))),)))
        return out

    def elem_of(self, st, d, i):
        t = as_atom(d)
        if t is not None and t.op in ("rev",):
            return self.elem_of(st, t.args[0], i)
        return self.elem(st, d, i)

    def elem(self, st, cont, idx):
        res = []
        for c, d in self.cases_in(cont, st):
            for c2, i in self.cases_in(idx, st):
                cc = c_and(c, c2)
                if not feasible(c_and(cc, st.g)):
                    continue
                res.append((cc, self.elem_g(st, d, i)))
        return self.combine(res, st)

    def combine(self, res, st):
        if not res:
            return unk("no case")
        if len(res) == 1:
            return res[0][1]
        out = num(0)
        for c, v in res:
            out = add(out, scale(v, restrict(c, st.g)))
        return out

    def elem_g(self, st, d, i):
        v = self.heap_get(st, d, ("item", i))
        if v is not None:
            return lrestrict(v, st.g)
        t = as_atom(d)
        if t is not None and (t.op == "new" or t.op == "L" or self.heap_get(st, d, "$items") is not None):
            segs = self.items(st, d)
            if any(s[0] == "ent" for s in segs) or (t.op == "new" and t.args[0] == "dict"):
                return self.dict_get(st, segs, i)
            r = index_L(segs, i)
            if r is not None:
                return r
            t = as_atom(i)
            if t is not None and t.op == "prefix" and len(segs) == 1 and segs[0][0] == "gen" and segs[0][2] is t.args[0] \
                    and len(segs[0][4]) == 1 and segs[0][4][0][0] == "one" and as_num(t.args[3]) == 1:
                # counting the kept elements up to j gives the place of the j-th one
                j = fresh_index()
                q = open_segs(segs[0][4], segs[0][3], j)[0]
                if q[1] is subst_cond(t.args[2], {T("b", t.args[1]): atom(j)}):
                    return subst(q[2], {j: t.args[4]})
            if as_num(i) in (0, -1):
                r = self.end_of(st, segs, as_num(i) == 0)
                if r is not None:
                    return r
            return atom(T("elem", mkL(segs), i))
        return elem_raw(d, i)

    def end_of(self, st, segs, first):
        """the first (last) element of a sequence some elements of which may be left out"""
        res, rest = num(0), T_
        for s in segs if first else reversed(segs):
            if s[0] == "one":
                c, v = s[1], s[2]
            elif s[0] == "spl" and is_ground(s[2]):
                c = c_and(s[1], c_pos_len(s[2]))
                v = elem_raw(s[2], num(0)) if first else elem_raw(s[2], add(f_len(s[2]), num(-1)))
            elif s[0] == "gen" and len(s[4]) == 1 and s[4][0][0] == "one" and is_ground(s[2]):
                i = fresh_index()
                q = open_segs(s[4], s[3], i)[0]
                c = c_and(s[1], c_exists(s[2], i, q[1]))
                v = mk_pick("first" if first else "last", s[2], i, q[1], q[2])
            else:
                return None
            res = add(res, scale(v, c_and(rest, c)))
            rest = c_and(rest, c_not(c))
        if feasible(c_and(rest, st.g)):
            res = add(res, scale(atom(T("elem", mkL(()), num(0 if first else -1))), rest))
        return lrestrict(res, st.g)

    def dict_get(self, st, segs, key, default=None):
        """newest entry wins"""
        res = default
        if res is None:
            res = atom(T("nokey", key))
        for s in segs:
            if s[0] == "ent":
                c = c_and(s[1], c_eq(s[2], key))
                res = ite(c, s[3], res)
            elif s[0] == "gen":
                i = fresh_index()
                for q in open_segs(s[4], s[3], i):
                    if q[0] != "ent":
                        return unk("dict")
                    c = c_and(q[1], c_eq(q[2], key))
                    ex = c_and(s[1], c_exists(s[2], i, c))
                    res = ite(ex, mk_pick("last", s[2], i, c, q[3]), res)
            elif s[0] == "spl":
                c = c_and(s[1], self.c_in(st, key, s[2]))
                res = ite(c, elem_raw(s[2], key), res)
            else:
                return unk("dict")
        return res

    def dict_has(self, st, segs, key):
        r = F_
        for s in segs:
            if s[0] == "ent":
                r = c_or(r, c_and(s[1], c_eq(s[2], key)))
            elif s[0] == "gen":
                i = fresh_index()
                for q in open_segs(s[4], s[3], i):
                    if q[0] == "ent":
                        r = c_or(r, c_and(s[1], c_exists(s[2], i, c_and(q[1], c_eq(q[2], key)))))
            elif s[0] == "spl":
                r = c_or(r, c_and(s[1], self.c_in(st, key, s[2])))
        return r

    def new_list(self, st, segs, kind="list"):
        o = atom(T("new", kind, next(_uid), self.ctx_idx()))
        self.heap_write(st, o, "$items", mkL(segs))
        return o

    def ctx_idx(self):
        return tuple(atom(i) for d, i in self.ctx if i is not None)

    def cases_in(self, L, st):
        if is_ground(L):
            return [(T_, L)]
        out = []
        for c, g in cases(L):
            if feasible(c_and(c, st.g)):
                out.append((c, g))
        if len(out) == 1:
            return [(T_, out[0][1])]
        return out

    def seq_len(self, st, L):
        res = []
        for c, g in self.cases_in(L, st):
            t = as_atom(g)
            segs = self.items(st, g)
            u = self.unique_of(st, g)
            if u is not None:
                v = mkterm("nunique", u)
            elif t is not None and t.op == "new" and t.args[0] == "dict":
                v = num(0)
                if len(segs) == 1 and segs[0][0] == "spl":
                    v = f_len(segs[0][2])
                else:
                    v = self.segs_len(st, segs)
            else:
                v = self.segs_len(st, segs)
            res.append((c, v))
        return self.combine(res, st)

    def segs_len(self, st, segs):
        n = num(0)
        for s in segs:
            if s[0] in ("one", "ent"):
                n = add(n, scale(num(1), s[1]))
            elif s[0] == "spl":
                n = add(n, scale(f_len(s[2]), s[1]))
            else:
                i = fresh_index()
                inner = self.segs_len(st, open_segs(s[4], s[3], i))
                n = add(n, scale(mk_sum(s[2], i, inner), s[1]))
        return n

    def c_in(self, st, x, L):
        """guard: x in L"""
        r = F_
        for c, g in self.cases_in(L, st):
            r = c_or(r, c_and(c, self.c_in_g(st, x, g)))
        return r

    def c_in_g(self, st, x, g):
        t = as_atom(g)
        if t is not None and (t.op == "str" or is_strlike(g) or self.class_of(g, st)[0] == "str"):
            tx = as_atom(x)
            if t.op == "str" and tx is not None and tx.op == "str":
                return T_ if tx.args[0] in t.args[0] else F_
            return lift(lambda a: prop(T("substr", a, g)), x)
        if t is not None and t.op == "keys":
            g = t.args[0]
            t = as_atom(g)
        segs = self.items(st, g)
        if t is not None and t.op == "new" and t.args[0] == "dict":
            return self.dict_has(st, segs, x)
        return self.segs_in(st, segs, x)

    def segs_in(self, st, segs, x):
        r = F_
        for s in segs:
            if s[0] == "one":
                r = c_or(r, c_and(s[1], self.eq(st, s[2], x)))
            elif s[0] == "ent":
                r = c_or(r, c_and(s[1], self.eq(st, s[2], x)))
            elif s[0] == "spl":
                for c, d in self.cases_in(s[2], st):
                    t = as_atom(d)
                    if t is not None and t.op in ("sorted", "rev"):
                        u = as_atom(t.args[0])
                        if u is not None and u.op == "L":
                            r = c_or(r, c_and(s[1], c, self.segs_in(st, u.args[0], x)))
                            continue
                    i = fresh_index()
                    r = c_or(r, c_and(s[1], c, c_exists(d, i, self.eq(st, elem_raw(d, atom(i)), x))))
            else:
                i = fresh_index()
                r = c_or(r, c_and(s[1], c_exists(s[2], i, self.segs_in(st, open_segs(s[4], s[3], i), x))))
        return r

    def eq(self, st, a, b):
        def fn(x, y):
            if (is_L(x) or is_listobj(x)) and (is_L(y) or is_listobj(y)):
                rx, ry = self.reify(st, x), self.reify(st, y)
                if rx is ry:
                    return T_
                sx, sy = as_atom(rx), as_atom(ry)
                if sx is not None and sy is not None and sx.op == sy.op == "L":
                    sx, sy = sx.args[0], sy.args[0]
                    if all(s[0] == "one" and s[1] is T_ for s in sx + sy):
                        if len(sx) != len(sy):
                            return F_
                        r = T_
                        for p, q in zip(sx, sy):
                            r = c_and(r, fn(p[2], q[2]) if is_ground(p[2]) and is_ground(q[2]) else c_eq(p[2], q[2]))
                        return r
                return prop(T("eq", *sorted((rx, ry), key=lambda z: z.id)))
            for p, q in ((x, y), (y, x)):
                tp, tq = as_atom(p), as_atom(q)
                if tp is not None and tp.op == "type":
                    if tq is not None and tq.op == "class":
                        return self.type_is(tp.args[0], tq.args[0], st)
                if (is_L(p) or is_listobj(p)) and not (is_L(q) or is_listobj(q)):
                    rp = self.reify(st, p)
                    if const_of(q) is not None:
                        return F_
                    return prop(T("eq", *sorted((rp, q), key=lambda z: z.id)))
            return core.c_eq_g(x, y)
        return lift(fn, a, b)

    def type_is(self, x, cls, st):
        c = self.isinst_g(x, cls, st)
        if cls not in self.prog.classes:
            return c  # type(x) is list: festim's own list classes do not occur as parameters
        for s in self.prog.subclasses(cls):
            if s != cls:
                c = c_and(c, c_not(self.isinst_g(x, s, st)))
        return c

    # ---- types ----------------------------------------------------------------
    def class_of(self, L, st=None):
        """(class name or None, exact)"""
        q = as_num(L)
        if q is not None:
            return ("float", False) if q.denominator != 1 else ("number", False)
        t = as_atom(L)
        if (t is None or t.op in ("exp", "abs")) and mentions_xyzt(L):
            return ("sp.Expr", False)
        if t is None:
            return ("arith", False)
        if t in self.types:
            return self.types[t]
        if t.op == "new":
            return (t.args[0], True)
        if t.op == "alloc":
            return (as_atom(t.args[0]).args[0], True)
        if t.op in ("str", "cat", "strof"):
            return ("str", True)
        if t.op == "L":
            return ("tuple", True)
        if t.op in ("true", "false"):
            return ("bool", True)
        if t.op == "none":
            return ("NoneType", True)
        if t.op in ("range",):
            return ("range", True)
        if t.op == "attr":
            ow = self.class_of(t.args[0], st)[0]
            if ow in self.prog.classes:
                for k in self.prog.mro(self.prog.classes[ow]):
                    n = k if isinstance(k, str) else k.name
                    if (n, t.args[1]) in self.attr_types:
                        return _ty(self.attr_types[(n, t.args[1])])
            if (None, t.args[1]) in self.attr_types:
                return _ty(self.attr_types[(None, t.args[1])])
            return (None, False)
        if t.op == "out":
            return _ty(self.attr_types.get((None, t.args[2]), (None, False)))
        if t.op == "elem":
            ct = self.class_of(t.args[0], st)[0]
            if ct in self.elem_types:
                return _ty(self.elem_types[ct])
            tt = as_atom(t.args[0])
            if tt is not None and tt.op == "attr" and ("attr", tt.args[1]) in self.elem_types:
                return _ty(self.elem_types[("attr", tt.args[1])])
            if tt is not None and tt.op == "sym" and ("sym", tt.args[0]) in self.elem_types:
                return _ty(self.elem_types[("sym", tt.args[0])])
            if tt is not None and tt.op == "sorted":
                return self.class_of(atom(T("elem", tt.args[0], t.args[1])), st)
            return (None, False)
        if t.op == "call":
            if t.args[0] in EXT_CLASSES:
                return (t.args[0], True)
            if t.args[0] in ("fenics.project", "fenics.interpolate"):
                return ("fenics.Function", True)
            if t.args[0] == "ccode":
                return ("str", False)
        return (None, False)

    def narrowed(self, L, st):
        c, exact = self.class_of(L, st)
        if exact or st is None or st.g is T_:
            return c, exact
        best = c
        for v in support(st.g):
            p = PROPS[v]
            if p.op == "isinst" and p.args[0] is L and p.args[1] in self.prog.classes:
                if not feasible(c_and(st.g, c_not(mknode(v, T_, F_)))):
                    if best is None or best not in self.prog.classes or self.prog.is_subclass(p.args[1], best):
                        best = p.args[1]
        return best, False

    def possible(self, L, cls, st):
        """concrete classes the object may have"""
        out = []
        for s in self.prog.subclasses(cls):
            if st is not None:
                c = T_
                g = st.g
                for v in support(g):
                    p = PROPS[v]
                    if p.op == "isinst" and p.args[0] is L:
                        lit = mknode(v, T_, F_)
                        if not self.prog.is_subclass(s, p.args[1]):
                            # exact class s is not an instance of p.args[1]
                            lit = c_not(lit)
                        c = c_and(c, lit)
                if c_and(g, c) is F_:
                    continue
            out.append(s)
        return out

    def isinst_g(self, x, cls, st):
        if cls == "number":
            return c_or(self.isinst_g(x, "int", st), self.isinst_g(x, "float", st))
        q = as_num(x)
        if q is not None:
            if cls == "int":
                return T_ if q.denominator == 1 else F_
            if cls == "float":
                return F_ if q.denominator == 1 else T_
            return F_
        c, exact = self.class_of(x, st)
        t = as_atom(x)
        if c == "arith":
            return F_ if cls in ("str", "list", "dict") or cls in self.prog.classes else prop(T("isinst", x, cls))
        if c == "NoneType":
            return F_
        if c == "bool":
            return T_ if cls in ("bool", "int") else F_
        if t is not None and t.op in ("class", "func", "ext", "bound", "pyobj"):
            return T_ if cls == "type" and t.op == "class" else F_
        if c is not None:
            if c == cls or self.h_subclass(c, cls):
                return T_
            if exact:
                return F_
            if not self.h_common(c, cls):
                return F_
        return prop(T("isinst", x, cls))

    def c_isinst(self, x, clsv, st):
        def cls_names(v):
            t = as_atom(v)
            if t is not None and t.op == "class":
                return [t.args[0]]
            if t is not None and t.op == "ext":
                return [t.args[0]]
            if t is not None and (t.op in ("L", "new")):
                out = []
                for s in self.items(st, v):
                    if s[0] == "one":
                        out += cls_names(s[2])
                return out
            if t is not None and t.op == "type":
                o = self.class_of(t.args[0], st)[0]
                return [o] if o else ["?"]
            return ["?"]
        r = F_
        for n in cls_names(clsv):
            if n == "?":
                r = c_or(r, prop(T("truthy", unk("isinstance"))))
            else:
                r = c_or(r, lift(lambda g: self.isinst_g(g, n, st), x))
        return r

    def truth(self, L, st):
        def fn(g):
            t = as_atom(g)
            if t is not None:
                c, exact = self.class_of(g, st)
                seqlike = t.op in ("L", "sorted", "rev") or c in ("list", "dict", "set", "tuple")
                if not seqlike and c in self.prog.classes and any(
                        b in ("list", "dict") for b in self.prog.mro(self.prog.classes[c])):
                    seqlike = True
                if seqlike:
                    return lift(core.c_pos, self.segs_len(st, self.items(st, g)))
                if t.op == "new" or (c in self.prog.classes and t.op in ("sym", "attr", "elem")
                                     and (exact or t in self.types)):
                    return T_
                if t.op in ("bound", "func", "ext", "class", "clos", "alloc"):
                    return T_
                if t.op == "opMod":
                    return c_not(c_eq(g, num(0)))
            return core.c_truth_g(g)
        return lift(fn, L)

    # ---- events -----------------------------------------------------------------
    def event(self, kind, name, args, st, node, result=None):
        f = self.frames[-1].fi if self.frames else None
        self.events.append(Event(kind, name, tuple(args), st.g, tuple(self.ctx), getattr(node, "lineno", 0),
                                 f, len(self.events), result))
        if kind in ("call", "mcall", "newton") and self.probes:
            for title, fn in self.probes.get(name, {}).items():
                v = fn(self, st, args)
                if v is not None:
                    self.events.append(Event("probe", title, (v,), st.g, tuple(self.ctx), getattr(node, "lineno", 0), f, len(self.events)))

    def do_raise(self, st, exc, node, msg=None):
        f = self.frames[-1].fi if self.frames else None
        if st.g is not F_ and feasible(st.g):
            self.raises.append(Raised(st.g, exc, getattr(node, "lineno", 0), f, msg))
        st.g = F_

    def where(self, node):
        f = self.frames[-1].fi if self.frames else None
        return "%s:%d" % (f.module.rel if f else "?", getattr(node, "lineno", 0))

    # ---- calling ------------------------------------------------------------------
    def call_func(self, fi, args, kws, st, node, selfv=None, closure=None, home=None):
        """inline a festim function; args: list of Lin or ('*', Lin); kws: list of (name|None, Lin)"""
        if self.depth >= self.max_depth or sum(1 for f in self.frames if f.fi and f.fi.node is fi.node) >= 3:
            return unk("recursion " + fi.qual)
        if fi.qual in self.stop or fi.name in self.stop:
            return self.stopped(fi, args, kws, st, node, selfv)
        self.analysed.add((fi.module.rel, fi.qual))
        env = self.bind(fi, args, kws, st, node, selfv)
        if env is None:
            return unk("arguments of " + fi.qual)
        shared = ()
        if closure is not None:
            e2 = dict(closure)
            if home is self.frames[-1]:     # names of the enclosing function have their present value
                e2.update(st.env)
                shared = tuple(x for q in ast.walk(fi.node) if isinstance(q, ast.Nonlocal) for x in q.names)
            else:
                late = rebound(home, fi.node)
                if late:
                    raise Unsupported("%s, set after the function that uses it at %s" % (sorted(late)[0], self.where(fi.node)))
            for x in local_names(fi.node) - set(shared):
                e2.pop(x, None)
            e2.update(env)
            env = e2
        gen = is_generator(fi.node)
        self.event("enter", fi.qual, ([selfv] if selfv is not None else []) + [a for a in args if isinstance(a, Lin)], st, node)
        fr = Frame(fi, env)
        self.frames.append(fr)
        self.depth += 1
        saved = st.env
        fr.shared = shared
        s = State(env, st.heap, st.qs, st.g)
        if gen:
            s.env["$yield"] = made = self.new_list(s, [])
            self.heap_write(s, made, "$pos", num(0))
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.ev(fi.node.body, s)
                fr.rets.append((s.clone(), v))
                s.g = F_
            else:
                self.block(fi.node.body, s)
        finally:
            self.frames.pop()
            self.depth -= 1
        if s.g is not F_ and feasible(s.g):
            fr.rets.append((s, NONE))
        rv = None
        out = None
        for rs, v in fr.rets:
            if rs.g is F_:
                continue
            rs.env = {"$ret": made if gen else v, **{x: rs.env[x] for x in shared if x in rs.env}}
            out = rs if out is None else self.join(out, rs)
        if out is None:
            st.g = F_
            return unk("no return")
        rv = out.env["$ret"]
        if shared:
            saved = {**saved, **{x: out.env[x] for x in shared if x in out.env}}
        st.heap, st.qs, st.g, st.env = out.heap, out.qs, out.g, saved
        self.event("leave", fi.qual, [], st, node)
        return rv

    def stopped(self, fi, args, kws, st, node, selfv):
        """a call the analysis does not enter: an event, an opaque result, and the
        attributes the callee writes on its receiver become opaque results too"""
        env = self.bind(fi, args, kws, st, node, selfv)
        if env is None:
            return unk("arguments of " + fi.qual)
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        vals = [self.reify(st, env[n], shallow=True) for n in names]
        key = (fi.name,) + tuple(vals)
        self.event("call", fi.name, vals, st, node)
        self.event("enter", fi.qual, vals, st, node)
        if selfv is not None:
            for at in sorted(self.written_attrs(fi)):
                self.heap_write(st, selfv, at, mkterm("out", key[0], key[1:], at))
        eff = self.effects.get(fi.qual) or self.effects.get(fi.name)
        if eff is not None:
            eff(self, st, env)
        if not any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(fi.node)):
            return NONE
        return mkterm("out", key[0], key[1:], "return")

    def bind(self, fi, args, kws, st, node, selfv):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        if selfv is not None and fi.kind != "staticmethod":
            pos = [selfv] + pos
        flat = []
        for p in pos:
            if isinstance(p, tuple):
                segs = self.seq_plain(st, p[1])
                if segs is None:
                    flat.append(("*", p[1]))
                else:
                    flat.extend(segs)
            else:
                flat.append(p)
        extra = []
        for i, p in enumerate(flat):
            if isinstance(p, tuple):
                if a.vararg:
                    extra.append(("spl", T_, p[1]))
                    continue
                return None
            if i < len(names):
                env[names[i]] = p
            else:
                extra.append(seg_one(p))
        if a.vararg:
            env[a.vararg.arg] = mkL(extra)
        elif extra:
            self.do_raise(st, "TypeError", node)
            return None
        kwextra = []
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kws:
            if k is None:
                done = False
                if is_ground(v):
                    segs = self.items(st, v)
                    if all(s[0] == "ent" and s[1] is T_ and as_atom(s[2]) is not None and as_atom(s[2]).op == "str" for s in segs):
                        for s in segs:
                            n = as_atom(s[2]).args[0]
                            if n in names or n in konly:
                                env[n] = s[3]
                            else:
                                kwextra.append(("ent", T_, s[2], s[3]))
                        done = True
                    elif a.kwarg:
                        kwextra.extend(segs)
                        done = True
                if not done:
                    if a.kwarg:
                        kwextra.append(("spl", T_, v))
                    else:
                        return None
            elif k in names or k in konly:
                env[k] = v
            else:
                kwextra.append(("ent", T_, mkstr(k), v))
        if a.kwarg:
            env[a.kwarg.arg] = self.new_list(st, kwextra, "dict")
        elif any(s[0] != "spl" for s in kwextra):
            self.do_raise(st, "TypeError", node)
            return None
        nd = len(a.defaults)
        fr = Frame(fi, {})
        self.frames.append(fr)
        try:
            for n, d in zip(names[len(names) - nd:], a.defaults):
                if n not in env:
                    env[n] = self.ev(d, State({}, st.heap, st.qs, st.g))
            for n, d in zip(konly, a.kw_defaults):
                if n not in env and d is not None:
                    env[n] = self.ev(d, State({}, st.heap, st.qs, st.g))
        finally:
            self.frames.pop()
        for n in names + konly:
            if n not in env:
                if kws and any(k is None for k, v in kws):
                    return None
                self.do_raise(st, "TypeError", node)
                return None
        return env

    def seq_plain(self, st, L):
        """list of values when L is a plain literal sequence"""
        if not is_ground(L):
            return None
        segs = self.items(st, L)
        if all(s[0] == "one" and s[1] is T_ for s in segs):
            return [s[2] for s in segs]
        return None

    def per_case(self, L, st, fn):
        """run fn(ground, state) for every case of L and merge"""
        cs = self.cases_in(L, st)
        if len(cs) == 1:
            return fn(cs[0][1], st)
        out = None
        env0 = st.env
        for c, g in cs:
            s = st.clone()
            s.g = c_and(st.g, c)
            if s.g is F_:
                continue
            v = fn(g, s)
            s.env = dict(s.env)
            s.env["$v"] = v
            if s.g is F_:
                continue
            out = s if out is None else self.join(out, s)
        if out is None:
            st.g = F_
            return unk("dead")
        v = out.env.pop("$v")
        st.become(out)
        st.env.pop("$v", None)
        return v

    def call_value(self, fv, args, kws, st, node):
        return self.per_case(fv, st, lambda g, s: self.call_g(g, args, kws, s, node))

    def call_g(self, f, args, kws, st, node):
        t = as_atom(f)
        if t is None:
            return mkterm("app", f, self.margs(args), self.mkws(kws))
        if t.op == "func":
            fi = self.objs[t]
            return self.call_func(fi, args, kws, st, node)
        if t.op == "clos":
            fi, env, home = self.objs[t]
            return self.call_func(fi, args, kws, st, node, closure=env, home=home)
        if t.op == "bound":
            return self.call_method_g(t.args[0], t.args[1], args, kws, st, node)
        if t.op == "class":
            return self.instantiate(t.args[0], args, kws, st, node)
        if t.op == "ext":
            return self.call_ext(t.args[0], args, kws, st, node)
        if t.op == "super":
            return unk("super")
        if t.op == "type":
            c = self.class_of(t.args[0], st)[0]
            if c in self.prog.classes:
                return self.instantiate(c, args, kws, st, node)
        if t.op in ("call", "alloc") and str(t.args[0]).split(".")[-1] in ("itemgetter", "attrgetter") and len(args) == 1 and not kws \
                and isinstance(t.args[1], tuple) and len(t.args[1]) == 1 and isinstance(args[0], Lin):
            k = t.args[1][0]
            if str(t.args[0]).endswith("itemgetter"):
                return self.getitem(args[0], k, st, node)
            if as_atom(k) is not None and as_atom(k).op == "str" and "." not in as_atom(k).args[0]:
                return self.get_attr(args[0], as_atom(k).args[0], st, node)
        # measures
        c = self.class_of(f, st)[0]
        if t.op == "meas" or c == "fenics.Measure" or (t.op == "call" and t.args[0] == "fenics.Measure"):
            if len(args) == 1 and not kws and isinstance(args[0], Lin):
                return self.measure(f, args[0], st)
            if len(args) == 0 and len(kws) == 1 and kws[0][0] == "subdomain_id":
                return self.measure(f, kws[0][1], st)
        if c in self.prog.classes and self.prog.find_method(self.prog.classes[c], "__call__"):
            return self.call_method_g(f, "__call__", args, kws, st, node)
        self.event("app", "()", [f] + [a for a in args if isinstance(a, Lin)], st, node)
        return mkterm("app", f, self.margs(args), self.mkws(kws))

    def measure(self, f, idv, st):
        t = as_atom(f)
        base = t.args[0] if t.op == "meas" else f
        res = []
        for c, g in self.cases_in(idv, st):
            if is_L(g):
                v = num(0)
                for s in self.items(st, g):
                    v = add(v, scale(self.meas_seg(base, s, st), s[1]))
                res.append((c, v))
            elif is_listobj(g):
                res.append((c, atom(T("meas", base, self.reify(st, g)))))
            else:
                res.append((c, atom(T("meas", base, g))))
        return self.combine(res, st)

    def meas_seg(self, base, s, st):
        if s[0] == "one":
            return mkterm("meas", base, s[2])
        if s[0] == "spl":
            i = fresh_index()
            return mk_sum(s[2], i, mkterm("meas", base, elem_raw(s[2], atom(i))))
        i = fresh_index()
        v = num(0)
        for q in open_segs(s[4], s[3], i):
            v = add(v, scale(self.meas_seg(base, q, st), q[1]))
        return mk_sum(s[2], i, v)

    def margs(self, args):
        return tuple(("*", a[1]) if isinstance(a, tuple) else a for a in args)

    def mkws(self, kws):
        return tuple(sorted(((k if k is not None else "**", v) for k, v in kws), key=lambda x: x[0]))

    def instantiate(self, cls, args, kws, st, node):
        if cls in EXC:
            return mkterm("exc", cls)
        if cls not in self.prog.classes:
            return self.call_builtin_class(cls, args, kws, st, node)
        ci = self.prog.classes[cls]
        o = atom(T("new", cls, next(_uid), self.ctx_idx()))
        self.event("new", cls, [o], st, node)
        base_list = any(b in ("list",) for b in self.prog.mro(ci))
        if base_list:
            self.heap_write(st, o, "$items", mkL([]))
        self.heap_write(st, o, "$cls", mkstr(cls))
        init = self.prog.find_method(ci, "__init__")
        if init:
            self.call_func(init, args, kws, st, node, selfv=o)
        return o

    def call_builtin_class(self, cls, args, kws, st, node):
        return self.call_ext(cls, args, kws, st, node)

    # -- methods
    def call_method(self, obj, name, args, kws, st, node):
        return self.per_case(obj, st, lambda g, s: self.call_method_g(g, name, args, kws, s, node))

    def call_method_g(self, obj, name, args, kws, st, node):
        t = as_atom(obj)
        if t is not None and t.op == "super":
            return self.call_super(t, name, args, kws, st, node)
        if t is not None and t.op == "module":
            v = self.module_attr(t.args[0], name, st, node)
            return self.call_value(v, args, kws, st, node)
        if t is not None and t.op == "ext":
            return self.call_ext(t.args[0] + "." + name, args, kws, st, node)
        if t is not None and t.op == "class":
            if t.args[0] in self.prog.classes:
                fi = self.prog.find_method(self.prog.classes[t.args[0]], name)
                if fi:
                    if fi.kind == "classmethod":
                        return self.call_func(fi, args, kws, st, node, selfv=obj)
                    if fi.kind == "staticmethod":
                        return self.call_func(fi, args, kws, st, node)
                    if args and isinstance(args[0], Lin):
                        return self.call_func(fi, args[1:], kws, st, node, selfv=args[0])
            return self.call_ext(t.args[0] + "." + name, args, kws, st, node)
        # an instance attribute holding a callable
        hv = self.heap_get(st, obj, name)
        if hv is not None and not isinstance(name, tuple):
            return self.call_value(hv, args, kws, st, node)
        cls, exact = self.narrowed(obj, st)
        if cls in self.prog.classes:
            cands = [cls] if exact else self.possible(obj, cls, st)
            targets = []
            miss = False
            for s in cands:
                fi = self.prog.find_method(self.prog.classes[s], name)
                if fi is None:
                    miss = True
                elif all(fi is not x for x in targets):
                    targets.append(fi)
            if len(targets) == 1 and not (miss and not targets):
                return self.call_func(targets[0], args, kws, st, node, selfv=obj)
            if len(targets) > 1:
                return self.vcall(obj, name, targets, cands, args, kws, st, node)
            g = self.prog.find_prop(self.prog.classes[cls], name)
            if g:
                v = self.get_attr_g(obj, name, st, node)
                return self.call_value(v, args, kws, st, node)
            if any(b in ("list", "dict") for b in self.prog.mro(self.prog.classes[cls])):
                r = self.list_method(obj, name, args, kws, st, node)
                if r is not None:
                    return r
            if not any(isinstance(b, str) for b in self.prog.mro(self.prog.classes[cls])):
                return self.call_value(self.get_attr_g(obj, name, st, node), args, kws, st, node)
        if t is not None and (t.op == "L" or is_listobj(obj) or name in LISTM and not (name == "copy" and (args or kws)) or cls in ("list", "dict")
                              or name in ("items", "values", "keys", "get", "update", "setdefault", "isdisjoint",
                                          "union", "intersection", "add", "popitem")):
            r = self.list_method(obj, name, args, kws, st, node)
            if r is not None:
                return r
        if t is not None and is_strlike(obj) or name in ("format",):
            r = self.str_method(obj, name, args, kws, st, node)
            if r is not None:
                return r
        if cls in self.prog.classes:
            ci = self.prog.classes[cls]
            if name in ci.consts:
                v = self.get_attr_g(obj, name, st, node)
                return self.call_value(v, args, kws, st, node)
        c = self.class_of(atom(T("attr", obj, name)), st)[0]
        if c == "fenics.Measure":
            return self.call_g(atom(T("attr", obj, name)), args, kws, st, node)
        if name in ("argmin", "argmax", "argsort"):
            return mkterm("call", "np." + name, self.margs([obj] + list(args)), self.mkws(kws))
        if name == "function_space" and not args and not kws and t is not None and t.op == "alloc":
            w = as_atom(t.args[0])
            if w is not None and w.op == "call" and w.args[0] in SPACED and w.args[1] and isinstance(w.args[1][0], Lin):
                return w.args[1][0]
        if name == "copy" and (args or kws) and t is not None and t.op != "L" and not is_listobj(obj):
            # a copy of a fenics Function
            o = self.call_ext("fenics.Function", [self.call_method_g(obj, "function_space", [], [], st, node)], [], st, node)
            self.heap_write(st, o, "$val", self.val_of(obj, st))
            return o
        if name == "assign" and len(args) == 1 and not kws:
            self.event("mcall", "assign", [obj, args[0]], st, node)
            self.heap_write(st, obj, "$val", self.val_of(args[0], st))
            return NONE
        if name == "interpolate" and len(args) == 1 and not kws and isinstance(args[0], Lin) and cls not in self.prog.classes:
            # u.interpolate(v) is u.assign(interpolate(v, space of u))
            V = self.call_method_g(obj, "function_space", [], [], st, node)
            return self.call_method_g(obj, "assign", [self.call_ext("fenics.interpolate", [args[0], V], [], st, node)], [], st, node)
        if name in ("set_local", "set_array") and len(args) == 1 and not kws and inside(obj) is not None and inside(args[0], True) is not None \
                and not any(e.kind == "setitem" and e.args[0] is args[0] for e in self.events):
            return self.call_method_g(inside(obj), "assign", [inside(args[0], True)], [], st, node)
        if name in IN_PLACE and (inside(obj) is not None or name in IN_PLACE_SELF) or name == "apply" and any(
                isinstance(x, Lin) and inside(x) is not None for x in args):
            self.tamper("%s()" % name, inside(obj) if inside(obj) is not None else obj, st, node)
        if name == "read_checkpoint" and args and isinstance(args[0], Lin):
            self.event("mcall", name, [obj] + [a for a in args if isinstance(a, Lin)] + [b for _, b in kws], st, node)
            self.heap_write(st, args[0], "$val", mkterm("mcall", obj, name, self.margs(args[1:]), self.mkws(kws)))
            return NONE
        if name == "solve" and len(args) == 2 and isinstance(args[1], Lin):
            w = as_atom(args[1])
            if w is not None and w.op == "mcall" and w.args[1] == "vector":
                return self.newton(obj, args[0], w.args[0], st, node)
        if name == "solve" and not args and not kws and t is not None and t.op == "lvs":
            w = as_atom(self.reify(st, t.args[0], shallow=True))
            if w is not None and w.op == "lvp":
                return self.linear_solve(w.args[0], w.args[1], w.args[2], st, node)
        if self.mesh_dim is not None and not args and not kws and name in ("dim", "geometric_dimension", "topological_dimension"):
            return num(self.mesh_dim)
        if name in ("startswith", "endswith") and len(args) == 1 and not kws and isinstance(args[0], Lin) and const_of(args[0]) is None \
                and (as_atom(args[0]) is None or as_atom(args[0]).op in ("attr", "arg", "elem", "var")):
            name = "begins_with" if name == "startswith" else "ends_with"  # a test of its own, not a spelling of another
        v = mkterm("mcall", obj, name, self.margs(args), self.mkws(kws))
        if name in ("x", "y", "z") and not args and not kws:
            w = as_atom(obj)
            if w is not None and w.op == "mcall" and w.args[1] == "midpoint":
                v = self.getitem(obj, num("xyz".index(name)), st, node)
        self.event("mcall", name, [obj] + [a for a in args if isinstance(a, Lin)] + [b for _, b in kws], st, node, v)
        return v

    def linear_solve(self, F, u, bcs, st, node):
        """u gets the solution of the linear equation F == 0"""
        from .interp2 import lead, scale
        F = equation(F)
        bcs = self.reify(st, bcs)
        k = lead(F)
        if k is not None:
            F = scale(F, leaf(1 / k))
        self.event("call", "fenics.solve", [F, u, bcs], st, node)
        for c, g in self.cases_in(u, st):
            v = atom(T("solved", F, self.reify(st, bcs)))
            self.heap_write(st, g, "$val", v if c is T_ else ite(c, v, self.val_of(g, st)))
        return NONE

    def from_file(self, g):
        """its values were read"""
        t = as_atom(g)
        w = as_atom(t.args[0]) if t is not None and t.op == "alloc" and isinstance(t.args[0], Lin) else None
        made = w.args[1] if w is not None and w.op == "call" else ()
        return any(e.kind == "mcall" and e.name.startswith("read") and any(x is g or x in made for x in e.args[1:]) for e in self.events)

    def filled(self, what):
        """something has been read or written into it"""
        return any(e.kind == "setitem" and e.args[0] is what or e.kind == "mcall" and e.name.startswith("read") and what in e.args[1:]
                   for e in self.events)

    def tamper(self, how, what, st, node):
        """the values of a function, of markers or of a mesh are overwritten in place"""
        if how == "set_all()" and as_atom(what) is not None and as_atom(what).op == "alloc" and not self.filled(what):
            return  # the first value of new markers
        self.event("tamper", how, [what], st, node)

    def newton(self, solver, problem, u, st, node):
        """one non-linear solve: u gets a new value; how many iterations and whether
        they converged is unknown"""
        from .interp2 import erase
        key = (erase(self.reify(st, problem)), self.val_of(u, st)) + tuple(f(self, st) for f in self.watch)
        self.event("newton", "newton", [solver, key[0], u] + list(key[1:]), st, node)
        if any(i is None for d, i in self.ctx):
            key += (mkterm("again"),)
        self.heap_write(st, u, "$val", mkterm("newton", *key))
        return mkL([("one", T_, mkterm("niter", *key)), ("one", T_, mkterm("converged", *key))])

    def val_of(self, x, st):
        def fn(g):
            v = self.heap_get(st, g, "$val")
            if v is not None:
                return v
            return self.default(g, "$val")
        return fmap(fn, x)

    def override_guard(self, obj, fi, name, cands, st, finder):
        """guard: the dynamic class of obj resolves name to fi"""
        own = [s for s in cands if finder(self.prog.classes[s]) is fi]
        other = [s for s in cands if finder(self.prog.classes[s]) is not fi]
        tops = [s for s in own if not any(o != s and self.prog.is_subclass(s, o) for o in own)]
        g = F_
        for s in tops:
            g = c_or(g, self.isinst_g(obj, s, st))
        for s in other:
            if any(self.prog.is_subclass(s, o) for o in tops):
                if not any(o != s and self.prog.is_subclass(s, o) for o in other
                           if any(self.prog.is_subclass(o, q) for q in tops)):
                    back = F_
                    # classes below s that resolve to fi again
                    for o in own:
                        if o != s and self.prog.is_subclass(o, s):
                            back = c_or(back, self.isinst_g(obj, o, st))
                    g = c_and(g, c_not(c_and(self.isinst_g(obj, s, st), c_not(back))))
        return g

    def vexpand(self, obj, name, targets, cands, st, finder, call):
        """a virtual call becomes a gated value over the possible targets"""
        out = None
        rest = st.g
        for fi in targets:
            c = self.override_guard(obj, fi, name, cands, st, finder)
            rest = c_and(rest, c_not(c))
            s = st.clone()
            s.g = c_and(st.g, c)
            if s.g is F_ or not feasible(s.g):
                continue
            v = call(fi, s)
            if s.g is F_:
                continue
            s.env = dict(s.env)
            s.env["$v"] = v
            out = s if out is None else self.join(out, s)
        if rest is not F_ and feasible(rest):
            s = st.clone()
            s.g = rest
            self.do_raise(s, "AttributeError", None)
        if out is None:
            st.g = F_
            return unk("dead")
        v = out.env["$v"]
        out.env = {k: x for k, x in out.env.items() if k != "$v"}
        st.become(out)
        return v

    def vcall(self, obj, name, targets, cands, args, kws, st, node):
        if name not in self.vopaque and len(targets) <= self.vmax:
            finder = lambda c: self.prog.find_method(c, name)
            return self.vexpand(obj, name, targets, cands, st, finder,
                                lambda fi, s: self.call_func(fi, args, kws, s, node, selfv=obj))
        v = mkterm("vcall", obj, name, self.margs(args), self.mkws(kws))
        self.event("vcall", name, [obj] + [a for a in args if isinstance(a, Lin)] + [b for _, b in kws], st, node, v)
        attrs = set()
        for fi in targets:
            attrs |= self.written_attrs(fi)
            self.analysed.add((fi.module.rel, fi.qual))
        for a in sorted(attrs):
            self.heap_write(st, obj, a, mkterm("after", obj, name, self.margs(args), self.mkws(kws), a))
        return v

    def written_attrs(self, fi, seen=None):
        seen = seen if seen is not None else set()
        if fi in seen:
            return set()
        seen.add(fi)
        out = set()
        if not fi.node.args.args:
            return out
        me = fi.node.args.args[0].arg

        def root(e):
            return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me
        for n in ast.walk(fi.node):
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            for t in tg:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if root(x):
                        out.add(x.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                f = n.func
                if root(f.value) and f.attr in LISTM:
                    out.add(f.value.attr)
                if isinstance(f.value, ast.Name) and f.value.id == me and fi.cls:
                    for s in self.prog.subclasses(fi.cls.name):
                        m = self.prog.find_method(self.prog.classes[s], f.attr)
                        if m:
                            out |= self.written_attrs(m, seen)
                if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and fi.cls:
                    m = self.prog.find_method(fi.cls, f.attr, after=fi.cls)
                    if m:
                        out |= self.written_attrs(m, seen)
        return out

    def call_super(self, t, name, args, kws, st, node):
        cls, obj = t.args[0], t.args[1]
        start = self.class_of(obj, st)[0]
        own = self.prog.classes[cls]
        base = self.prog.classes.get(start, own)
        if own not in self.prog.mro(base):
            base = own
        fi = self.prog.find_method(base, name, after=own)
        if fi:
            return self.call_func(fi, args, kws, st, node, selfv=obj)
        ext = [b for b in self.prog.mro(own) if isinstance(b, str)]
        if "list" in ext:
            if name == "__init__":
                if args:
                    segs = []
                    for c, g in self.cases_in(args[0], st):
                        for s in self.items(st, g):
                            segs.append((s[0], c_and(c, s[1])) + tuple(s[2:]))
                    self.heap_write(st, obj, "$items", mkL(segs))
                    self.event("list", "__init__", [obj, mkL(segs)], st, node)
                else:
                    self.heap_write(st, obj, "$items", mkL([]))
                return NONE
            if name == "__setitem__":
                self.event("list", "__setitem__", [obj] + args, st, node)
                segs = list(self.items(st, obj))
                q = as_num(args[0])
                if q is not None and 0 <= q < len(segs) and all(x[0] == "one" and x[1] is T_ for x in segs[:int(q) + 1]):
                    segs[int(q)] = seg_one(args[1])
                    self.heap_write(st, obj, "$items", mkL(segs))
                else:
                    self.heap_write(st, obj, ("item", args[0]), args[1])
                return NONE
            r = self.list_method(obj, name, args, kws, st, node)
            if r is not None:
                return r
        v = mkterm("mcall", obj, "super." + name, self.margs(args), self.mkws(kws))
        self.event("mcall", "super." + name, [obj] + [a for a in args if isinstance(a, Lin)], st, node, v)
        return v if name != "__init__" else NONE

    def list_method(self, obj, name, args, kws, st, node):
        a = [x for x in args if isinstance(x, Lin)]
        if len(a) != len(args):
            return None
        t = as_atom(obj)
        isdict = t is not None and t.op == "new" and t.args[0] == "dict"
        cls = self.class_of(obj, st)[0]
        isdict = isdict or cls == "dict"
        cur = self.items(st, obj)
        if name == "append" and len(a) == 1:
            self.event("list", "append", [obj, a[0]], st, node)
            self.heap_write(st, obj, "$items", mkL(tuple(cur) + (seg_one(a[0]),)))
            return NONE
        if name == "add" and len(a) == 1 and t is not None and t.op == "new" and t.args[0] == "set":
            self.event("list", "append", [obj, a[0]], st, node)
            c = c_not(self.segs_in(st, cur, a[0]))
            self.heap_write(st, obj, "$items", mkL(tuple(cur) + (("one", c, a[0]),)))
            return NONE
        if name == "extend" and len(a) == 1:
            self.event("list", "extend", [obj, a[0]], st, node)
            self.heap_write(st, obj, "$items", mkL(tuple(cur) + tuple(self.splice(st, a[0]))))
            return NONE
        if name == "insert" and len(a) == 2:
            self.event("list", "insert", [obj] + a, st, node)
            if as_num(a[0]) == 0:
                self.heap_write(st, obj, "$items", mkL((seg_one(a[1]),) + tuple(cur)))
            else:
                self.heap_write(st, obj, "$items", mkL(tuple(cur) + (("one", T_, mkterm("inserted", a[0], a[1])),)))
            return NONE
        if name in ("copy",) and not a:
            return self.new_list(st, cur, "dict" if isdict else "list")
        if name == "sort":
            self.event("list", "sort", [obj], st, node)
            self.heap_write(st, obj, "$items", mkL([("spl", T_, self.sorted_of(st, obj, kws))]))
            return NONE
        if name == "clear":
            self.heap_write(st, obj, "$items", mkL([]))
            return NONE
        if name == "items" and not a:
            return self.dict_items(st, obj, "items")
        if name == "values" and not a:
            return self.dict_items(st, obj, "values")
        if name == "keys" and not a:
            return self.dict_items(st, obj, "keys")
        if name == "get" and a and (isdict or not is_listobj(obj)):
            d = a[1] if len(a) > 1 else NONE
            if isdict:
                return self.dict_get(st, cur, a[0], d)
            if len(cur) == 1 and cur[0][0] == "spl" and cur[0][2] is obj:
                return ite(self.c_in(st, a[0], obj), self.elem(st, obj, a[0]), d)
            return None
        if name == "update" and isdict and (len(a) == 1 or kws):
            new = list(cur)
            for x in a:
                new += self.splice(st, x)
            for k, v in kws:
                new.append(("ent", T_, mkstr(k), v) if k else ("spl", T_, v))
            self.heap_write(st, obj, "$items", mkL(new))
            return NONE
        if name == "setdefault" and isdict and len(a) == 2:
            c = self.dict_has(st, cur, a[0])
            v = ite(c, self.dict_get(st, cur, a[0]), a[1])
            self.heap_write(st, obj, "$items", mkL(tuple(cur) + (("ent", c_not(c), a[0], a[1]),)))
            return v
        if name == "isdisjoint" and len(a) == 1:
            return mkbool(c_not(self.intersects(st, obj, a[0])))
        if name == "intersection" and len(a) == 1:
            return self.set_inter(st, obj, a[0])
        if name == "union" and len(a) == 1:
            return self.new_list(st, tuple(cur) + tuple(self.splice(st, a[0])), "set")
        if name == "count" and len(a) == 1:
            n = num(0)
            for s in self.seq(st, obj):
                n = add(n, scale(self.count_seg(st, s, a[0]), s[1]))
            return n
        if name == "index" and len(a) == 1:
            if len(cur) == 1 and cur[0][0] == "spl":
                i = fresh_index()
                d = cur[0][2]
                if is_ground(d):
                    return pick_index("first", d, i, self.eq(st, elem_raw(d, atom(i)), a[0]))
            if len(cur) == 1 and cur[0][0] == "gen" and cur[0][1] is T_:
                i = fresh_index()
                q = open_segs(cur[0][4], cur[0][3], i)
                if len(q) == 1 and q[0][0] == "one" and q[0][1] is T_:
                    return pick_index("first", cur[0][2], i, self.eq(st, q[0][2], a[0]))
            return unk("index")
        return None

    def count_seg(self, st, s, x):
        if s[0] == "one":
            return scale(num(1), self.eq(st, s[2], x))
        if s[0] == "gen":
            i = fresh_index()
            n = num(0)
            for q in open_segs(s[4], s[3], i):
                n = add(n, scale(self.count_seg(st, q, x), q[1]))
            return mk_sum(s[2], i, n)
        return unk("count")

    def intersects(self, st, a, b):
        r = F_
        for s in self.seq(st, a):
            r = c_or(r, c_and(s[1], self.inter_seg(st, s, b)))
        return r

    def inter_seg(self, st, s, b):
        if s[0] in ("one", "ent"):
            return self.c_in(st, s[2], b)
        i = fresh_index()
        r = F_
        for q in open_segs(s[4], s[3], i):
            r = c_or(r, c_and(q[1], self.inter_seg(st, q, b)))
        return c_exists(s[2], i, r)

    def set_inter(self, st, a, b):
        out = []

        def filt(s):
            if s[0] == "one":
                return ("one", c_and(s[1], self.c_in(st, s[2], b)), s[2])
            i = fresh_index()
            return close_gen(s[1], s[2], i, tuple(filt(q) for q in open_segs(s[4], s[3], i)))
        for s in self.seq(st, a):
            out.append(filt(s))
        return self.new_list(st, out, "set")

    def sorted_of(self, st, L, kws=()):
        r = self.reify(st, L)
        if kws:
            return mkterm("sorted", r, self.sort_keys(st, kws))
        u = self.unique_of(st, L)
        if u is not None:
            t = as_atom(u)
            if t is not None and t.op == "L" and len(t.args[0]) == 1 and t.args[0][0][0] == "spl" and t.args[0][0][1] is T_:
                u = t.args[0][0][2]
            return mkterm("call", "np.unique", (u,), ())
        return plain_sorted(r)

    def sort_keys(self, st, kws):
        """what the elements are sorted by, as a function of an element"""
        out = []
        for k, v in sorted(kws):
            t = as_atom(v)
            if k == "reverse" and v is FALSE or k == "key" and v is NONE:
                continue
            if k == "key" and t is not None:
                s = st.clone()
                v = self.reify(s, self.call_value(v, [sym("$element")], [], s, None))
            out.append((k, v))
        return tuple(out)

    def splice(self, st, L):
        out = []
        for c, g in self.cases_in(L, st):
            t = as_atom(g)
            for s in self.items(st, g):
                out.append((s[0], c_and(c, s[1])) + tuple(s[2:]))
        return out

    def dict_items(self, st, obj, what):
        t = as_atom(obj)
        if t is not None and t.op == "new" and t.args[0] == "dict":
            segs = self.items(st, obj)
        elif self.heap_get(st, obj, "$items") is not None:
            segs = self.items(st, obj)
        else:
            segs = (("spl", T_, obj),)

        def conv(s):
            if s[0] == "ent":
                v = {"keys": s[2], "values": s[3], "items": mkL([seg_one(s[2]), seg_one(s[3])])}[what]
                return ("one", s[1], v)
            if s[0] == "spl":
                i = fresh_index()
                kd = mkterm("keys", s[2])
                k = elem_raw(kd, atom(i))
                v0 = self.elem(st, s[2], k)
                v = {"keys": k, "values": v0, "items": mkL([seg_one(k), seg_one(v0)])}[what]
                return close_gen(s[1], kd, i, (seg_one(v),))
            if s[0] == "gen":
                i = fresh_index()
                return close_gen(s[1], s[2], i, tuple(conv(q) for q in open_segs(s[4], s[3], i)))
            return s
        segs = self.dedup_keys(st, segs)
        return mkL([conv(s) for s in segs])

    def dedup_keys(self, st, segs):
        """literal keys written twice: keep the newest"""
        out = []
        for n, s in enumerate(segs):
            if s[0] == "ent":
                later = F_
                for q in segs[n + 1:]:
                    if q[0] == "ent" and core._key(q[2]) == core._key(s[2]):
                        later = c_or(later, q[1])
                if later is not F_:
                    g = c_and(s[1], c_not(later))
                    if g is F_:
                        continue
                    s = ("ent", g) + tuple(s[2:])
            out.append(s)
        return out

    def str_method(self, obj, name, args, kws, st, node):
        t = as_atom(obj)
        a = [x for x in args if isinstance(x, Lin)]
        if name == "format" and t is not None and t.op == "str":
            import string
            parts = []
            n = 0
            kw = dict((k, v) for k, v in kws if k)
            try:
                for lit, field, spec, conv in string.Formatter().parse(t.args[0]):
                    if lit:
                        parts.append(mkstr(lit))
                    if field is not None:
                        if field == "":
                            v = a[n]
                            n += 1
                        elif field.isdigit():
                            v = a[int(field)]
                        elif field in kw:
                            v = kw[field]
                        else:
                            return unk("format")
                        parts.append(f_strof(self.reify(st, v), spec or ""))
            except (ValueError, IndexError):
                return unk("format")
            return mk_cat(parts)
        if t is not None and t.op == "str" and all(as_atom(x) is not None and as_atom(x).op == "str" for x in a) and not kws:
            s = t.args[0]
            b = [as_atom(x).args[0] for x in a]
            if name in ("endswith", "startswith", "isdigit", "isnumeric"):
                return mkbool(T_ if getattr(s, name)(*b) else F_)
            if name in ("lower", "upper", "strip", "replace"):
                return mkstr(getattr(s, name)(*b))
            if name in ("split", "rsplit", "partition", "rpartition") and len(b) == 1 and b[0]:
                xs = [("one", T_, mkstr(x)) for x in getattr(s, name)(b[0])]
                return self.new_list(st, xs) if "split" in name else mkL(xs)
        if name == "replace" and t is not None and t.op == "str" and len(a) in (2, 3) and not kws:
            o = as_atom(a[0])
            k = as_num(a[2]) if len(a) == 3 else -1
            if o is not None and o.op == "str" and o.args[0] and k is not None:
                parts = []
                for n, x in enumerate(t.args[0].split(o.args[0], int(k))):
                    parts += [a[1], mkstr(x)] if n else [mkstr(x)]
                return mk_cat(parts)
        if name == "join" and len(a) == 1:
            vals = self.seq_plain(st, a[0])
            if vals is not None:
                parts = []
                for n, v in enumerate(vals):
                    if n:
                        parts.append(obj)
                    parts.append(v)
                return mk_cat(parts)
        return None

    # ---- attributes -----------------------------------------------------------------
    def get_attr(self, obj, name, st, node):
        return self.per_case(obj, st, lambda g, s: self.get_attr_g(g, name, s, node))

    mesh_dim = None         # dimension of all meshes, where an obligation fixes it

    def get_attr_g(self, obj, name, st, node):
        t = as_atom(obj)
        if self.mesh_dim is not None and name in ("_topological_dimension", "_geometric_dimension"):
            return num(self.mesh_dim)
        if t is None:
            return mkterm("attr", obj, name)
        if t.op == "module":
            return self.module_attr(t.args[0], name, st, node)
        if t.op == "ext":
            if t.args[0] == "np" and name == "pi":
                return sym("pi")
            return atom(T("ext", t.args[0] + "." + name))
        if t.op == "super":
            own = self.prog.classes[t.args[0]]
            for k in self.prog.mro(own)[1:]:
                if isinstance(k, ClassInfo):
                    if name in k.getters:
                        return self.call_func(k.getters[name], [], [], st, node, selfv=t.args[1])
                    if name in k.methods:
                        break
            return atom(T("bound", obj, name))
        if t.op == "class":
            if t.args[0] in self.prog.classes:
                for k in self.prog.mro(self.prog.classes[t.args[0]]):
                    if isinstance(k, ClassInfo) and name in k.consts:
                        return self.class_const(k, name, st)
            if name == "__name__":
                return mkstr(t.args[0])
            return atom(T("bound", obj, name))
        cls, exact = self.narrowed(obj, st)
        if cls in self.prog.classes:
            cands = [cls] if exact else self.possible(obj, cls, st)
            gs, consts, plain, meth = [], [], False, False
            for s in cands:
                ci = self.prog.classes[s]
                g = self.prog.find_prop(ci, name)
                if g:
                    if all(g is not x for x in gs):
                        gs.append(g)
                elif self.prog.find_method(ci, name):
                    meth = True
                else:
                    plain = True
            if gs and len(gs) == 1 and not plain:
                return self.call_func(gs[0], [], [], st, node, selfv=obj)
            if len(gs) >= 1 and not plain and len(gs) <= self.vmax and name not in self.vopaque:
                return self.vexpand(obj, name, gs, cands, st, lambda c: self.prog.find_prop(c, name),
                                    lambda fi, s: self.call_func(fi, [], [], s, node, selfv=obj))
            if len(gs) >= 1:
                v = self.heap_get(st, obj, name)
                if v is not None:
                    return v
                return mkterm("attr", obj, name)
            v = self.heap_get(st, obj, name)
            if v is not None:
                return lrestrict(v, st.g)
            if meth and not plain:
                return atom(T("bound", obj, name))
            for k in self.prog.mro(self.prog.classes[cls]):
                if isinstance(k, ClassInfo) and name in k.consts:
                    return self.class_const(k, name, st)
            if meth:
                return atom(T("bound", obj, name))
            if name == "__class__":
                return mkterm("type", obj)
            return self.heap_read(st, obj, name)
        v = self.heap_get(st, obj, name)
        if v is not None:
            return lrestrict(v, st.g)
        if is_listobj(obj) or t.op == "L":
            return atom(T("bound", obj, name))
        if name == "__class__":
            return mkterm("type", obj)
        return atom(T("attr", obj, name))

    def class_const(self, k, name, st):
        fr = Frame(FuncInfo(k.node, k.module, None), {})
        self.frames.append(fr)
        try:
            return self.ev(k.consts[name], State({}, st.heap, st.qs, st.g))
        finally:
            self.frames.pop()

    def set_attr(self, obj, name, val, st, node):
        cs = self.cases_in(obj, st)
        if len(cs) == 1:
            return self.set_attr_g(cs[0][1], name, val, st, node)

        def fn(g, s):
            self.set_attr_g(g, name, val, s, node)
            return NONE
        self.per_case(obj, st, fn)

    def set_attr_g(self, obj, name, val, st, node):
        cls, exact = self.narrowed(obj, st)
        if cls in self.prog.classes:
            cands = [cls] if exact else self.possible(obj, cls, st)
            ss = []
            for s in cands:
                f = self.prog.find_prop(self.prog.classes[s], name, "setters")
                if f and all(f is not x for x in ss):
                    ss.append(f)
            if len(ss) == 1:
                self.call_func(ss[0], [val], [], st, node, selfv=obj)
                return
        self.event("store", name, [obj, val], st, node)
        if val is atom(T("attr", obj, name)) and self.heap_get(st, obj, name) is None:
            return  # stores back what is there
        self.heap_write(st, obj, name, val)

    def module_attr(self, mod, name, st, node):
        from .loader import BUILTIN_EXT
        if mod in self.prog.modules:
            b = self.prog.resolve(self.prog.modules[mod], name)
            if b is None and mod + "." + name in self.prog.modules:
                return atom(T("module", mod + "." + name))
            if b is not None:
                return self.binding(b, name, st)
            return unk("festim." + name)
        top = mod.split(".")
        top[0] = BUILTIN_EXT.get(top[0], top[0])
        full = ".".join(top) + "." + name
        if full == "np.pi":
            return sym("pi")
        return atom(T("ext", full))

    def binding(self, b, name, st):
        if b[0] == "class":
            return atom(T("class", b[1].name))
        if b[0] == "func":
            t = T("func", b[1].qual if b[1].module.name.startswith("spec") else b[1].name)
            self.objs[t] = b[1]
            return atom(t)
        if b[0] == "mod":
            from .loader import BUILTIN_EXT
            if b[1] in self.prog.modules:
                return atom(T("module", b[1]))
            top = b[1].split(".")
            top[0] = BUILTIN_EXT.get(top[0], top[0])
            return atom(T("ext", ".".join(top)))
        if b[0] in ("ext", "ext?"):
            if b[1] == "np.pi":
                return sym("pi")
            return atom(T("ext", b[1]))
        if b[0] == "const":
            if name in ("k_B", "R"):
                return sym(name)
            fr = Frame(FuncInfo(ast.parse("0").body[0], b[2], None), {})
            self.frames.append(fr)
            try:
                return self.ev(b[1], State({}, st.heap, st.qs, st.g))
            finally:
                self.frames.pop()
        if b[0] == "tupconst":
            return sym("festim." + name)
        return unk("name " + name)


def plain_sorted(r):
    t = as_atom(r)
    if t is not None and t.op == "call" and t.args[0] == "np.unique":
        return r
    return fmap(_sorted1, r)


def _sorted1(g):
    """sorting forgets the order of what is sorted"""
    t = as_atom(g)
    if t is not None and t.op == "sorted" and len(t.args) == 1:
        return g
    if t is not None and t.op == "L":
        segs = []
        for s in t.args[0]:
            u = as_atom(s[2]) if s[0] == "spl" else None
            if u is not None and u.op == "sorted" and len(u.args) == 1:
                v = as_atom(u.args[0])
                if v is not None and v.op == "L" and s[1] is T_:
                    segs.extend(v.args[0])
                    continue
                s = ("spl", s[1], u.args[0])
            segs.append(s)
        if len(segs) == 1 and segs[0][0] == "spl" and segs[0][1] is T_:
            return mkterm("sorted", segs[0][2])
        return mkterm("sorted", mkL(sorted(segs, key=show_seg)))
    return mkterm("sorted", g)


def show_seg(s):
    return (s[0], show(s[2]) if s[0] != "gen" else repr(s[2]), show_cond(s[1]))


def _load_more():
    from . import interp2  # noqa: F401  (expressions, statements, builtins)


_load_more()
