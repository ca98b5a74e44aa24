"""Expressions, statements, loops and built-ins of the value-flow analysis."""
import ast
from fractions import Fraction
from . import interp as I
from .interp import *
from .interp import (Interp, State, Frame, Ctl, QS, unk, sym, mkL, seg_one, is_L, is_listobj, is_strlike, mk_cat,
                     f_strof, elem_raw, index_L, _uid)
from .core import PROPS
from .interp import inside
from .subst import subst_segs, subst_cond, mk_prefix, pick_index, c_pos_len
from . import core, subst as S

BUILTINS = {"len", "range", "enumerate", "zip", "sum", "any", "all", "min", "max", "abs", "round", "isinstance",
            "type", "callable", "hasattr", "getattr", "setattr", "print", "float", "int", "str", "bool", "list",
            "tuple", "dict", "set", "frozenset", "sorted", "reversed", "map", "filter", "iter", "next", "id", "super",
            "open", "repr", "format", "issubclass", "property", "pow", "object", "vars"}
TYPE_NAMES = {"int", "float", "str", "bool", "list", "tuple", "dict", "set", "object", "complex", "type"}


def method(f):
    setattr(Interp, f.__name__, f)
    import builtins
    return getattr(builtins, f.__name__, f)


# ------------------------------------------------------------------ expressions
@method
def ev(self, n, st):
    if st.g is F_:
        return unk("dead")
    m = getattr(self, "ev_" + type(n).__name__, None)
    if m is None:
        self.notes.add("expression %s not modelled at %s" % (type(n).__name__, self.where(n)))
        return unk(type(n).__name__ + " " + self.where(n))
    return m(n, st)


@method
def ev_Constant(self, n, st):
    v = n.value
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, (int, float)):
        try:
            return num(Fraction(repr(v)) if isinstance(v, float) else v)
        except ValueError:
            return sym(repr(v))
    if isinstance(v, str):
        return mkstr(v)
    return unk("constant")


@method
def ev_Name(self, n, st):
    return self.lookup(n.id, st, n)


@method
def lookup(self, name, st, n):
    if name in st.env:
        v = st.env[name]
        if not is_ground(v):
            v = lrestrict(v, st.g)
        if any(len(m) == 1 and m[0][0].op == "undef" for m, c in v.items):
            v = self.read_undef(v, st, n)
        return v
    fr = self.frames[-1] if self.frames else None
    if fr and fr.module:
        b = self.prog.resolve(fr.module, name)
        if b is not None and not (b[0] == "ext?" and (name in BUILTINS or name in I.EXC)):
            return self.binding(b, name, st)
    if name in I.EXC or name in TYPE_NAMES:
        return atom(T("class", name))
    if name in BUILTINS:
        return atom(T("ext", name))
    if name == "__file__":
        return sym("__file__")
    return unk("undefined name " + name)


@method
def read_undef(self, v, st, n):
    """reading a variable that some branches leave unassigned"""
    bad = F_
    for m, c in v.items:
        if len(m) == 1 and m[0][0].op == "undef":
            bad = c_or(bad, core.nonzero_cond(c))
            self.half_set.add(m[0][0].args[0])
    v = mklin({m: c for m, c in v.items if not (len(m) == 1 and m[0][0].op == "undef")})
    if feasible(c_and(st.g, bad)):
        s2 = st.clone()
        s2.g = c_and(st.g, bad)
        self.do_raise(s2, "UnboundLocalError", n)
        st.g = c_and(st.g, c_not(bad))
        if st.g is F_ or not feasible(st.g):
            st.g = F_
            return unk("dead")
    return lrestrict(v, st.g)


@method
def ev_Attribute(self, n, st):
    o = self.ev(n.value, st)
    return self.get_attr(o, n.attr, st, n)


@method
def ev_Tuple(self, n, st):
    return mkL(self.elts(n.elts, st))


@method
def ev_List(self, n, st):
    return self.new_list(st, self.elts(n.elts, st))


@method
def ev_Set(self, n, st):
    return self.new_list(st, self.dedup(st, self.elts(n.elts, st)), "set")


@method
def elts(self, es, st):
    out = []
    for e in es:
        if isinstance(e, ast.Starred):
            out += self.splice(st, self.ev(e.value, st))
        else:
            out.append(seg_one(self.ev(e, st)))
    return out


@method
def ev_Dict(self, n, st):
    segs = []
    for k, v in zip(n.keys, n.values):
        if k is None:
            segs += self.splice(st, self.ev(v, st))
        else:
            kv = self.ev(k, st)
            segs.append(("ent", T_, kv, self.ev(v, st)))
    return self.new_list(st, segs, "dict")


def fmt_spec(v):
    s = as_atom(v)
    if s is not None and s.op == "str":
        return s.args[0]
    if s is not None and s.op == "strof" and s.args[1] == "":
        return s.args[0]
    return v


@method
def ev_JoinedStr(self, n, st):
    parts = []
    for v in n.values:
        if isinstance(v, ast.Constant):
            parts.append(mkstr(v.value))
        else:
            x = self.ev(v.value, st)
            spec = ""
            if v.format_spec is not None:
                spec = fmt_spec(self.ev(v.format_spec, st))
            parts.append(f_strof(self.reify(st, x), spec))
    return mk_cat(parts)


@method
def ev_NamedExpr(self, n, st):
    v = self.ev(n.value, st)
    st.env[n.target.id] = v
    return v


@method
def ev_Lambda(self, n, st):
    fi = I.FuncInfo(n, self.frames[-1].module, None)
    t = T("clos", "lambda@%s" % self.where(n), next(_uid))
    self.objs[t] = (fi, dict(st.env), self.frames[-1])
    return atom(t)


@method
def ev_Starred(self, n, st):
    return self.ev(n.value, st)


@method
def ev_UnaryOp(self, n, st):
    v = self.ev(n.operand, st)
    if isinstance(n.op, ast.USub):
        return neg(v)
    if isinstance(n.op, ast.UAdd):
        return v
    if isinstance(n.op, ast.Not):
        return mkbool(c_not(self.truth(v, st)))
    return unk("invert")


@method
def ev_BinOp(self, n, st):
    a = self.ev(n.left, st)
    b = self.ev(n.right, st)
    return self.binop(type(n.op).__name__, a, b, st, n)


@method
def seqlike(self, g, st):
    t = as_atom(g)
    if t is None:
        return False
    if t.op in ("L", "sorted") or is_listobj(g):
        return True
    c = self.class_of(g, st)[0]
    return c in ("list", "tuple", "dict") or (
        c in self.prog.classes and any(b == "list" for b in self.prog.mro(self.prog.classes[c])))


@method
def binop(self, op, a, b, st, n):
    if op in ("Add", "Mult", "BitAnd", "BitOr", "Mod"):
        ca, cb = self.cases_in(a, st), self.cases_in(b, st)
        special = any(self.seqlike(g, st) or is_strlike(g) or self.class_of(g, st)[0] == "str" for c, g in ca + cb)
        if special:
            res = []
            for c1, x in ca:
                for c2, y in cb:
                    c = c_and(c1, c2)
                    if not feasible(c_and(c, st.g)):
                        continue
                    res.append((c, self.binop_special(op, x, y, st, n)))
            return self.combine(res, st)
    if op == "Add":
        return add(a, b)
    if op == "Sub":
        return add(a, neg(b))
    if op == "Mult":
        return mul(a, b)
    if op == "Div":
        return div(a, b)
    if op == "Pow":
        return power(a, b)
    return mkterm("op" + op, a, b)


@method
def binop_special(self, op, x, y, st, n):
    sx, sy = self.seqlike(x, st), self.seqlike(y, st)
    if op == "Add" and (sx or sy):
        tup = all(as_atom(z) is not None and as_atom(z).op == "L" for z in (x, y))
        segs = tuple(self.items(st, x)) + tuple(self.items(st, y))
        if tup:
            return mkL(segs)
        return self.new_list(st, segs)
    if op == "Mult" and (sx != sy):
        s, k = (x, y) if sx else (y, x)
        segs = self.items(st, s)
        q = as_num(k)
        if q is not None and q < 20:
            return self.new_list(st, tuple(segs) * int(q))
        i = fresh_index()
        return self.new_list(st, [close_gen(T_, self.range_dom(k), i, tuple(segs))])
    if op == "BitAnd":
        return self.set_inter(st, x, y)
    if op == "BitOr":
        return self.new_list(st, self.dedup(st, tuple(self.items(st, x)) + tuple(self.items(st, y))), "set")
    if op == "Add":
        return mk_cat([x, y])
    if op == "Mod":
        return unk("% formatting")
    if op == "Mult":
        return mkterm("opMult", x, y)
    return unk("operator")


@method
def range_dom(self, n):
    def fn(g):
        t = as_atom(g)
        if t is not None and t.op == "len":
            return t.args[0]
        return atom(T("range", g))
    return fmap(fn, n)


@method
def ev_BoolOp(self, n, st):
    v = self.ev(n.values[0], st)
    for e in n.values[1:]:
        c = self.truth(v, st)
        if isinstance(n.op, ast.Or):
            stay, go = c, c_not(c)
        else:
            stay, go = c_not(c), c
        g2 = c_and(st.g, go)
        if g2 is F_ or not feasible(g2):
            return v
        g1 = c_and(st.g, stay)
        if g1 is F_ or not feasible(g1):
            v = self.ev(e, st)
            continue
        s2 = st.clone()
        s2.g = g2
        w = self.ev(e, s2)
        s1 = st.clone()
        s1.g = g1
        s1.env["$b"] = v
        if s2.g is F_:
            j = s1
        else:
            s2.env["$b"] = w
            j = self.join(s1, s2)
        v = j.env.pop("$b")
        st.become(j)
    return v


@method
def ev_IfExp(self, n, st):
    c = self.truth(self.ev(n.test, st), st)
    return self.branch_value(c, lambda s: self.ev(n.body, s), lambda s: self.ev(n.orelse, s), st)


@method
def branch_value(self, c, f1, f2, st):
    outs = []
    for cond, f in ((c, f1), (c_not(c), f2)):
        g = c_and(st.g, cond)
        if g is F_ or not feasible(g):
            continue
        s = st.clone()
        s.g = g
        v = f(s)
        if s.g is F_:
            continue
        s.env["$b"] = v
        outs.append(s)
    j = self.joins(outs)
    if j is None:
        st.g = F_
        return unk("dead")
    v = j.env["$b"]
    j.env = {k: x for k, x in j.env.items() if k != "$b"}
    st.become(j)
    return v


def _has_form(x, seen=None):
    """the value is a variational form (it contains an integration measure)"""
    seen = set() if seen is None else seen
    if isinstance(x, Lin):
        if x.id in seen:
            return False
        seen.add(x.id)
        return any(_has_form(t, seen) for m, n in x.items for t, e in m)
    if isinstance(x, Term):
        if x.op == "meas" or (x.op == "attr" and x.args[1] in ("dx", "ds", "F", "form_post_processing", "form_density")):
            return True
        if x.op == "call" and x.args[0] in ("fenics.lhs", "fenics.rhs"):
            return True
        if x.op in ("sum", "lin"):
            return any(_has_form(a, seen) for a in x.args)
        return False
    if isinstance(x, tuple):
        return any(_has_form(a, seen) for a in x)
    return False


@method
def ev_Compare(self, n, st):
    left = self.ev(n.left, st)
    r = T_
    for op, e in zip(n.ops, n.comparators):
        right = self.ev(e, st)
        if len(n.ops) == 1 and isinstance(op, ast.Eq) and (_has_form(left) or _has_form(right)):
            return atom(T("eqn", left - right))
        r = c_and(r, self.compare(type(op).__name__, left, right, st))
        left = right
    return mkbool(r)


@method
def compare(self, op, a, b, st):
    if op in ("Eq", "Is"):
        return self.eq(st, a, b)
    if op in ("NotEq", "IsNot"):
        return c_not(self.eq(st, a, b))
    if op == "Lt":
        return c_lt(a, b)
    if op == "Gt":
        return c_lt(b, a)
    if op == "LtE":
        return c_not(c_lt(b, a))
    if op == "GtE":
        return c_not(c_lt(a, b))
    if op == "In":
        return self.c_in(st, a, b)
    if op == "NotIn":
        return c_not(self.c_in(st, a, b))
    return prop(T("truthy", unk("comparison")))


@method
def ev_Subscript(self, n, st):
    o = self.ev(n.value, st)
    if isinstance(n.slice, ast.Slice):
        return self.slice(o, n.slice, st, n)
    k = self.ev(n.slice, st)
    return self.getitem(o, k, st, n)


@method
def slice(self, o, s, st, n):
    lo = self.ev(s.lower, st) if s.lower is not None else NONE
    hi = self.ev(s.upper, st) if s.upper is not None else NONE
    stp = self.ev(s.step, st) if s.step is not None else NONE

    def fn(g, st2):
        if lo is NONE and hi is NONE and stp is NONE and self.seqlike(g, st2):
            return self.new_list(st2, self.items(st2, g))
        t = as_atom(g)
        if t is not None and (t.op == "L" or is_listobj(g)) and stp is NONE:
            segs = self.items(st2, g)
            a = as_num(lo) if lo is not NONE else 0
            b = as_num(hi) if hi is not NONE else None
            lead_ones = 0
            for q in segs:
                if q[0] == "one" and q[1] is T_:
                    lead_ones += 1
                else:
                    break
            if a is not None and 0 <= a <= lead_ones and (hi is NONE):
                return self.new_list(st2, segs[int(a):])
            if a is not None and b is not None and 0 <= a <= lead_ones and 0 <= b <= lead_ones:
                return self.new_list(st2, segs[int(a):int(b)])
        if stp is NONE and g is not None and t is not None and (t.op in ("sorted", "rev", "L") or self.seqlike(g, st2)) \
                and t.op != "str" and self.class_of(g, st2)[0] != "str":
            a = as_num(lo) if lo is not NONE else 0
            b = as_num(hi) if hi is not NONE else 0
            if a is not None and b is not None and a >= 0 >= b and (a or b):
                # all but the first a and the last -b
                i = fresh_index()
                r = self.range_dom(add(self.seq_len(st2, g), num(b - a)))
                if is_ground(r):
                    return self.new_list(st2, [close_gen(T_, r, i, (seg_one(self.elem(st2, g, add(atom(i), num(a)))),))])
        return mkterm("slice", self.reify(st2, g), lo, hi, stp)
    return self.per_case(o, st, fn)


@method
def getitem(self, o, k, st, n):
    def fn(g, s):
        cls, exact = self.narrowed(g, s)
        if cls in self.prog.classes:
            fi = self.prog.find_method(self.prog.classes[cls], "__getitem__")
            if fi:
                return self.call_func(fi, [k], [], s, n, selfv=g)
        v = self.elem(s, g, k)
        # missing dictionary key: the read fails there
        bad = F_
        for m, c in v.items:
            if len(m) == 1 and m[0][0].op == "nokey" and m[0][1] == 1:
                bad = c_or(bad, core.nonzero_cond(c))
        if bad is not F_ and feasible(c_and(s.g, bad)):
            s2 = s.clone()
            s2.g = c_and(s.g, bad)
            self.do_raise(s2, "KeyError", n)
            s.g = c_and(s.g, c_not(bad))
            if s.g is F_:
                return unk("dead")
            v = mklin({m: c for m, c in v.items if not (len(m) == 1 and m[0][0].op == "nokey")})
            v = lrestrict(v, s.g)
        elif bad is not F_:
            v = mklin({m: c for m, c in v.items if not (len(m) == 1 and m[0][0].op == "nokey")})
        return v
    return self.per_case(o, st, fn)


# comprehensions
@method
def ev_ListComp(self, n, st):
    return self.comp(n, st, "list")


@method
def ev_GeneratorExp(self, n, st):
    return self.comp(n, st, "tuple")


@method
def ev_SetComp(self, n, st):
    return self.comp(n, st, "set")


@method
def ev_DictComp(self, n, st):
    return self.comp(n, st, "dict")


@method
def comp(self, n, st, kind):
    acc = "$comp%d" % next(_uid)
    lst = self.new_list(st, [], "dict" if kind == "dict" else "list")
    saved = dict(st.env)
    st.env[acc] = lst

    def level(k, s):
        if k == len(n.generators):
            if kind == "dict":
                kv = self.ev(n.key, s)
                v = self.ev(n.value, s)
                seg = ("ent", T_, kv, v)
            else:
                seg = seg_one(self.ev(n.elt, s))
            if s.g is F_:
                return
            cur = self.items(s, lst)
            self.heap_write(s, lst, "$items", mkL(tuple(cur) + (seg,)))
            return
        gen = n.generators[k]
        it = self.ev(gen.iter, s)

        def body(s2):
            for cnd in gen.ifs:
                c = self.truth(self.ev(cnd, s2), s2)
                g = c_and(s2.g, c)
                s3 = s2.clone()
                s3.g = c_and(s2.g, c_not(c))
                skipped.append(s3)
                s2.g = g
                if g is F_ or not feasible(g):
                    s2.g = F_
                    return
            level(k + 1, s2)

        skipped = []

        def body_all(s2):
            skipped.clear()
            mine = []
            body_wrapped(s2, mine)

        def body_wrapped(s2, mine):
            nonlocal skipped
            old, skipped = skipped, mine
            body(s2)
            skipped = old
            j = self.joins([s2] + mine)
            if j is None:
                s2.g = F_
            else:
                s2.become(j)
        self.loop(it, lambda s2, v: self.assign(gen.target, v, s2, n), body_all, s, n)
    level(0, st)
    segs = self.items(st, lst) if st.g is not F_ else ()
    st.env = {k: v for k, v in st.env.items() if k in saved}
    for k in saved:
        if k not in st.env:
            st.env[k] = saved[k]
    # comprehension variables do not leak
    for gen in n.generators:
        for x in ast.walk(gen.target):
            if isinstance(x, ast.Name) and x.id in saved:
                st.env[x.id] = saved[x.id]
    if kind == "tuple":
        return mkL(segs)
    if kind == "set":
        return self.new_list(st, self.dedup(st, segs), "set")
    return lst


@method
def dedup(self, st, segs):
    out, seen = [], set()
    for s in segs:
        k = core._key(tuple(s[1:]))
        k = (s[0],) + k if s[0] != "gen" else None
        if s[0] == "one":
            dup = F_
            for q in out:
                if q[0] == "one" and core._key(q[2]) == core._key(s[2]):
                    dup = c_or(dup, q[1])
            g = c_and(s[1], c_not(dup))
            if g is F_:
                continue
            out.append(("one", g, s[2]))
        elif s[0] == "gen":
            inner = self.dedup(st, s[4])
            s2 = ("gen", s[1], s[2], s[3], tuple(inner))
            if any(core._key(s2) == core._key(q) for q in out):
                continue
            out.append(s2)
        else:
            if any(core._key(s) == core._key(q) for q in out):
                continue
            out.append(s)
    return tuple(out)


# calls
@method
def ev_Call(self, n, st):
    f = n.func
    if isinstance(f, ast.Name) and f.id == "super" and "super" not in st.env:
        fr = self.frames[-1]
        me = None
        for fr2 in reversed(self.frames):
            if fr2.cls is not None:
                me = st.env.get(fr2.fi.node.args.args[0].arg) if fr2.fi.node.args.args else None
                cls = fr2.cls
                break
        if me is None:
            return unk("super")
        return mkterm("super", cls.name, me)
    if isinstance(f, ast.Attribute):
        o = self.ev(f.value, st)
        args, kws = self.call_args(n, st)
        if st.g is F_:
            return unk("dead")
        return self.with_star(args, st, lambda a, s: self.call_method(o, f.attr, a, kws, s, n))
    fv = self.ev(f, st)
    if isinstance(f, ast.Name) and f.id == "range" and len(n.args) == 1 and not n.keywords and "range" not in st.env:
        r = self.places(n.args[0], st, n)
        if r is not None:
            return r
    args, kws = self.call_args(n, st)
    if st.g is F_:
        return unk("dead")
    return self.with_star(args, st, lambda a, s: self.call_value(fv, a, kws, s, n))


@method
def with_star(self, args, st, call):
    """*args known in each of several cases: one call per case"""
    for k, a in enumerate(args):
        if isinstance(a, tuple) and a and a[0] == "*" and isinstance(a[1], Lin) and len(self.cases_in(a[1], st)) > 1:
            ps = [self.seq_plain(st, g) for c, g in self.cases_in(a[1], st)]
            if all(p is not None for p in ps):
                return self.per_case(a[1], st, lambda g, s: self.with_star(
                    args[:k] + list(self.seq_plain(s, g)) + args[k + 1:], s, call))
    return call(args, st)


@method
def places(self, e, st, n):
    """range(len(E)) for a sequence E some elements of which are left out"""
    if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1
            and isinstance(e.args[0], (ast.Name, ast.Attribute)) and "len" not in st.env):
        return None
    v = self.ev(e.args[0], st)
    if not is_ground(v):
        return None
    segs = self.seq(st, v)
    if not (len(segs) == 1 and segs[0][0] == "gen" and len(segs[0][4]) == 1 and segs[0][4][0][0] == "one" and segs[0][4][0][1] is not T_):
        return None
    r = self.builtin("enumerate", [v], {}, st, n)
    if not is_L(r):
        return None
    out = []
    for s in as_atom(r).args[0]:
        i = fresh_index()
        q = open_segs(s[4], s[3], i)
        out.append(close_gen(s[1], s[2], i, tuple(("one", x[1], self.elem(st, x[2], num(0))) for x in q)))
    return mkL(out)


@method
def call_args(self, n, st):
    args = []
    for a in n.args:
        if isinstance(a, ast.Starred):
            v = self.ev(a.value, st)
            p = self.seq_plain(st, v)
            if p is not None:
                args.extend(p)
            else:
                args.append(("*", v))
        else:
            args.append(self.ev(a, st))
    kws = []
    for k in n.keywords:
        v = self.ev(k.value, st)
        if k.arg is None and is_ground(v):
            d = as_atom(v)
            segs = self.items(st, v) if d is not None and (d.op == "L" or is_listobj(v)) else None
            if segs is not None and all(s[0] == "ent" and s[1] is T_ and const_of(s[2]) is not None
                                        and as_atom(s[2]).op == "str" for s in segs):
                kws.extend((as_atom(s[2]).args[0], s[3]) for s in segs)
                continue
        kws.append((k.arg, v))
    return args, kws


# ------------------------------------------------------------------ externals
def _norm_ext(name):
    from .loader import BUILTIN_EXT
    parts = name.split(".")
    if parts[0] in BUILTIN_EXT:
        parts[0] = BUILTIN_EXT[parts[0]]
    if parts[0] == "math":
        parts[0] = "np"
    return ".".join(parts)


@method
def call_ext(self, name, args, kws, st, node):
    name = _norm_ext(name)
    a = [x for x in args if isinstance(x, Lin)]
    kw = dict((k, v) for k, v in kws if k is not None)
    star = len(a) != len(args) or any(k is None for k, _ in kws)
    if name in I.IGNORED_CALLS:
        self.event("call", name, a, st, node)
        return NONE
    base = name.split(".")[-1]
    if not star:
        r = None
        if "." not in name:
            r = self.builtin(name, a, kw, st, node)
        else:
            r = self.ext_alg(name, base, a, kw, st, node)
        if r is not None:
            return r
    elif name in ("isinstance",):
        flat = []
        for x in args:
            if isinstance(x, tuple):
                p = self.seq_plain(st, x[1])
                if p is None:
                    p = None
                    break
                flat += p
            else:
                flat.append(x)
        if len(flat) == 2:
            return mkbool(self.c_isinst(flat[0], flat[1], st))
        # isinstance(*args, C): one positional argument expected
        if len(args) == 2 and isinstance(args[0], tuple):
            return mkbool(self.c_isinst(self.elem(st, args[0][1], num(0)), args[1], st))
    rargs = tuple(("*", self.reify(st, x[1])) if isinstance(x, tuple) else self.arg_reify(st, x) for x in args)
    rkws = tuple(sorted(((k if k is not None else "**", self.arg_reify(st, v)) for k, v in kws if k not in ("name", "degree")),
                        key=lambda z: z[0]))
    v = mkterm("call", name, rargs, rkws)
    if name in I.ALLOC:
        uid, ix = next(_uid), self.ctx_idx()
        v = fmap(lambda g: atom(T("alloc", g, uid, ix)), v)
    self.event("call", name, list(a) + [b for _, b in kws], st, node, v)
    return v


@method
def arg_reify(self, st, v):
    return self.reify(st, v, shallow=True)


@method
def ext_alg(self, name, base, a, kw, st, node):
    if name == "dict.fromkeys" and 1 <= len(a) <= 2 and not kw:
        v = a[1] if len(a) == 2 else NONE

        def ent(q):
            if q[0] == "one":
                return ("ent", q[1], q[2], v)
            i = fresh_index()
            return close_gen(q[1], q[2], i, tuple(ent(x) for x in open_segs(q[4], q[3], i)))
        return self.new_list(st, [ent(q) for q in self.seq(st, a[0])], "dict")
    top = name.split(".")[0]
    if base == "exp" and len(a) == 1 and top in ("fenics", "np", "sp"):
        return f_exp(a[0])
    if name == "os.path.isdir" and len(a) == 1:
        return mkterm("call", "os.path.exists", (a[0],), ())    # of the folder a file goes to
    if name in ("os.path.dirname", "os.path.basename", "os.path.join", "os.path.split", "os.path.normpath") and a and not kw and \
            all(as_atom(x) is not None and as_atom(x).op == "str" for x in a):
        import posixpath
        v = getattr(posixpath, base)(*[as_atom(x).args[0] for x in a])
        return mkL([("one", T_, mkstr(x)) for x in v]) if isinstance(v, tuple) else mkstr(v)
    if base == "sqrt" and len(a) == 1:
        return power(a[0], num(Fraction(1, 2)))
    if base in ("pow", "power") and len(a) == 2:
        return power(a[0], a[1])
    if base == "square" and len(a) == 1:
        return power(a[0], num(2))
    if top == "fenics":
        if base in ("grad", "nabla_grad") and len(a) == 1:
            return f_grad(a[0])
        if base in ("dot", "inner") and len(a) == 2:
            return f_dot(a[0], a[1])
        if base == "assemble" and len(a) == 1:
            self.event("call", name, a, st, node)
            return self.assemble(a[0])
        if base == "assign" and len(a) == 2:
            self.event("mcall", "assign", a, st, node)
            for c, g in self.cases_in(a[0], st):
                if c is T_:
                    self.heap_write(st, g, "$val", self.val_of(a[1], st))
                else:
                    self.heap_write(st, g, "$val", ite(c, self.val_of(a[1], st), self.val_of(g, st)))
            return NONE
        if name == "fenics.solve" and len(a) >= 2 and as_atom(a[0]) is not None and as_atom(a[0]).op == "eqn":
            bcs = a[2] if len(a) > 2 else kw.get("bcs", mkL([]))
            return self.linear_solve(as_atom(a[0]).args[0], a[1], bcs, st, node)
        if base == "system" and len(a) == 1 and not kw:
            return mkL([("one", T_, mkterm("call", "fenics.lhs", (a[0],), ())), ("one", T_, mkterm("call", "fenics.rhs", (a[0],), ()))])
        if base == "LinearVariationalProblem":
            b = dict(zip(("a", "L", "u", "bcs"), a))
            b.update(kw)
            if set(b) >= {"a", "L", "u"} and set(b) <= {"a", "L", "u", "bcs", "form_compiler_parameters"}:
                return mkterm("lvp", b["a"] - b["L"], b["u"], b.get("bcs", mkL([])))
        if base == "LinearVariationalSolver" and len(a) + len(kw) == 1:
            return mkterm("lvs", a[0] if a else list(kw.values())[0])
        if base == "split" and len(a) == 1:
            return mkterm("call", "fenics.split", (a[0],), ())
        if base == "Constant" and False:
            return None
    if top == "np":
        if base == "isclose" and len(a) >= 2:
            extra = tuple(sorted((k, v) for k, v in kw.items())) + tuple(("p%d" % i, v) for i, v in enumerate(a[2:]))
            return mkbool(lift(lambda x, y: prop(T("isclose", x, y, extra)), a[0], a[1]))
        if base in ("abs", "fabs", "absolute") and len(a) == 1:
            return self.f_abs(a[0])
        if base == "array" and len(a) == 1 and False:
            return a[0]
        if base in ("floor", "ceil"):
            return mkterm(base, a[0])
        if base in ("min", "max", "amin", "amax") and len(a) == 1 and not kw:
            return self.builtin(base[-3:], a, {}, st, node)
        if base == "sort" and len(a) == 1 and not kw:
            return self.sorted_of(st, a[0])
    if base == "ccode" and top == "sp" and len(a) == 1:
        return mkterm("call", "ccode", (self.arg_reify(st, a[0]),), ())
    if name in ("copy.copy", "copy.deepcopy") and len(a) == 1:
        if self.seqlike(a[0], st) and is_ground(a[0]):
            return self.new_list(st, self.items(st, a[0]))
        return mkterm("call", name, (a[0],), ())
    if name == "itertools.chain":
        out = []
        for x in a:
            out += self.splice(st, x)
        return mkL(out)
    if name == "functools.reduce":
        return None
    if base == "from_iterable" and "chain" in name and len(a) == 1:
        return None
    if name in ("operator.itemgetter", "operator.attrgetter"):
        return mkterm("call", name, tuple(a), ())
    return None


@method
def f_abs(self, v):
    def fn(g):
        q = as_num(g)
        if q is not None:
            return num(abs(q))
        return atom(T("abs", g))
    return fmap(fn, v)


SCALAR_PULL = ("azimuth_range", "polar_range", "pi", "_azimuth_range", "_polar_range")


def _is_scalar(t):
    """does not vary in space: may be taken out of an integral"""
    if t.op in ("num",):
        return True
    if t.op == "sym":
        return t.args[0] in ("pi", "a0", "a1", "p0", "p1")      # bounds of angles
    if t.op == "elem":
        x = as_atom(t.args[0])
        return x is not None and x.op == "attr" and x.args[1] in SCALAR_PULL
    if t.op == "call" and t.args[0] in ("np.cos", "np.sin"):
        return True
    if t.op == "lin":
        return all(all(_is_scalar(u) for u, e in m) for m, n in t.args[0].items)
    if t.op == "call" and t.args[0] == "assemble1":
        return True
    return False


@method
def assemble(self, form):
    """linear in the integrand; spatially constant factors come out"""
    res = num(0)
    for m, n in form.items:
        out_f = tuple((t, e) for t, e in m if _is_scalar(t))
        in_f = tuple((t, e) for t, e in m if not _is_scalar(t))
        if not in_f:
            res = add(res, mklin({m: n}))
            continue
        res = add(res, scale(mul(mklin({out_f: T_}), atom(T("assemble", mklin({in_f: T_})))), n))
    return res


S.REMAKE_HOOK["assemble"] = lambda L: Interp.assemble(None, L)


@method
def builtin(self, name, a, kw, st, node):
    k = len(a)
    if name == "len" and k == 1:
        return self.seq_len(st, a[0])
    if name == "isinstance" and k == 2:
        return mkbool(self.c_isinst(a[0], a[1], st))
    if name == "issubclass":
        return None
    if name == "type" and k == 1:
        def fn(g):
            c, exact = self.class_of(g, st)
            if exact and c in self.prog.classes:
                return atom(T("class", c))
            if exact and c in ("list", "dict", "str", "tuple"):
                return atom(T("class", c))
            return atom(T("type", g))
        return fmap(fn, a[0])
    if name == "callable" and k == 1:
        def fc(g):
            t = as_atom(g)
            if t is None or const_of(g) is not None and t.op != "class":
                return F_
            if t.op in ("func", "clos", "class", "ext", "bound"):
                return T_
            if t.op in ("L",) or is_listobj(g):
                return F_
            if t.op == "alloc":
                return T_
            c, ex = self.class_of(g, st)
            if c in ("int", "float", "number", "str", "bool", "list", "dict", "tuple"):
                return F_
            return prop(T("callable", g))
        return mkbool(lift(fc, a[0]))
    if name == "hasattr" and k == 2:
        nm = as_atom(a[1])

        def fh(g):
            c, ex = self.class_of(g, st)
            if nm is not None and nm.op == "str":
                if self.heap_get(st, g, nm.args[0]) is not None:
                    return T_
                if nm.args[0] == "__iter__":
                    if c in ("list", "tuple", "dict", "str"):
                        return T_
                    if c in ("number", "int", "float"):
                        return F_
            return prop(T("hasattr", g, a[1]))
        return mkbool(lift(fh, a[0]))
    if name == "getattr" and k >= 2:
        nm = as_atom(a[1])
        if nm is not None and nm.op == "str" and k == 2:
            return self.get_attr(a[0], nm.args[0], st, node)
        if nm is not None and nm.op == "str" and k == 3:
            v = self.get_attr(a[0], nm.args[0], st, node)
            return v
        return mkterm("getattr", a[0], a[1])
    if name == "setattr" and k == 3:
        nm = as_atom(a[1])
        if nm is not None and nm.op == "str":
            self.set_attr(a[0], nm.args[0], a[2], st, node)
        else:
            self.event("setattr", "setattr", a, st, node)
        return NONE
    if name == "float" and k == 1:
        return self.val_of(a[0], st)
    if name == "int" and k == 1:
        def fi(g):
            q = as_num(g)
            if q is not None:
                return num(int(q))
            t = as_atom(g)
            if t is not None and t.op == "str" and t.args[0].lstrip("-").isdigit():
                return num(int(t.args[0]))
            if t is not None and t.op in ("i", "b", "len"):
                return g
            return atom(T("int", g))
        return fmap(fi, self.val_of(a[0], st))
    if name == "str" and k == 1:
        return f_strof(self.reify(st, a[0]))
    if name == "repr":
        return mkterm("strof", self.reify(st, a[0]), "!r")
    if name == "bool" and k <= 1:
        return mkbool(self.truth(a[0], st)) if a else FALSE
    if name == "range":
        lo = num(0)
        if k == 1:
            hi = a[0]
        elif k == 2:
            lo, hi = a
        else:
            return None
        q, p = as_num(hi), as_num(lo)
        if q is not None and p is not None and q - p < 40:
            return mkL([seg_one(num(x)) for x in range(int(p), int(q))])
        cnt = add(hi, neg(lo))
        if not core.is_ground(cnt) and as_num(lo) is not None and any(as_num(x) is not None for c, x in cases(hi)):
            out = []
            for c, x in cases(hi):
                v = self.builtin(name, [lo, x], {}, st, node)
                if v is None or not is_L(v):
                    return None
                out += [(s_[0], c_and(c, s_[1])) + tuple(s_[2:]) for s_ in as_atom(v).args[0]]
            return mkL(out)
        i = fresh_index()
        return mkL([close_gen(T_, d, i, (seg_one(add(lo, atom(i))),)) if c is T_ else close_gen(c, d, i, (seg_one(add(lo, atom(i))),))
                    for c, d in self.cases_in(self.range_dom(cnt), st)])
    if name == "enumerate" and k >= 1:
        start = a[1] if k > 1 else kw.get("start", num(0))
        segs = self.seq(st, a[0])
        out = []
        n = start
        exact = True
        for s in segs:
            if s[0] == "one":
                out.append(("one", s[1], mkL([seg_one(n), seg_one(s[2])])))
                n = add(n, scale(num(1), s[1]))
            elif s[0] == "gen" and len(s[4]) == 1 and s[4][0][0] == "one" and s[4][0][1] is T_:
                i = fresh_index()
                q = open_segs(s[4], s[3], i)[0]
                out.append(close_gen(s[1], s[2], i, (seg_one(mkL([seg_one(add(n, atom(i))), seg_one(q[2])])),)))
                n = add(n, scale(f_len(s[2]), s[1]))
            elif s[0] == "gen":
                i = fresh_index()
                inner = open_segs(s[4], s[3], i)
                cnt = self.segs_len(st, inner)
                m = add(n, mk_prefix(s[2], i, cnt, atom(i)))
                oi = []
                ok = True
                for q in inner:
                    if q[0] != "one":
                        ok = False
                        break
                    oi.append(("one", q[1], mkL([seg_one(m), seg_one(q[2])])))
                    m = add(m, scale(num(1), q[1]))
                if not ok:
                    return unk("enumerate")
                out.append(close_gen(s[1], s[2], i, tuple(oi)))
                n = add(n, scale(mk_sum(s[2], i, cnt), s[1]))
            else:
                return unk("enumerate")
        return mkL(out)
    if name == "zip" and k >= 1:
        return self.zip(st, a)
    if name == "reversed" and k == 1:
        p = self.seq_plain(st, a[0])
        if p is not None:
            return mkL([seg_one(v) for v in reversed(p)])
        segs = self.seq(st, a[0])
        out = []
        for s in reversed(segs):
            if s[0] == "gen" and len(s[4]) == 1:
                out.append(("gen", s[1], atom(T("rev", s[2])), s[3], s[4]))
            elif s[0] == "one":
                out.append(s)
            else:
                return unk("reversed")
        return mkL(out)
    if name in ("list", "tuple"):
        if k == 0:
            return self.new_list(st, []) if name == "list" else mkL([])
        segs = self.splice(st, a[0])
        t = as_atom(a[0])
        if is_ground(a[0]) and t is not None and (t.op == "new" and t.args[0] == "dict"):
            segs = self.items(st, self.dict_items(st, a[0], "keys"))
        if len(segs) == 1 and segs[0][0] == "spl" and segs[0][1] is T_ and is_ground(segs[0][2]):
            tt = as_atom(segs[0][2])
            if tt is not None and tt.op in ("call", "mcall"):
                return segs[0][2]  # list(f(x)): same elements
        if name == "list":
            o = self.new_list(st, segs)
            u = self.unique_of(st, a[0])
            if u is not None:
                self.heap_write(st, o, "$from", u)
            return o
        return mkL(segs)
    if name in ("set", "frozenset"):
        if k == 0:
            return self.new_list(st, [], "set")
        segs = self.splice(st, a[0])
        dd = self.dedup(st, segs)
        o = self.new_list(st, dd, "set")
        if any(s[0] in ("spl", "gen") for s in dd):
            self.heap_write(st, o, "$from", self.reify(st, mkL(segs)))
        return o
    if name == "dict":
        segs = []
        if k == 1:
            for s in self.splice(st, a[0]):
                if s[0] == "ent":
                    segs.append(s)
                elif s[0] == "one":
                    segs.append(("ent", s[1], self.elem(st, s[2], num(0)), self.elem(st, s[2], num(1))))
                elif s[0] == "gen":
                    i = fresh_index()
                    inner = []
                    for q in open_segs(s[4], s[3], i):
                        if q[0] != "one":
                            return unk("dict()")
                        inner.append(("ent", q[1], self.elem(st, q[2], num(0)), self.elem(st, q[2], num(1))))
                    segs.append(close_gen(s[1], s[2], i, tuple(inner)))
                else:
                    segs.append(s)
        for kk, v in kw.items():
            segs.append(("ent", T_, mkstr(kk), v))
        return self.new_list(st, segs, "dict")
    if name == "sum" and k >= 1:
        r = a[1] if k > 1 else kw.get("start", num(0))
        for s in self.seq(st, a[0]):
            r = add(r, scale(self.sum_seg(st, s), s[1]))
        return r
    if name in ("any", "all") and k == 1:
        r = F_
        for s in self.seq(st, a[0]):
            r = c_or(r, c_and(s[1], self.any_seg(st, s, name == "all")))
        return mkbool(r if name == "any" else c_not(r))
    if name in ("min", "max") and k >= 1:
        segs = self.seq(st, a[0]) if k == 1 else [seg_one(x) for x in a]
        if kw:
            return mkterm("call", name, (self.reify(st, a[0]),), tuple(sorted(kw.items())))
        if all(s[0] == "one" and s[1] is T_ for s in segs) and segs:
            r = segs[0][2]
            for s in segs[1:]:
                c = c_lt(s[2], r) if name == "min" else c_lt(r, s[2])
                r = ite(c, s[2], r)
            return r
        return mkterm("call", name, (mkL(segs),), ())
    if name == "sorted" and k == 1:
        return self.sorted_of(st, a[0], tuple(kw.items()))
    if name == "abs" and k == 1:
        return self.f_abs(a[0])
    if name == "pow" and k == 2:
        return power(a[0], a[1])
    if name == "round":
        return mkterm("round", *a)
    if name == "print":
        return NONE
    if name == "iter" and k == 1:
        o = self.new_list(st, [("spl", T_, a[0])] if not is_L(a[0]) else self.items(st, a[0]))
        self.heap_write(st, o, "$pos", num(0))
        return o
    if name == "next" and k >= 1:
        return self.advance(st, a, node)
    if name in ("map", "filter") and k == 2:
        return self.map_of(st, name, a, node)
    if name == "property":
        return unk("property")
    if name == "format" and k == 2:
        s = as_atom(a[1])
        return f_strof(a[0], fmt_spec(a[1]))
    return None


@method
def sum_seg(self, st, s):
    if s[0] == "one":
        return s[2]
    i = fresh_index()
    v = num(0)
    for q in open_segs(s[4], s[3], i):
        v = add(v, scale(self.sum_seg(st, q), q[1]))
    return mk_sum(s[2], i, v)


@method
def any_seg(self, st, s, negate):
    if s[0] == "one":
        c = self.truth(s[2], st)
        return c_not(c) if negate else c
    i = fresh_index()
    r = F_
    for q in open_segs(s[4], s[3], i):
        r = c_or(r, c_and(q[1], self.any_seg(st, q, negate)))
    return c_exists(s[2], i, r)


def assume_list(self, st, x, g):
    """the list x where g is known to hold"""
    if not (is_listobj(x) or is_L(x)):
        return x
    out = []
    for s in self.segs_of(st, x):
        if not feasible(c_and(s[1], g)):
            continue
        out.append((s[0], T_ if not feasible(c_and(g, c_not(s[1]))) else s[1]) + tuple(s[2:]))
    return mkL(out)


@method
def zip(self, st, a):
    if not all(core.is_ground(x) for x in a):
        res = num(0)

        def rec(k, g, acc):
            nonlocal res
            if k == len(a):
                res = add(res, scale(self.zip(st, [assume_list(self, st, x, g) for x in acc]), g))
                return
            for c, x in cases(a[k]):
                g2 = c_and(g, c)
                if g2 is not F_ and feasible(g2):
                    rec(k + 1, g2, acc + [x])
        rec(0, T_, [])
        return res
    ps = [self.seq_plain(st, x) for x in a]
    if all(p is not None for p in ps):
        return mkL([seg_one(mkL([seg_one(v) for v in row])) for row in zip_(*ps)])
    if any(p is not None for p in ps):
        # operands are assumed to be at least as long as the shortest explicit one
        n = min(len(p) for p in ps if p is not None)
        return mkL([seg_one(mkL([seg_one(p[k] if p is not None else self.elem(st, x, num(k))) for p, x in zip_(ps, a)])) for k in range(n)])
    segs = [self.seq(st, x) for x in a]
    # pick the first operand with one generated run as the driver
    for s in segs:
        if len(s) == 1 and s[0][0] == "gen" and s[0][1] is T_ and len(s[0][4]) == 1 and s[0][4][0][1] is T_:
            i = fresh_index()
            row = []
            for x, sx in zip_(a, segs):
                if len(sx) == 1 and sx[0][0] == "gen" and len(sx[0][4]) == 1 and sx[0][4][0][0] == "one" and sx[0][4][0][1] is T_:
                    row.append(seg_one(open_segs(sx[0][4], sx[0][3], i)[0][2]))
                else:
                    row.append(seg_one(self.elem(st, x, atom(i))))
            return mkL([close_gen(T_, s[0][2], i, (seg_one(mkL(row)),))])
    return unk("zip")


import builtins as _b
zip_ = _b.zip


@method
def next_of(self, st, a, node):
    """next(iterable, default) over a filtered sequence: the first element"""
    segs = self.seq(st, a[0])
    res, none_yet = num(0), T_
    for s in segs:
        if s[0] == "one":
            res = add(res, scale(s[2], c_and(none_yet, s[1])))
            none_yet = c_and(none_yet, c_not(s[1]))
        elif s[0] == "gen" and len(s[4]) == 1 and s[4][0][0] == "one":
            i = fresh_index()
            q = open_segs(s[4], s[3], i)[0]
            ex = c_and(s[1], c_exists(s[2], i, q[1]))
            res = add(res, scale(mk_pick("first", s[2], i, q[1], q[2]), c_and(none_yet, ex)))
            none_yet = c_and(none_yet, c_not(ex))
        else:
            return unk("next")
    if len(a) > 1:
        return add(res, scale(a[1], none_yet))
    if none_yet is not F_ and feasible(c_and(st.g, none_yet)):
        s2 = st.clone()
        s2.g = c_and(st.g, none_yet)
        self.do_raise(s2, "StopIteration", node)
        st.g = c_and(st.g, c_not(none_yet))
    return lrestrict(res, st.g)


@method
def advance(self, st, a, node):
    """next() of an iterator that may be used again"""
    o = a[0]
    e = node.args[0] if isinstance(node, ast.Call) and node.args else None
    if not (is_listobj(o) and self.heap_get(st, o, "$pos") is not None):
        if not isinstance(e, ast.Name) or e.id not in st.env:
            return self.next_of(st, a, node)
        o = self.new_list(st, self.seq(st, o))
        self.heap_write(st, o, "$pos", num(0))
        st.env[e.id] = o
    pos = self.heap_read(st, o, "$pos")
    segs = self.items(st, o)
    whole = len(segs) == 1 and segs[0][0] == "spl" and segs[0][1] is T_
    plain = all(q[1] is T_ and (q[0] == "one" or q[0] == "gen" and len(q[4]) == 1 and q[4][0][:2] == ("one", T_)) for q in segs) and segs
    if as_num(pos) == 0 and not whole and not (plain and len(a) == 1):
        v = self.next_of(st, [mkL(segs)] + a[1:], node)
    elif len(a) > 1:
        raise I.Unsupported("next with a default at %s" % self.where(node))
    else:
        if as_num(pos) is not None and segs and all(q[0] == "one" for q in segs) and as_num(pos) >= len(segs):
            self.do_raise(st.clone(), "StopIteration", node)
            st.g = F_
            return unk("dead")
        v = self.elem(st, segs[0][2] if whole else mkL(segs), pos)
    if st.g is not F_:
        self.heap_write(st, o, "$pos", add(pos, num(1)))
    return v


@method
def map_of(self, st, name, a, node):
    lst = self.new_list(st, [])

    def body(s):
        v = s.env["$m"]
        r = self.call_value(a[0], [v], [], s, node)
        if s.g is F_:
            return
        if name == "filter":
            c = self.truth(r, s)
            self.heap_write(s, lst, "$items", mkL(tuple(self.items(s, lst)) + (("one", c, v),)))
        else:
            self.heap_write(s, lst, "$items", mkL(tuple(self.items(s, lst)) + (seg_one(r),)))

    def asg(s, v):
        s.env["$m"] = v
    self.loop(a[1], asg, body, st, node)
    st.env.pop("$m", None)
    return mkL(self.items(st, lst))


# ------------------------------------------------------------------ statements
@method
def block(self, stmts, st):
    for s in stmts:
        if st.g is F_:
            return
        self.stmt(s, st)


@method
def stmt(self, n, st):
    m = getattr(self, "st_" + type(n).__name__, None)
    if m is None:
        raise I.Unsupported("statement %s not modelled at %s" % (type(n).__name__, self.where(n)))
    m(n, st)


@method
def st_Pass(self, n, st):
    pass


@method
def st_Expr(self, n, st):
    if isinstance(n.value, ast.Constant):
        return
    self.ev(n.value, st)


@method
def grown(self, n, st):
    """X = X + E, X = [*X, ...] for a list nothing else refers to: the list grows"""
    if not self.ctx or len(n.targets) != 1 or not isinstance(n.targets[0], (ast.Name, ast.Attribute)):
        return False
    t, v = n.targets[0], n.value
    same = lambda e: isinstance(e, type(t)) and ast.unparse(e) == ast.unparse(t)
    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and same(v.left):
        rest = v.right
    elif isinstance(v, ast.List) and v.elts and isinstance(v.elts[0], ast.Starred) and same(v.elts[0].value):
        rest = ast.copy_location(ast.List(v.elts[1:], ast.Load()), v)
    else:
        return False
    fr = self.frames[-1]
    if isinstance(t, ast.Name):
        if t.id not in st.env or fr.fi is not None and t.id in [a.arg for a in fr.fi.node.args.args]:
            return False
        cur, o, key = st.env[t.id], None, None
    else:
        o = self.ev(t.value, st)
        cur = self.get_attr(o, t.attr, st, n)
        if not is_ground(o):
            return False
    if not is_ground(cur) or not is_listobj(cur) or as_atom(cur).args[0] != "list":
        return False
    x = {as_atom(cur)}
    if any(_mentions(w, x) for nm, w in st.env.items() if isinstance(w, Lin) and not (isinstance(t, ast.Name) and nm == t.id)):
        return False
    held = [kx for kx, (ts, w) in st.heap.items() if isinstance(w, Lin) and kx[0] is not cur and _mentions(w, x)]
    if len(held) > (0 if o is None else 1) or any(_mentions(q.val, x) for q in st.qs if isinstance(q.val, Lin)):
        return False
    rhs = self.ev(rest, st)
    if st.g is not F_:
        self.heap_write(st, cur, "$items", mkL(tuple(self.items(st, cur)) + tuple(self.splice(st, rhs))))
    return True


@method
def st_Assign(self, n, st):
    if self.grown(n, st):
        return
    v = self.ev(n.value, st)
    if st.g is F_:
        return
    for t in n.targets:
        self.assign(t, v, st, n)


@method
def st_AnnAssign(self, n, st):
    if n.value is not None:
        self.assign(n.target, self.ev(n.value, st), st, n)


@method
def assign(self, t, v, st, n):
    if isinstance(t, ast.Name):
        st.env[t.id] = v
    elif isinstance(t, ast.Attribute):
        o = self.ev(t.value, st)
        self.set_attr(o, t.attr, v, st, n)
    elif isinstance(t, (ast.Tuple, ast.List)):
        stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if stars:
            for e in t.elts:
                self.assign(e.value if isinstance(e, ast.Starred) else e, unk("starred"), st, n)
            return
        for i, e in enumerate(t.elts):
            self.assign(e, self.elem(st, v, num(i)), st, n)
    elif isinstance(t, ast.Subscript):
        o = self.ev(t.value, st)
        if isinstance(t.slice, ast.Slice):
            if any(inside(g) is not None for c, g in self.cases_in(o, st)):
                whole = t.slice.lower is None and t.slice.upper is None and t.slice.step is None

                def fn(g, s):
                    if inside(g) is None:
                        return NONE
                    if whole and inside(v, True) is not None:
                        return self.call_method_g(inside(g), "assign", [inside(v, True)], [], s, n)
                    self.tamper("[:] =", inside(g), s, n)
                    return NONE
                self.per_case(o, st, fn)
                return
            if t.slice.lower is None and t.slice.upper is None and t.slice.step is None and is_ground(o):
                self.heap_write(st, o, "$items", mkL(self.splice(st, v)))
                return
            self.event("setitem", "slice", [o, v], st, n)
            return
        k = self.ev(t.slice, st)
        self.setitem(o, k, v, st, n)
    elif isinstance(t, ast.Starred):
        self.assign(t.value, v, st, n)


@method
def setitem(self, o, k, v, st, n):
    def fn(g, s):
        cls, exact = self.narrowed(g, s)
        if cls in self.prog.classes:
            fi = self.prog.find_method(self.prog.classes[cls], "__setitem__")
            if fi:
                self.call_func(fi, [k, v], [], s, n, selfv=g)
                return NONE
        t = as_atom(g)
        if inside(g) is not None:
            self.tamper("[] =", inside(g), s, n)
        elif self.from_file(g):
            self.tamper("[] =", g, s, n)
        self.event("setitem", "[]", [g, k, v], s, n)
        if t is not None and t.op == "new" and t.args[0] == "dict":
            segs = self.items(s, g)
            self.heap_write(s, g, "$items", mkL(tuple(segs) + (("ent", T_, k, v),)))
        elif t is not None and t.op == "new" and t.args[0] == "list":
            segs = list(self.items(s, g))
            q = as_num(k)
            if q is not None and q >= 0 and q < len(segs) and all(x[0] == "one" and x[1] is T_ for x in segs[:int(q) + 1]):
                segs[int(q)] = seg_one(v)
                self.heap_write(s, g, "$items", mkL(segs))
            else:
                self.heap_write(s, g, ("item", k), v)
        elif is_ground(k):
            self.heap_write(s, g, ("item", k), v)
        else:
            for c, kk in self.cases_in(k, s):
                old = self.elem(s, g, kk)
                self.heap_write(s, g, ("item", kk), ite(c, v, old))
        return NONE
    self.per_case(o, st, fn)


@method
def st_AugAssign(self, n, st):
    op = type(n.op).__name__
    t = n.target
    if isinstance(t, ast.Name):
        cur = self.lookup(t.id, st, t)
        st_set = lambda v: self.assign(t, v, st, n)
    elif isinstance(t, ast.Attribute):
        o = self.ev(t.value, st)
        cur = self.get_attr(o, t.attr, st, n)
        st_set = lambda v: self.set_attr(o, t.attr, v, st, n)
    elif isinstance(t, ast.Subscript):
        o = self.ev(t.value, st)
        if any(inside(g) is not None for c, g in self.cases_in(o, st)):
            for c, g in self.cases_in(o, st):
                if inside(g) is not None:
                    self.tamper("[] %s=" % op, inside(g), st, n)
            return
        k = self.ev(t.slice, st)
        cur = self.getitem(o, k, st, n)
        st_set = lambda v: self.setitem(o, k, v, st, n)
    else:
        return
    if st.g is F_:
        return
    rhs = self.ev(n.value, st)
    if st.g is F_:
        return
    if as_atom(cur) is not None and inside(cur) is not None:
        self.tamper("%s=" % op, inside(cur), st, n)
    if op == "Add":
        # in-place extension of lists
        cs = self.cases_in(cur, st)
        rs = self.cases_in(rhs, st)
        if all(is_listobj(g) or (self.seqlike(g, st) and not is_L(g)) for c, g in cs) or (
                len(cs) == 1 and any(self.seqlike(g, st) for c, g in rs) and not is_strlike(cs[0][1])
                and not is_L(cs[0][1]) and as_num(cs[0][1]) is None):
            def fn(g, s):
                cls, exact = self.narrowed(g, s)
                if cls in self.prog.classes:
                    fi = self.prog.find_method(self.prog.classes[cls], "__iadd__")
                    if fi:
                        return self.call_func(fi, [rhs], [], s, n, selfv=g)
                self.event("list", "extend", [g, rhs], s, n)
                self.heap_write(s, g, "$items", mkL(tuple(self.items(s, g)) + tuple(self.splice(s, rhs))))
                return g
            v = self.per_case(cur, st, fn)
            if st.g is not F_:
                st_set(v)
            return
    st_set(self.binop(op, cur, rhs, st, n))


@method
def st_Return(self, n, st):
    v = self.ev(n.value, st) if n.value is not None else NONE
    if st.g is F_:
        return
    self.frames[-1].rets.append((st.clone(), v))
    st.g = F_


@method
def st_Raise(self, n, st):
    exc = "?"
    msg = None
    if n.exc is not None:
        e = n.exc
        if isinstance(e, ast.Call):
            exc = e.func.id if isinstance(e.func, ast.Name) else ast.unparse(e.func)
        elif isinstance(e, ast.Name):
            exc = e.id
    self.do_raise(st, exc, n, msg)


@method
def st_Assert(self, n, st):
    c = self.truth(self.ev(n.test, st), st)
    s2 = st.clone()
    s2.g = c_and(st.g, c_not(c))
    self.do_raise(s2, "AssertionError", n)
    st.g = c_and(st.g, c)


@method
def st_If(self, n, st):
    c = self.truth(self.ev(n.test, st), st)
    if st.g is F_:
        return
    outs = []
    for cond, body in ((c, n.body), (c_not(c), n.orelse)):
        g = c_and(st.g, cond)
        if g is F_ or not feasible(g):
            continue
        s = st.clone()
        s.g = g
        self.block(body, s)
        if s.g is not F_:
            outs.append(s)
    j = self.joins(outs)
    if j is None:
        st.g = F_
    else:
        st.become(j)


@method
def st_Break(self, n, st):
    if self.frames[-1].loops:
        self.frames[-1].loops[-1].breaks.append(st.clone())
    st.g = F_


@method
def st_Continue(self, n, st):
    if self.frames[-1].loops:
        self.frames[-1].loops[-1].conts.append(st.clone())
    st.g = F_


@method
def st_Import(self, n, st):
    for a in n.names:
        nm = a.asname or a.name.split(".")[0]
        st.env[nm] = self.binding(("mod", a.name if a.asname else a.name.split(".")[0]), nm, st)


@method
def st_ImportFrom(self, n, st):
    from .loader import BUILTIN_EXT
    for a in n.names:
        nm = a.asname or a.name
        mod = n.module or ""
        if mod in self.prog.modules:
            st.env[nm] = self.module_attr(mod, a.name, st, n)
        else:
            top = mod.split(".")[0]
            st.env[nm] = atom(T("ext", BUILTIN_EXT.get(top, mod) + "." + a.name))


@method
def st_FunctionDef(self, n, st):
    fi = I.FuncInfo(n, self.frames[-1].module, None)
    t = T("clos", "%s@%s" % (n.name, self.where(n)), next(_uid))
    if n.decorator_list:
        raise I.Unsupported("decorated local function at %s" % self.where(n))
    st.env[n.name] = atom(t)
    self.objs[t] = (fi, dict(st.env), self.frames[-1])


@method
def st_Global(self, n, st):
    raise I.Unsupported("global statement at %s" % self.where(n))


@method
def st_Nonlocal(self, n, st):
    if not self.frames[-1].shared:
        raise I.Unsupported("nonlocal statement at %s" % self.where(n))


@method
def ev_Yield(self, n, st):
    """a generator is the list of what it yields"""
    v = self.ev(n.value, st) if n.value is not None else NONE
    if st.g is not F_:
        out = st.env["$yield"]
        self.heap_write(st, out, "$items", mkL(tuple(self.items(st, out)) + (seg_one(v),)))
    return NONE


@method
def ev_YieldFrom(self, n, st):
    v = self.ev(n.value, st)
    if st.g is not F_:
        self.list_method(st.env["$yield"], "extend", [v], [], st, n)
    return NONE


@method
def st_Match(self, n, st):
    v = self.ev(n.subject, st)
    outs = []
    rest = st
    for k in n.cases:
        if rest.g is F_ or not feasible(rest.g):
            break
        c, binds = self.pattern(k.pattern, v, rest)
        s = rest.clone()
        s.g = c_and(rest.g, c)
        ok = c
        if s.g is not F_ and feasible(s.g):
            for nm, x in binds:
                s.env[nm] = lrestrict(x, s.g)
            if k.guard is not None:
                w = self.truth(self.ev(k.guard, s), s)
                ok = c_and(c, w)
                s.g = c_and(s.g, w)
            if s.g is not F_ and feasible(s.g):
                self.block(k.body, s)
                if s.g is not F_:
                    outs.append(s)
        rest = rest.clone()
        rest.g = c_and(rest.g, c_not(ok))
    if rest.g is not F_ and feasible(rest.g):
        outs.append(rest)
    j = self.joins(outs)
    if j is None:
        st.g = F_
    else:
        st.become(j)


@method
def pattern(self, p, v, st):
    """condition under which the pattern matches, and the names it binds"""
    if isinstance(p, ast.MatchValue):
        return self.eq(st, v, self.ev(p.value, st)), []
    if isinstance(p, ast.MatchSingleton):
        return self.truth(self.compare(ast.Is(), v, self.ev_Constant(ast.Constant(p.value), st), st), st), []
    if isinstance(p, ast.MatchOr):
        c, names = F_, []
        for q in p.patterns:
            d, b = self.pattern(q, v, st)
            if b:
                raise I.Unsupported("names in alternatives")
            c = c_or(c, d)
        return c, names
    if isinstance(p, ast.MatchAs):
        c, b = self.pattern(p.pattern, v, st) if p.pattern is not None else (T_, [])
        return c, b + ([(p.name, v)] if p.name else [])
    if isinstance(p, ast.MatchClass) and not p.patterns:
        c, b = self.c_isinst(v, self.ev(p.cls, st), st), []
        for nm, q in zip_(p.kwd_attrs, p.kwd_patterns):
            s = st.clone()
            s.g = c_and(st.g, c)
            if s.g is F_ or not feasible(s.g):
                return F_, []
            d, b2 = self.pattern(q, self.get_attr(v, nm, s, p), s)
            c, b = c_and(c, d), b + b2
        return c, b
    if isinstance(p, ast.MatchSequence) and isinstance(v, Lin) and is_L(v) and all(q[0] == "one" and q[1] is T_ for q in as_atom(v).args[0]) \
            and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
        xs = [q[2] for q in as_atom(v).args[0]]
        if len(xs) != len(p.patterns):
            return F_, []
        c, b = T_, []
        for q, x in zip_(p.patterns, xs):
            d, b2 = self.pattern(q, x, st)
            c, b = c_and(c, d), b + b2
        return c, b
    raise I.Unsupported("pattern %s" % type(p).__name__)


@method
def st_Delete(self, n, st):
    for t in n.targets:
        if isinstance(t, ast.Name):
            st.env.pop(t.id, None)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            self.event("del", "[]", [o], st, n)
            if is_ground(o):
                self.heap_write(st, o, "$items", mkL([("spl", T_, unk("del"))]))


@method
def st_With(self, n, st):
    for it in n.items:
        v = self.ev(it.context_expr, st)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, st, n)
    self.block(n.body, st)


@method
def st_Try(self, n, st):
    before = st.clone()
    mark = len(self.raises)
    self.block(n.body, st)
    mine = self.raises[mark:]
    del self.raises[mark:]
    caught = F_
    keep = []
    names = []
    anyh = False
    for h in n.handlers:
        if h.type is None:
            anyh = True
        else:
            for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                names.append(x.id if isinstance(x, ast.Name) else ast.unparse(x))
    for r in mine:
        if anyh or r.exc in names or "Exception" in names or (r.exc in ("KeyError", "IndexError") and "LookupError" in names):
            caught = c_or(caught, r.g)
        else:
            keep.append(r)
    self.raises.extend(keep)
    outs = []
    if st.g is not F_:
        self.block(n.orelse, st)
        if st.g is not F_:
            outs.append(st.clone())
    if caught is not F_ and n.handlers:
        s = before.clone()
        s.g = c_and(before.g, caught)
        h = n.handlers[0]
        if h.name:
            s.env[h.name] = unk("exception")
        self.block(h.body, s)
        if s.g is not F_:
            outs.append(s)
    # failures of external calls: handlers that do more than re-raise are noted
    for h in n.handlers:
        if not all(isinstance(b, (ast.Raise, ast.Pass)) for b in h.body):
            self.notes.add("exception handler at %s (failures of external calls not modelled)" % self.where(h))
    j = self.joins(outs)
    if j is None:
        st.g = F_
    else:
        st.become(j)
    if n.finalbody and st.g is not F_:
        self.block(n.finalbody, st)


@method
def st_For(self, n, st):
    it = self.ev(n.iter, st)
    if st.g is F_:
        return

    def asg(s, v):
        self.assign(n.target, v, s, n)

    def body(s):
        self.block(n.body, s)
    self.loop(it, asg, body, st, n, orelse=n.orelse)


# ------------------------------------------------------------------ loops
@method
def loop(self, it, asg, body, st, node, orelse=None):
    """for target in it: body"""
    if as_atom(it) is not None and as_atom(it).op == "unk":
        segs = [("gen", T_, it, 1, (("one", T_, elem_raw(it, atom(T("b", 1)))),))]
    else:
        t = as_atom(it)
        if t is not None and (t.op == "new" and t.args[0] == "dict"):
            it = self.dict_items(st, it, "keys")
        elif t is not None and self.class_of(it, st)[0] == "dict":
            it = self.dict_items(st, it, "keys")
        pos = self.heap_get(st, it, "$pos") if t is not None and is_listobj(it) else None
        if pos is not None and as_num(pos) != 0:
            lead = self.items(st, it)
            n = as_num(pos)
            if n is None or n > len(lead) or not all(q[0] == "one" and q[1] is T_ for q in lead[:int(n)]):
                raise I.Unsupported("loop over a partly used iterator at %s" % self.where(node))
            it = mkL(lead[int(n):])
        segs = self.seq(st, it)
    breaks = []
    fr = self.frames[-1]

    def run_one(s, v):
        ctl = Ctl()
        fr.loops.append(ctl)
        asg(s, v)
        if s.g is not F_:
            body(s)
        fr.loops.pop()
        return ctl

    def run_seg(s, seg, brk):
        """executes seg; s updated; breaks appended to brk"""
        if s.g is F_:
            return
        if seg[1] is not T_:
            g = c_and(s.g, seg[1])
            if g is F_ or not feasible(g):
                return
            s1 = s.clone()
            s1.g = g
            s2 = s.clone()
            s2.g = c_and(s.g, c_not(seg[1]))
            run_seg(s1, (seg[0], T_) + tuple(seg[2:]), brk)
            j = self.joins([s1, s2])
            if j is None:
                s.g = F_
            else:
                s.become(j)
            return
        if seg[0] == "one":
            ctl = run_one(s, seg[2])
            j = self.joins([s] + ctl.conts)
            brk.extend(ctl.breaks)
            if j is None:
                s.g = F_
            elif j is not s:
                s.become(j)
            return
        if seg[0] == "gen":
            self.quant(s, seg[2], seg[3], seg[4], run_seg, brk, node)
            return
        raise I.Unsupported("loop over %s at %s" % (seg[0], self.where(node)))

    for seg in segs:
        run_seg(st, seg, breaks)
        if st.g is F_ and not breaks:
            return
    if orelse and st.g is not F_:
        self.block(orelse, st)
    if breaks:
        j = self.joins([st] + breaks)
        if j is None:
            st.g = F_
        else:
            st.become(j)


def _bool_const(v):
    return all(as_atom(g) is not None and as_atom(g).op in ("true", "false") for c, g in cases(v))


@method
def quant(self, st, dom, k, inner, run_seg, brk, node):
    """one generic iteration over the elements of dom, then the closed form of
    every location the body writes"""
    i = fresh_index()
    segs = open_segs(inner, k, i)
    base = st.clone()
    W = {}
    fr = self.frames[-1]
    ev_mark, ra_mark, re_mark = len(self.events), len(self.raises), len(fr.rets)
    lam_of = {}

    def place(key, s):
        """loop-carried placeholder"""
        if key[0] == "e":
            init = base.env.get(key[1])
        else:
            init = self.heap_get(base, key[1], key[2])
            if init is None:
                init = self.default(key[1], key[2])
        if key not in lam_of:
            uid = next(_uid)
            if key[0] == "h" and key[2] == "$items":
                lam_of[key] = ("list", T("lam", uid), init)
            elif _safe_bool(init):
                lam_of[key] = ("bool", T("lamb", uid), init)
            else:
                lam_of[key] = ("val", T("lam", uid), init)
        kind, t, init = lam_of[key]
        if kind == "list":
            v = mkL([("spl", T_, atom(t))])
        elif kind == "bool":
            v = mkbool(prop(t))
        else:
            v = atom(t)
        if key[0] == "e":
            s.env[key[1]] = v
        else:
            self.heap_write(s, key[1], key[2], v)

    self.ctx.append((dom, i))
    for attempt in range(8):
        del self.events[ev_mark:]
        del self.raises[ra_mark:]
        del fr.rets[re_mark:]
        s = base.clone()
        for key in W:
            place(key, s)
        start = s.clone()
        b2 = []
        for sg in segs:
            run_seg(s, sg, b2)
        rets = fr.rets[re_mark:]
        new = set()
        for fin in [s] + b2 + [r[0] for r in rets]:
            if fin.g is F_:
                continue
            for kx, (ts, v) in fin.heap.items():
                if start.heap.get(kx) is not None and start.heap[kx][1] is v:
                    continue
                if i in kx[0].fv or (isinstance(kx[1], tuple) and i in kx[1][1].fv):
                    continue
                if not self.heap_known(base, kx[0]):
                    continue
                new.add(("h", kx[0], kx[1]))
        for fin in [s] + b2:
            if fin.g is F_:
                continue
            for nm, v in fin.env.items():
                if start.env.get(nm) is v:
                    continue
                if nm in base.env:
                    new.add(("e", nm))
                elif nm in self.half_set or any(len(m) == 1 and m[0][0].op == "undef" for m, c in v.items):
                    # assigned by some iterations only: the others see what is left from before
                    base.env[nm] = atom(T("undef", nm))
                    new.add(("e", nm))
        new = {x for x in new if x not in W}
        if not new:
            break
        for x in new:
            W[x] = True
    self.ctx.pop()
    rets = fr.rets[re_mark:]
    del fr.rets[re_mark:]
    my_events = self.events[ev_mark:]
    del self.events[ev_mark:]
    my_raises = self.raises[ra_mark:]
    del self.raises[ra_mark:]

    if s.g is F_:
        # every iteration leaves the loop: only the first one is executed
        g0 = c_pos_len(dom)
        one = base.clone()
        one.g = c_and(base.g, g0)
        rest = base.clone()
        rest.g = c_and(base.g, c_not(g0))
        if one.g is not F_ and feasible(one.g):
            for sg in subst_segs(inner, {T("b", k): pick_index("first", dom, i, T_)}):
                run_seg(one, sg, brk)
        else:
            one.g = F_
        j = self.joins([one, rest])
        if j is None:
            st.g = F_
        else:
            st.become(j)
        return

    care = base.g
    rel = lambda g: restrict(g, care)

    # --- final value of each written key after a normal iteration
    normal = s if s.g is not F_ else None
    info = {}  # key -> (kind, data)
    lam_terms = {lam_of[x][1] for x in W if x in lam_of}

    def has_lam(x, excl=None):
        return _mentions(x, lam_terms - ({excl} if excl else set()))

    prefix_sub = {}
    for key in W:
        kind, t, init = lam_of[key]
        if normal is None:
            info[key] = ("same", None)
            continue
        if key[0] == "e":
            e = normal.env.get(key[1])
        else:
            e = self.heap_get(normal, key[1], key[2])
        if e is None:
            info[key] = ("unk", None)
            continue
        e = lrestrict(e, normal.g) if False else e
        if kind == "list":
            info[key] = self.class_list(e, t)
        elif kind == "bool":
            info[key] = self.class_bool(e, t)
        else:
            info[key] = self.class_val(e, t)
    # accumulators first: their value inside iteration i is a prefix sum
    changed = True
    sub = {}
    bsub = {}
    while changed:
        changed = False
        for key in W:
            kd = info[key]
            kind, t, init = lam_of[key]
            if t in sub or t in bsub:
                continue
            if kd[0] == "same":
                if kind == "bool":
                    bsub[t] = self.truth(init, base)
                elif kind == "list":
                    sub[t] = ("L", init)
                else:
                    sub[t] = init
                changed = True
            elif kd[0] == "acc":
                d = self.unlam(kd[1], sub, bsub)
                if not _mentions(d, lam_terms):
                    j = fresh_index()
                    sub[t] = add(init, mk_prefix(dom, j, subst(d, {i: atom(j)}), atom(i)))
                    info[key] = ("acc", d)
                    changed = True
    for key in W:
        kind, t, init = lam_of[key]
        if t not in sub and t not in bsub:
            if kind == "bool":
                bsub[t] = prop(T("truthy", unk("loop-carried flag")))
            else:
                sub[t] = ("L", mkL([("spl", T_, unk("loop-carried list"))])) if kind == "list" else unk("loop-carried value")
    usub = lambda v: self.unlam(v, sub, bsub)
    usubc = lambda c: self.unlam_c(c, sub, bsub)

    # --- exits
    out = base.clone()
    rg = F_
    stops = []
    for kind_, fin, v in [("b", x, None) for x in b2] + [("r", x, v) for x, v in rets]:
        if fin.g is F_:
            continue
        c = usubc(rel(fin.g))
        ex = c_exists(dom, i, c)
        g = c_and(care, ex)
        if g is F_ or not feasible(g):
            continue
        stops.append((kind_, fin, v, c, ex, g))
    errs = []
    for r in my_raises:
        c = usubc(rel(r.g))
        ex = c_exists(dom, i, c)
        if feasible(c_and(care, ex)):
            errs.append((r, c, ex))
    left = F_  # an iteration leaves the loop
    for q in stops:
        left = c_or(left, q[3])
    if stops and len(stops) + len(errs) > 1:
        # the loop is left at the first index where any of the exits is taken
        anyc = left
        for q in errs:
            anyc = c_or(anyc, q[1])
        exa = c_exists(dom, i, anyc)
        at_ = pick_index("first", dom, i, anyc)
        joint, stops = stops, []
        for kind_, fin, v, c, ex, g in joint:
            here = subst_cond(core.restrict(c, anyc), {i: at_})
            ex = c_and(exa, here)
            g = c_and(care, ex)
            if g is F_ or not feasible(g):
                continue
            stops.append((kind_, fin, v, (c, anyc), ex, g))
        joint, errs = errs, []
        for r, c, ex in joint:
            errs.append((r, c, c_and(exa, subst_cond(core.restrict(c, anyc), {i: at_}))))
    for r, c, ex in errs:
        g = c_and(care, ex)
        if g is not F_ and feasible(g):
            self.raises.append(I.Raised(g, r.exc, r.line, r.func, r.msg))
            rg = c_or(rg, ex)
    for kind_, fin, v, c, ex, g in stops:
        so = base.clone()
        so.g = g
        c, first = c if isinstance(c, tuple) else (c, c)
        pickv = lambda val, c=c, first=first: mk_pick("first", dom, i, first, lrestrict(usub(val), c))
        for key in W:
            x = fin.env.get(key[1]) if key[0] == "e" else self.heap_get(fin, key[1], key[2])
            if x is None:
                continue
            if info[key][0] not in ("same", "acc"):
                x2 = unk("value at loop exit")
            else:
                x2 = pickv(x)
            if key[0] == "e":
                so.env[key[1]] = x2
            else:
                self.heap_write(so, key[1], key[2], x2)
        if kind_ == "b":
            for nm, x in fin.env.items():
                if nm not in base.env:
                    so.env[nm] = pickv(x)
            self.copy_local(fin, so, base, i, dom, pickv)
            brk.append(so)
        else:
            self.copy_local(fin, so, base, i, dom, pickv)
            fr.rets.append((so, pickv(v)))
        rg = c_or(rg, ex)
    # --- normal completion
    out.g = c_and(care, c_not(rg))
    if out.g is not F_ and not feasible(out.g):
        out.g = F_
    if out.g is not F_ and normal is not None:
        cont = usubc(rel(normal.g))
        for key in W:
            kind, t, init = lam_of[key]
            v = self.close_key(info[key], kind, t, init, dom, i, usub, usubc, cont, base)
            if key[0] == "e":
                out.env[key[1]] = v
            else:
                self.heap_write(out, key[1], key[2], v)
        for nm, v in normal.env.items():
            if nm not in base.env:
                out.env[nm] = mk_pick("last", dom, i, cont, usub(v))
        # stores to elements: quantified
        qs = list(out.qs)
        for q in normal.qs[len(base.qs):]:
            vs = tuple(q.vars) + ((dom, i),)
            qs.append(QS(next(self.ts), vs, q.obj, q.key, usub(q.val), usubc(q.g)))
        for (o, kx), (ts, v) in sorted(normal.heap.items(), key=lambda z: z[1][0]):
            if start.heap.get((o, kx)) is not None and start.heap[(o, kx)][1] is v:
                continue
            kfv = o.fv | (kx[1].fv if isinstance(kx, tuple) else frozenset())
            if i in kfv or (isinstance(kx, tuple) and _mentions(kx[1], lam_terms)):
                k2 = ("item", usub(kx[1])) if isinstance(kx, tuple) else kx
                qs.append(QS(next(self.ts), ((dom, i),), usub(o), k2, usub(v), T_))
            elif not self.heap_known(base, o):
                # allocated in the body without the index (shared object)
                self.heap_write(out, o, kx, mk_pick("last", dom, i, cont, usub(v)))
        out.qs = tuple(qs)
    # --- events of the generic iteration
    if left is not F_:
        jx = fresh_index()
        reach = c_eq(mk_prefix(dom, jx, subst(mklin({(): left}), {i: atom(jx)}), atom(i)), num(0))
    else:
        reach = T_
    for e in my_events:
        g = c_and(usubc(e.g), reach)
        if g is F_:
            continue
        e.g = g
        e.args = tuple(usub(x) if isinstance(x, Lin) else x for x in e.args)
        e.seq = len(self.events)
        self.events.append(e)
    st.become(out)


def _safe_bool(v):
    try:
        return _bool_const(v)
    except core.TooBig:
        return False


def _mentions(x, terms):
    if not terms:
        return False
    seen = set()

    def rec(y):
        if isinstance(y, (Lin, Term, Node)):
            k = (type(y).__name__, y.id)
            if k in seen:
                return False
            seen.add(k)
        if isinstance(y, Term):
            if y in terms:
                return True
            return any(rec(z) for z in y.args)
        if isinstance(y, Lin):
            return any(rec(n) or any(rec(t) for t, e in m) for m, n in y.items)
        if isinstance(y, Node):
            return any(rec(PROPS[v]) for v in support(y))
        if isinstance(y, tuple):
            return any(rec(z) for z in y)
        return False
    return rec(x)


@method
def copy_local(self, fin, so, base, i, dom, pickv):
    """objects created in the exiting iteration stay reachable"""
    for (o, kx), (ts, v) in fin.heap.items():
        if (o, kx) in base.heap and base.heap[(o, kx)][1] is v:
            continue
        t = as_atom(o)
        if t is not None and t.op == "new" and (o, kx) not in base.heap and not self.heap_known(base, o):
            self.heap_write(so, pickv(o) if i in o.fv else o, kx, pickv(v))


@method
def heap_known(self, base, o):
    """does the object exist before the loop"""
    t = as_atom(o)
    if t is None or t.op not in ("new", "alloc"):
        return True
    if t.op == "alloc":
        return True
    k = (o, "$cls")
    if k in base.heap or (o, "$items") in base.heap:
        return True
    return any(x[0] is o for x in base.heap)


@method
def class_list(self, e, t):
    lam = atom(t)
    if is_L(e):
        segs = as_atom(e).args[0]
        if len(segs) == 1 and segs[0][0] == "spl" and segs[0][2] is lam and segs[0][1] is T_:
            return ("same", None)
        if segs and segs[0][0] == "spl" and segs[0][2] is lam and segs[0][1] is T_ and not _mentions(segs[1:], {t}):
            return ("append", segs[1:])
        if segs and segs[-1][0] == "spl" and segs[-1][2] is lam and segs[-1][1] is T_ and not _mentions(segs[:-1], {t}):
            return ("unk", "prepend")
        if not _mentions(e, {t}):
            return ("over", (F_, e))
    return ("unk", None)


@method
def class_bool(self, e, t):
    p = prop(t)
    c = self.truth(e, State())
    if not _mentions(c, {t}):
        return ("over", (F_, mkbool(c)))
    if not all(PROPS[v] is t or not _mentions(PROPS[v], {t}) for v in support(c)):
        return ("unk", None)
    hi, lo = core.cofactor(c, p.var, True), core.cofactor(c, p.var, False)
    if hi is T_ and lo is F_:
        return ("same", None)
    if hi is T_:
        return ("or", lo)
    if lo is F_:
        return ("and", hi)
    return ("unk", None)


@method
def class_val(self, e, t):
    lam = ((t, ONE),)
    a = F_
    rest = {}
    for m, n in e.items:
        if m == lam:
            a = n
        else:
            rest[m] = n
    rest = mklin(rest)
    if _mentions(rest, {t}) or _mentions(a, {t}):
        return ("unk", None)
    if a is T_:
        if not rest.items:
            return ("same", None)
        return ("acc", rest)
    # guarded overwrite: value of rest where a holds must vanish
    r2 = scale(rest, a)
    if all(not feasible(core.nonzero_cond(n)) for m, n in r2.items):
        return ("over", (a, rest))
    return ("unk", None)


@method
def unlam(self, v, sub, bsub):
    mp = {}
    for t, x in sub.items():
        mp[t] = x[1] if isinstance(x, tuple) else x
    if isinstance(v, tuple):
        return tuple(self.unlam(x, sub, bsub) if isinstance(x, (tuple, Lin, Node)) else x for x in v)
    if isinstance(v, Node):
        return self.unlam_c(v, sub, bsub)
    r = subst(v, mp) if mp else v
    if bsub:
        r = _bsubst(r, bsub)
    return r


@method
def unlam_c(self, c, sub, bsub):
    mp = {}
    for t, x in sub.items():
        mp[t] = x[1] if isinstance(x, tuple) else x
    r = subst_cond(c, mp) if mp else c
    if bsub:
        r = _bsubst_c(r, bsub)
    return r


def _bsubst_c(c, bsub):
    for t, x in bsub.items():
        p = prop(t)
        if p.var in support(c):
            c = core.c_ite(x, core.cofactor(c, p.var, True), core.cofactor(c, p.var, False))
    return c


def _bsubst(L, bsub):
    return mklin({m: _bsubst_c(n, bsub) for m, n in L.items})


@method
def close_key(self, info, kind, t, init, dom, i, usub, usubc, cont, base):
    k = info[0]
    if k == "same":
        return init
    if k == "acc":
        return add(init, mk_sum(dom, i, usub(info[1])))
    if k == "append":
        segs = tuple((s[0], usubc(s[1])) + tuple(s[2:]) for s in self.usegs(info[1], usub, usubc))
        g = close_gen(T_, dom, i, segs)
        return self.append_segs(init, (g,), base)
    if k == "or":
        return mkbool(c_or(self.truth(init, base), c_exists(dom, i, usubc(info[1]))))
    if k == "and":
        return mkbool(c_and(self.truth(init, base), c_not(c_exists(dom, i, c_not(usubc(info[1]))))))
    if k == "over":
        a, rest = info[1]
        w = c_not(usubc(a))
        r = usub(rest)
        ex = c_exists(dom, i, w)
        return ite(ex, mk_pick("last", dom, i, w, lrestrict(r, w)), init)
    return unk("loop-carried value")


@method
def usegs(self, segs, usub, usubc):
    out = []
    for s in segs:
        if s[0] in ("one", "spl"):
            out.append((s[0], usubc(s[1]), usub(s[2])))
        elif s[0] == "ent":
            out.append(("ent", usubc(s[1]), usub(s[2]), usub(s[3])))
        else:
            out.append((s[0], usubc(s[1]), usub(s[2]), s[3], tuple(self.usegs(s[4], usub, usubc))))
    return out


@method
def append_segs(self, init, extra, base):
    if is_L(init):
        return mkL(tuple(as_atom(init).args[0]) + tuple(extra))
    segs = list(self.segs_of(base, init))
    return mkL(tuple(segs) + tuple(extra))


@method
def st_While(self, n, st):
    if self.while_as_for(n, st):
        return
    self.while_general(n, st)


@method
def while_as_for(self, n, st):
    """while i < N: body; i += 1   (i starting at 0, only changed there)"""
    t = n.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name)):
        return False
    v = t.left.id
    if v not in st.env or as_num(st.env[v]) is None or as_num(st.env[v]).denominator != 1 or not n.body:
        return False
    last = n.body[-1]
    ok = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) \
        and last.target.id == v and isinstance(last.value, ast.Constant) and last.value.value == 1
    ok = ok or (isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name)
                and last.targets[0].id == v and ast.dump(last.value) in (
                    ast.dump(ast.parse("%s + 1" % v, mode="eval").body), ast.dump(ast.parse("1 + %s" % v, mode="eval").body)))
    if not ok:
        return False
    for b in n.body[:-1]:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Store):
                return False
            if isinstance(x, ast.Continue):
                return False
    lo = st.env[v]
    hi = self.ev(t.comparators[0], st)
    rng = self.places(t.comparators[0], st, n) if as_num(lo) == 0 else None
    if rng is None:
        rng = self.builtin("range", [lo, hi], {}, st, n)
    if rng is None:
        return False

    def asg(s, val):
        s.env[v] = val

    def body(s):
        self.block(n.body[:-1], s)
    had_break = any(isinstance(x, ast.Break) for b in n.body for x in ast.walk(b))
    self.loop(rng, asg, body, st, n, orelse=n.orelse)
    if st.g is not F_ and not had_break:
        st.env[v] = hi
    return True


def _of_head(x, uid):
    if isinstance(x, Term):
        return x.op == "head" and x.args[0] == uid or any(_of_head(a, uid) for a in x.args)
    if isinstance(x, Lin):
        return any(_of_head(n, uid) or any(_of_head(t, uid) for t, e in m) for m, n in x.items)
    if isinstance(x, Node):
        return any(_of_head(PROPS[v], uid) for v in support(x))
    return isinstance(x, tuple) and any(_of_head(a, uid) for a in x)


@method
def while_general(self, n, st):
    """loop with an arbitrary condition: the state at the loop head is an unknown
    (lam) per written location; the exit state is that after one generic pass"""
    # the first pass on its own, then a generic one
    fr = self.frames[-1]
    early = []
    first = st.clone()
    c = self.truth(self.ev(n.test, first), first)
    skip = first.clone()
    skip.g = c_and(first.g, c_not(c))
    if skip.g is not F_ and feasible(skip.g):
        early.append(skip)
    first.g = c_and(first.g, c)
    if first.g is F_ or not feasible(first.g):
        if early:
            st.become(early[0])
        else:
            st.g = F_
        return
    ctl = Ctl()
    fr.loops.append(ctl)
    self.block(n.body, first)
    fr.loops.pop()
    early += ctl.breaks
    base = self.joins([first] + ctl.conts)
    if base is None or base.g is F_ or not feasible(base.g):
        j = self.joins(early)
        if j is None:
            st.g = F_
        else:
            st.become(j)
        return
    # the loop ends after the first pass, or goes on
    z = base.clone()
    c0 = self.truth(self.ev(n.test, z), z)
    base.g = c_and(base.g, c0)
    z.g = c_and(z.g, c_not(c0))
    if z.g is not F_ and feasible(z.g):
        early.append(z)
    if base.g is F_ or not feasible(base.g):
        j = self.joins(early)
        if j is None:
            st.g = F_
        else:
            st.become(j)
        return
    st.become(base)
    base = st.clone()
    W, lam = {}, {}
    ev_mark, ra_mark, re_mark = len(self.events), len(self.raises), len(fr.rets)
    self.nwhile = getattr(self, "nwhile", 0) + 1
    uid = "loop %d" % self.nwhile
    self.ctx.append((atom(T("while", uid)), None))
    for attempt in range(8):
        del self.events[ev_mark:]
        del self.raises[ra_mark:]
        del fr.rets[re_mark:]
        s = base.clone()
        taken = set()
        for key in sorted(W, key=lambda k: (k[0], k[1] if k[0] == "e" else "")):
            if key[0] == "e":
                # named by the value the variable has after the first pass, not by its name
                nm = self.reify(base, base.env[key[1]]) if isinstance(base.env[key[1]], Lin) else key[1]
                while nm in taken:
                    nm = mkterm("another", nm)
                taken.add(nm)
                v = atom(T("head", uid, nm))
            else:
                v = atom(T("head", uid, mkterm("loc", key[1], key[2] if isinstance(key[2], str) else key[2][1])))
            if key[0] == "h" and key[2] == "$items":
                v = mkL([("spl", T_, v)])
            if key[0] == "e":
                s.env[key[1]] = v
            else:
                self.heap_write(s, key[1], key[2], v)
        start = s.clone()
        c = self.truth(self.ev(n.test, s), s)
        ctl = Ctl()
        fr.loops.append(ctl)
        s.g = c_and(s.g, c)
        if s.g is not F_ and feasible(s.g):
            self.block(n.body, s)
        else:
            s.g = F_
        fr.loops.pop()
        end = self.joins([s] + ctl.conts)
        new = set()
        for fin in ([end] if end else []) + ctl.breaks:
            for kx, (ts, v) in fin.heap.items():
                if start.heap.get(kx) is not None and start.heap[kx][1] is v:
                    continue
                if not self.heap_known(base, kx[0]):
                    continue
                new.add(("h",) + kx)
            for nm, v in fin.env.items():
                if start.env.get(nm) is not v and nm in base.env:
                    new.add(("e", nm))
        new = {x for x in new if x not in W}
        if not new:
            break
        for x in new:
            W[x] = True
    self.ctx.pop()
    # a later pass takes place only when the condition held: say nothing about
    # the values at its head that decided so
    gone = [(v, cofactor(c, v, 0) is F_) for v in support(c)
            if _of_head(PROPS[v], uid) and (cofactor(c, v, 0) is F_ or cofactor(c, v, 1) is F_)]

    def drop(x):
        for v, b in gone:
            x.g = cofactor(x.g, v, 1 if b else 0)
    for x in self.events[ev_mark:] + self.raises[ra_mark:] + fr.rets[re_mark:] + list(ctl.breaks) + ([end] if end is not None else []):
        drop(x[0] if isinstance(x, tuple) else x)
    outs = early + list(ctl.breaks)
    if end is not None:
        c1 = self.truth(self.ev(n.test, end), end)
        end.g = c_and(end.g, c_not(c1))
        if end.g is not F_ and feasible(end.g):
            outs.append(end)
    j = self.joins(outs)
    if j is None:
        st.g = F_
    else:
        st.become(j)


# ------------------------------------------------------------------ results
@method
def unique_of(self, st, x):
    """the sequence a set was made of, when its number of elements is unknown"""
    a = st.heap.get((x, "$from"))
    b = st.heap.get((x, "$items"))
    if a is not None and b is not None and a[0] > b[0]:
        return a[1]
    t = as_atom(x)
    if t is not None and t.op == "call" and t.args[0] == "np.unique" and len(t.args[1]) == 1 and not t.args[2]:
        v = t.args[1][0]
        return self.reify(st, fmap(lambda g: mkL(self.segs_of(st, g)), v)) if isinstance(v, Lin) else None
    return None


@method
def reify(self, st, v, shallow=False, depth=0, seen=()):
    """replace list/dict objects by their contents, new objects by a structural
    description (shallow: lists only)"""
    if depth > 12:
        return v
    mp = {}

    def visit(x, bound):
        if isinstance(x, Lin):
            for m, n in x.items:
                visit(n, bound)
                for t, e in m:
                    visit(t, bound)
        elif isinstance(x, Node):
            for vv in support(x):
                visit(PROPS[vv], bound)
        elif isinstance(x, Term):
            if x.op == "new":
                if x in mp or x in seen:
                    return
                if x.args[0] in ("list", "dict", "set"):
                    c = self.heap_read(st, atom(x), "$items")
                    mp[x] = self.reify(st, c, shallow, depth + 1, seen + (x,))
                elif not shallow:
                    o = atom(x)
                    at = {}
                    for (oo, k), (ts, val) in st.heap.items():
                        if oo is o and isinstance(k, str) and k != "$cls":
                            at[k] = val
                    for q in st.qs:
                        b = {}
                        if isinstance(q.key, str) and self.match(q.obj, o, [vv for d, vv in q.vars], b) and q.key != "$cls":
                            at[q.key] = self.heap_get(st, o, q.key)
                    mp[x] = mkterm("obj", x.args[0], tuple(
                        (k, self.reify(st, at[k], shallow, depth + 1, seen + (x,))) for k in sorted(at)))
                return
            if x.op == "L" and any(q[0] == "gen" for q in x.args[0]):
                mp[x] = mkL([self.reify_seg(st, q, shallow, depth, seen) for q in x.args[0]])
                return
            for a in x.args:
                visit(a, bound)
        elif isinstance(x, tuple):
            for y in x:
                visit(y, bound)
    visit(v, ())
    if mp:
        v = subst(v, mp)
    return v


@method
def reify_seg(self, st, s, shallow, depth, seen):
    re = lambda y: self.reify(st, y, shallow, depth + 1, seen)
    g = self.reify_c(st, s[1], shallow, depth, seen)
    if s[0] == "gen":
        i = fresh_index()
        inner = tuple(self.reify_seg(st, q, shallow, depth, seen) for q in open_segs(s[4], s[3], i))
        return close_gen(g, re(s[2]), i, inner)
    return (s[0], g) + tuple(re(y) for y in s[2:])


@method
def reify_c(self, st, c, shallow, depth, seen):
    """a condition mentioning objects"""
    r = self.reify(st, mkbool(c), shallow, depth + 1, seen)
    return core.c_truth(r)


def erase(v):
    """drop allocation identities"""
    mp = {}
    seen = set()

    def visit(x):
        if isinstance(x, (Lin, Term, Node)):
            k = (type(x).__name__, x.id)
            if k in seen:
                return
            seen.add(k)
        if isinstance(x, Lin):
            for m, n in x.items:
                visit(n)
                for t, e in m:
                    visit(t)
        elif isinstance(x, Node):
            for vv in support(x):
                visit(PROPS[vv])
        elif isinstance(x, Term):
            if x.op == "alloc":
                mp[x] = erase(x.args[0])
            else:
                for a in x.args:
                    visit(a)
        elif isinstance(x, tuple):
            for y in x:
                visit(y)
    visit(v)
    if not mp:
        return v
    return subst_cond(v, mp) if isinstance(v, Node) else subst(v, mp)


@method
def ev_Slice(self, n, st):
    """a slice inside a tuple of indices"""
    return mkterm("slice_of", *(self.ev(e, st) if e is not None else NONE for e in (n.lower, n.upper, n.step)))
