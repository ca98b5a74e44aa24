"""Substitution and binders (finite sums, quantifiers, generated sequences)."""
import itertools
import re
from .core import *
from . import core
from .core import PROPS

_fresh = itertools.count(1)


def fresh_index():
    return T("i", next(_fresh))


# --------------------------------------------------------------------------
def subst(L, mp):
    """L: Lin, mp: {Term: Lin}"""
    if not mp:
        return L
    memo = {}
    return _sl(L, mp, memo)


def subst_cond(c, mp):
    if not mp:
        return c
    return _sc(c, mp, {})


def _touches(x, mp):
    """cheap conservative test"""
    return True


def _sl(L, mp, memo):
    k = ("L", L.id)
    r = memo.get(k)
    if r is not None:
        return r
    res = num(0)
    same = True
    for m, n in L.items:
        n2 = _sc(n, mp, memo)
        if n2 is not n:
            same = False
        acc = None
        keep = []
        for t, e in m:
            v = _st(t, e, mp, memo)
            if v is None:
                keep.append((t, e))
            else:
                same = False
                acc = v if acc is None else mul(acc, v)
        base = mklin({tuple(keep): n2}) if n2.var is None or True else None
        res = add(res, base if acc is None else mul(base, acc))
    if same:
        res = L
    memo[k] = res
    return res


def _st(t, e, mp, memo):
    """value of t**e after substitution, None when unchanged"""
    if t in mp:
        v = mp[t]
        return v if e == 1 else power(v, num(e))
    k = ("T", t.id, e)
    if k in memo:
        return memo[k]
    r = _rebuild(t, e, mp, memo)
    memo[k] = r
    return r


def _sub_any(x, mp, memo):
    if isinstance(x, Lin):
        return _sl(x, mp, memo)
    if isinstance(x, Node):
        return _sc(x, mp, memo)
    if isinstance(x, Term):
        v = _st(x, ONE, mp, memo)
        return x if v is None else v
    if isinstance(x, tuple):
        return tuple(_sub_any(y, mp, memo) for y in x)
    return x


BINDERS = ("sum", "exists", "first", "last", "prefix", "L")


def _rebuild(t, e, mp, memo):
    if t.op in BINDERS:
        v = _rebuild_binder(t, mp, memo)
    else:
        if not t.args:
            return None
        args = tuple(_sub_any(a, mp, memo) for a in t.args)
        if all(x is y for x, y in zip(args, t.args)) or _key_eq(args, t.args):
            return None
        v = remake(t.op, args, e)
        if t.op == "lin":
            return v
    if v is None:
        return None
    return v if e == 1 else power(v, num(e))


def _key_eq(a, b):
    from .core import _key
    return _key(a) == _key(b)


REMAKE_HOOK = {}


def remake(op, args, e=ONE):
    if op == "exp":
        return f_exp(args[0])
    if op == "grad":
        return f_grad(args[0])
    if op == "dot":
        return f_dot(args[0], args[1])
    if op == "lin":
        return power(args[0], num(e))
    if op == "pow":
        return power(args[0], args[1])
    if op in REMAKE_HOOK:
        return REMAKE_HOOK[op](*args)
    return mkterm(op, *args)


def mkterm(op, *args):
    """atom with nested values; splits on the guards of its arguments"""
    ls = []

    def coll(x):
        if isinstance(x, Lin):
            if not is_ground(x):
                ls.append(x)
        elif isinstance(x, tuple):
            for y in x:
                coll(y)

    coll(args)
    if not ls:
        return atom(T(op, *args))
    uniq = []
    for l in ls:
        if l not in uniq:
            uniq.append(l)

    def rep(x, mp):
        if isinstance(x, Lin):
            return mp.get(x, x)
        if isinstance(x, tuple):
            return tuple(rep(y, mp) for y in x)
        return x

    def fn(*gs):
        mp = dict(zip(uniq, gs))
        a2 = rep(args, mp)
        if op in REMAKE_HOOK:
            return REMAKE_HOOK[op](*a2)
        return atom(T(op, *a2))

    return fmap(fn, *uniq)


def _rebuild_binder(t, mp, memo):
    if t.op == "sum":
        doms, body, G = t.args
        sub = dict(mp)
        opened = []
        changed = False
        for d, k in doms:
            d2 = subst(d, sub) if sub is not mp else _sl(d, mp, memo)
            if d2 is not d:
                changed = True
            i = fresh_index()
            opened.append((d2, i))
            sub[T("b", k)] = atom(i)
        if not changed:
            b0, g0 = subst(body, mp), subst_cond(G, mp)
            if b0 is body and g0 is G:
                return None
        b2 = scale(subst(body, sub), subst_cond(G, sub))
        for d2, i in reversed(opened):
            b2 = mk_sum(d2, i, b2)
        return b2
    if t.op in ("first", "last"):
        d, k, c = t.args
        if subst(d, mp) is d and subst_cond(c, mp) is c:
            return None
        i = fresh_index()
        sub = dict(mp)
        sub[T("b", k)] = atom(i)
        return pick_index(t.op, subst(d, mp), i, subst_cond(c, sub))
    if t.op == "prefix":
        d, k, c, v, up = t.args
        if subst(d, mp) is d and subst_cond(c, mp) is c and subst(v, mp) is v and subst(up, mp) is up:
            return None
        i = fresh_index()
        sub = dict(mp)
        sub[T("b", k)] = atom(i)
        return mk_prefix(subst(d, mp), i, scale(subst(v, sub), subst_cond(c, sub)), subst(up, mp))
    if t.op == "L":
        segs = subst_segs(t.args[0], mp)
        if _key_eq(segs, t.args[0]):
            return None
        return atom(T("L", segs))
    raise AssertionError(t.op)


def subst_segs(segs, mp):
    out = []
    for s in segs:
        if s[0] == "one" or s[0] == "spl":
            out.append((s[0], subst_cond(s[1], mp), subst(s[2], mp)))
        elif s[0] == "ent":
            out.append(("ent", subst_cond(s[1], mp), subst(s[2], mp), subst(s[3], mp)))
        else:
            _, g, d, k, inner = s
            i = fresh_index()
            sub = dict(mp)
            sub[T("b", k)] = atom(i)
            out.append(close_gen(subst_cond(g, mp), subst(d, mp), i, subst_segs(inner, sub)))
    return tuple(out)


def open_segs(segs, k, i):
    return subst_segs(segs, {T("b", k): atom(i)})


def unsort(d):
    """a domain only says which indices there are: sorting does not change them"""
    t = as_atom(d)
    if t is not None and t.op == "call" and t.args[0] == "np.unique" and len(t.args[1]) == 1 and not t.args[2] \
            and isinstance(t.args[1][0], Lin):
        v = t.args[1][0]
        u = as_atom(v)
        if u is None or u.op != "L":
            v = atom(T("L", (("spl", T_, v),)))
        return atom(T("range", atom(T("nunique", v))))
    if t is not None and t.op == "sorted" and len(t.args) == 1 and is_ground(t.args[0]):
        u = as_atom(t.args[0])
        if u is not None and u.op not in ("L", "new"):
            return unsort(t.args[0])
    return d


def close_gen(g, d, i, segs):
    """('gen', guard, domain, k, segs) with index i abstracted"""
    d = unsort(d)
    k = 1 + bmax((d, segs))
    segs = tuple(canon_seg(s) for s in subst_segs(segs, {i: atom(T("b", k))}))
    return ("gen", g, d, k, segs)


def canon_seg(s):
    return (s[0], canon(s[1])) + tuple(s[2:])


def _sc(c, mp, memo):
    if c.var is None:
        return c
    k = ("C", c.id)
    r = memo.get(k)
    if r is not None:
        return r
    p = PROPS[c.var]
    p2 = _sprop(p, mp, memo)
    hi, lo = _sc(c.hi, mp, memo), _sc(c.lo, mp, memo)
    if p2 is None:
        if hi is c.hi and lo is c.lo:
            r = c
        else:
            r = c_ite(mknode(c.var, T_, F_), hi, lo)
    else:
        r = c_ite(p2, hi, lo)
    memo[k] = r
    return r


PROP_HOOK = {}


def _sprop(p, mp, memo):
    if p in mp and isinstance(mp[p], Node):
        return mp[p]
    k = ("P", p.id)
    if k in memo:
        return memo[k]
    if p.op == "exists":
        d, kk, c = p.args
        if subst(d, mp) is d and subst_cond(c, mp) is c:
            r = None
        else:
            i = fresh_index()
            sub = dict(mp)
            sub[T("b", kk)] = atom(i)
            r = c_exists(subst(d, mp), i, subst_cond(c, sub))
    else:
        args = tuple(_sub_any(a, mp, memo) for a in p.args)
        if _key_eq(args, p.args):
            r = None
        else:
            r = remake_prop(p.op, args)
    memo[k] = r
    return r


def remake_prop(op, args):
    if op == "eq":
        return c_eq(args[0], args[1])
    if op == "pos":
        return lift(c_pos, args[0])
    if op == "truthy":
        return c_truth(args[0])
    if op in PROP_HOOK:
        return PROP_HOOK[op](*args)
    ls = [a for a in args if isinstance(a, Lin)]

    def fn(*gs):
        it = iter(gs)
        return prop(T(op, *[next(it) if isinstance(a, Lin) else a for a in args]))

    return lift(fn, *ls)


# --------------------------------------------------------------------------
def split_cond(node, i):
    """Shannon expansion on the propositions independent of index i:
    list of (outer guard, inner node depending on i only)"""
    free = sorted(v for v in support(node) if i not in PROPS[v].fv)
    out = []

    def rec(n, g, vs):
        if n is F_ or g is F_:
            return
        vs = [v for v in vs if v in support(n)]
        if not vs:
            out.append((g, n))
            return
        v = vs[0]
        rec(cofactor(n, v, True), c_and(g, mknode(v, T_, F_)), vs[1:])
        rec(cofactor(n, v, False), c_and(g, mknode(v, F_, T_)), vs[1:])

    rec(node, T_, free)
    # merge equal inner parts
    d = {}
    for g, n in out:
        d[n] = c_or(d[n], g) if n in d else g
    return [(g, n) for n, g in d.items()]


# -- instances with lists of a fixed size ---------------------------------------
SIZES = None        # name of a list -> number of elements; None: any number
MET = {}


def fixed_size(d):
    """number of elements of the opaque list d, in an instance with fixed sizes"""
    if SIZES is None:
        return None
    t = as_atom(d)
    if t is None or t.op not in LISTLIKE:
        return None
    name = re.sub(r"\[[^\[\]]*\]", "[]", show(d))
    MET[name] = MET.get(name, 0) + 1
    return SIZES.get(name, SIZES.get("*", 2))


LISTLIKE = {"sym", "attr", "elem", "param", "out", "mcall", "call", "keys", "vcall"}


def f_len(d):
    def fn(g):
        n = fixed_size(g)
        if n is not None:
            return num(n)
        t = as_atom(g)
        if t is not None and t.op == "range":
            return t.args[0]
        if t is not None and t.op in ("rev", "sorted"):
            return f_len(t.args[0])
        if t is not None and t.op == "L":
            return segs_count(t.args[0])
        return atom(T("len", g))
    return fmap(fn, d)


def segs_count(segs):
    n = num(0)
    for s in segs:
        if s[0] in ("one", "ent"):
            x = num(1)
        elif s[0] == "spl":
            x = f_len(s[2])
        else:
            i = fresh_index()
            x = mk_sum(s[2], i, segs_count(open_segs(s[4], s[3], i)))
        n = add(n, scale(x, s[1]))
    return n


def unrev(dom):
    t = as_atom(dom)
    if t is not None and t.op == "rev":
        return unrev(t.args[0])
    return unsort(dom)


def mk_sum(dom, i, body):
    """Sum over the elements (index i) of dom of body"""
    if not is_ground(dom):
        return fmap(lambda d: mk_sum(d, i, body), dom)
    dom = unrev(dom)
    res = num(0)
    for m, n in body.items:
        out_f = tuple((t, e) for t, e in m if i not in t.fv)
        in_f = tuple((t, e) for t, e in m if i in t.fv)
        for g, inner in split_cond(n, i):
            inner = canon(inner)
            if inner is F_:
                continue
            coef = ONE
            if inner.var is None:
                coef = inner.val
                inner = T_
            if not in_f and inner is T_:
                v = f_len(dom)
            else:
                v = _sum_term(dom, i, in_f, inner)
            res = add(res, scale(mul(mklin({out_f: leaf(coef)}), v), g))
    return res


def _sum_term(dom, i, in_f, G):
    doms = [(dom, i)]
    mono = in_f
    # flatten a nested sum
    inner = [t for t, e in in_f if t.op == "sum" and e == 1]
    if len(inner) == 1:
        t = inner[0]
        sub = {}
        for d, k in t.args[0]:
            j = fresh_index()
            doms.append((subst(d, sub), j))
            sub[T("b", k)] = atom(j)
        b2 = subst(t.args[1], sub)
        G = nmul(G, subst_cond(t.args[2], sub))
        assert len(b2.items) == 1
        mono = mono_mul(tuple(x for x in in_f if x[0] is not t), b2.items[0][0])
    body = mklin({mono: T_})
    # close, innermost first
    out = []
    sub = {}
    k = 1 + max(bmax(body), bmax(G), max(bmax(d) for d, _ in doms))
    ks = []
    for d, j in reversed(doms):
        ks.append((d, j, k))
        sub[j] = atom(T("b", k))
        k += 1
    for d, j, kk in reversed(ks):
        out.append((subst(d, sub), kk))
    return atom(T("sum", tuple(out), subst(body, sub), subst_cond(G, sub)))


def c_exists(dom, i, cond):
    if not is_ground(dom):
        return lift(lambda d: c_exists(d, i, cond), dom)
    dom = unrev(dom)
    res = F_
    for g, inner in split_cond(cond, i):
        inner = canon(inner)
        if inner is F_:
            continue
        if inner is T_:
            c = c_pos_len(dom)
        else:
            k = 1 + bmax((dom, inner))
            inner = subst_cond(inner, {i: atom(T("b", k))})
            c = prop(T("exists", dom, k, canon(inner)))
        res = c_or(res, c_and(g, c))
    return res


def sum_pos(t):
    """a sum of counts is positive: some summand is"""
    doms, body, G = t.args
    sub, ix = {}, []
    for d, k in doms:
        j = fresh_index()
        ix.append((subst(d, sub), j))
        sub[T("b", k)] = atom(j)
    c = subst_cond(G, sub)
    c = c_and(c, c_or(*[core.mono_pos(m) for m, n in subst(body, sub).items]))
    for d, j in reversed(ix):
        c = c_exists(d, j, c)
    return c


core.SUM_HOOK[0] = sum_pos
core.LEN_HOOK[0] = f_len


def c_pos_len(dom):
    return lift(c_pos, f_len(dom))


def mk_pick(op, dom, i, cond, val):
    """val at the first/last index of dom where cond holds: the index becomes a
    term first(dom, k, cond) / last(dom, k, cond)"""
    if i not in val.fv:
        return val
    val = lrestrict(val, cond)
    if i not in val.fv:
        return val
    return subst(val, {i: pick_index(op, dom, i, cond)})


def pick_index(op, dom, i, cond):
    if not is_ground(dom):
        return fmap(lambda d: pick_index(op, d, i, cond), dom)
    t = as_atom(dom)
    if t is not None and t.op == "rev":
        op = "last" if op == "first" else "first"
        return pick_index(op, t.args[0], i, cond)
    dom = unsort(dom)
    res = num(0)
    for g, inner in split_cond(cond, i):
        inner = canon(inner)
        if inner is F_:
            continue
        if inner is T_ and op == "first":
            v = num(0)
        elif inner is T_:
            v = num(-1)
        else:
            k = 1 + bmax((dom, inner))
            v = atom(T(op, dom, k, canon(subst_cond(inner, {i: atom(T("b", k))}))))
        res = add(res, scale(v, g))
    return res


def mk_prefix(dom, i, delta, upto):
    """Sum of delta(i) over the indices i < upto of dom"""
    if i not in delta.fv:
        return mul(delta, upto)
    k = 1 + bmax((dom, delta))
    res = num(0)
    for m, n in delta.items:
        out_f = tuple((t, e) for t, e in m if i not in t.fv)
        in_f = tuple((t, e) for t, e in m if i in t.fv)
        for g, inner in split_cond(n, i):
            if not in_f and inner.var is None:
                res = add(res, scale(mul(mklin({out_f: inner}), upto), g))
                continue
            coef = ONE
            if inner.var is None:
                coef, inner = inner.val, T_
            k = 1 + bmax((dom, inner) + tuple(t for t, e in in_f))
            sub = {i: atom(T("b", k))}
            v = mkterm("prefix", dom, k, subst_cond(inner, sub), subst(mklin({in_f: T_}), sub), upto)
            res = add(res, scale(mul(mklin({out_f: leaf(coef)}), v), g))
    return res


# --------------------------------------------------------------------------
# comparison
# --------------------------------------------------------------------------
def nested(x, acc, outer, top, seen):
    """propositions inside terms (not under a bound variable they mention)"""
    if isinstance(x, Lin):
        for m, n in x.items:
            nested(n, acc, outer, top, seen)
            for t, e in m:
                nested(t, acc, outer, False, seen)
    elif isinstance(x, Node):
        for v in support(x):
            p = PROPS[v]
            if not top and not _mentions(p, outer):
                acc[v] = acc.get(v, 0) + 1
            nested(p, acc, outer, False, seen)
    elif isinstance(x, Term):
        k = (x.id, outer, top)
        if k in seen or not x.args:
            return
        seen.add(k)
        o = outer
        if x.op == "sum":
            o = outer | {k for d, k in x.args[0]}
        elif x.op in ("exists", "first", "last", "prefix"):
            o = outer | {x.args[1]}
        for a in x.args:
            nested(a, acc, o, False, seen)
    elif isinstance(x, tuple):
        o = outer
        if len(x) == 5 and x[0] == "gen":
            o = outer | {x[3]}
        for a in x:
            nested(a, acc, o, False, seen)


def _mentions(x, ks):
    if not ks:
        return False
    if isinstance(x, Term):
        if x.op == "b":
            return x.args[0] in ks
        return any(_mentions(a, ks) for a in x.args)
    if isinstance(x, Lin):
        return any(_mentions(n, ks) or any(_mentions(t, ks) for t, e in m) for m, n in x.items)
    if isinstance(x, Node):
        return any(_mentions(PROPS[v], ks) for v in support(x))
    if isinstance(x, tuple):
        return any(_mentions(a, ks) for a in x)
    return False


def diff_terms(L, care=T_):
    """what remains of L modulo the care set; conditions buried inside terms are
    decided by cases"""
    left = _diff_terms(L, care)
    if not left:
        return left
    budget = [40]

    def differs(d, care):
        left = _diff_terms(d, care)
        if not left:
            return False
        budget[0] -= 1
        if budget[0] < 0:
            return True
        acc = {}
        for key, n, cond in left:
            nested(key, acc, frozenset(), False, set())
        for v in sorted(acc, key=lambda v: (-acc[v], v)):
            lit = mknode(v, T_, F_)
            for g, b in ((c_and(care, lit), T_), (c_and(care, c_not(lit)), F_)):
                if feasible(g):
                    d2 = subst(d, {PROPS[v]: b})
                    if differs(d2, g):
                        return True
            return False
        return True
    return left if differs(L, care) else []


def _diff_terms(L, care=T_):
    """what remains of L modulo the care set: list of (mono text, guard)"""
    groups = {}
    for m, n in L.items:
        sums = [t for t, e in m if t.op == "sum" and e == 1]
        if len(sums) == 1:
            t = sums[0]
            rest = tuple(x for x in m if x[0] is not t)
            key = (rest, tuple((d, k) for d, k in t.args[0]), t.args[1])
            kk = (tuple((a.id, b) for a, b in rest), tuple((d.id, k) for d, k in t.args[0]), t.args[1].id)
            groups.setdefault(kk, [key, F_])
            groups[kk][1] = nadd(groups[kk][1], nmul(n, t.args[2]))
        else:
            kk = tuple((a.id, b) for a, b in m)
            groups.setdefault(kk, [m, F_])
            groups[kk][1] = nadd(groups[kk][1], n)
    out = []
    for kk, (key, n) in groups.items():
        if n is F_:
            continue
        bad = c_and(nonzero_cond(n), care)
        if feasible(bad):
            bad = refine(instantiate(bad, key))
            if feasible(bad):
                out.append((key, n, bad))
    return out


def refine(bad):
    """facts about picked indices: the condition holds at the first index where it holds"""
    done = set()
    for _ in range(3):
        todo = {}

        def rec(x, seen):
            if isinstance(x, (Lin, Term, Node)):
                if (type(x).__name__, x.id) in seen:
                    return
                seen.add((type(x).__name__, x.id))
            if isinstance(x, Term):
                if x.op in ("first", "last"):
                    todo[x.id] = x
                    rec(x.args[0], seen)
                    return
                if x.op in ("exists", "sum", "gen", "prefix", "L"):
                    return
                for a in x.args:
                    rec(a, seen)
            elif isinstance(x, Lin):
                for m, n in x.items:
                    rec(n, seen)
                    for t, e in m:
                        rec(t, seen)
            elif isinstance(x, Node):
                for v in support(x):
                    rec(PROPS[v], seen)
            elif isinstance(x, tuple):
                for a in x:
                    rec(a, seen)
        rec(bad, set())
        new = [t for k, t in sorted(todo.items()) if k not in done]
        if not new or len(done) > 40:
            return bad
        for t in new:
            done.add(t.id)
            dom, k, cond = t.args
            j = fresh_index()
            cj = subst_cond(cond, {T("b", k): atom(j)})
            bad = c_and(bad, c_or(c_not(c_exists(dom, j, cj)), subst_cond(cj, {j: atom(t)})))
            if bad is F_:
                return bad
    return bad


def instantiate(bad, key):
    """a sum's bound variables range over its domains: facts about all their
    elements (negated existentials in bad) hold at those variables"""
    if not (key and len(key) == 3 and isinstance(key[2], Lin)):
        return bad
    done = set()
    for _ in range(4):
        fresh = False
        for d, k in key[1]:
            for v in sorted(support(bad)):
                p = PROPS[v]
                if p.op == "exists" and p.args[0] is d and (v, k) not in done:
                    done.add((v, k))
                    fresh = True
                    c = subst_cond(p.args[2], {T("b", p.args[1]): atom(T("b", k))})
                    bad = c_and(bad, c_or(mknode(v, T_, F_), c_not(c)))
        if not fresh:
            break
    return bad


def show_key(key):
    if key and isinstance(key[0], tuple) and len(key) == 3 and isinstance(key[2], Lin):
        rest, doms, body = key
        s = "Sum[" + ", ".join("#%d in %s" % (k, show(d)) for d, k in doms) + "](" + show(body) + ")"
        if rest:
            s = show(mklin({rest: T_})) + "*" + s
        return s
    return show(mklin({key: T_}))
