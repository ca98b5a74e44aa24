"""Value domain of the analysis.

Two hash-consed layers:

* guards   -- decision diagrams (Node) over atomic propositions; a diagram whose
              leaves are numbers is also the type of coefficients,
* values   -- Lin: sums of monomials with guard-valued coefficients.  A value
              "A if c else B" is c*A + (1-c)*B, so the join of two branches is an
              ordinary linear combination and no path is ever enumerated.

Atoms (Term) are uninterpreted except for the algebra built in the smart
constructors below (exp, grad, dot, powers, finite sums over collections).
"""
from fractions import Fraction
import itertools

ZERO, ONE = Fraction(0), Fraction(1)


# --------------------------------------------------------------------------
# decision diagrams
# --------------------------------------------------------------------------
class Node:
    __slots__ = ("var", "hi", "lo", "val", "id", "_fv", "_sup")

    def __repr__(self):
        return "<" + show_cond(self) + ">"


_leaf, _node, _nid = {}, {}, itertools.count()
PROPS = []  # index -> prop (Term)
_prop_ix = {}


def leaf(v):
    v = Fraction(v)
    n = _leaf.get(v)
    if n is None:
        n = Node()
        n.var, n.hi, n.lo, n.val, n.id = None, None, None, v, next(_nid)
        n._fv = frozenset()
        n._sup = frozenset()
        _leaf[v] = n
    return n


F_, T_ = leaf(0), leaf(1)


def mknode(var, hi, lo):
    if hi is lo:
        return hi
    k = (var, hi.id, lo.id)
    n = _node.get(k)
    if n is None:
        n = Node()
        n.var, n.hi, n.lo, n.val, n.id = var, hi, lo, None, next(_nid)
        n._fv = None
        n._sup = None
        _node[k] = n
    return n


def support(n):
    if n._sup is None:
        n._sup = support(n.hi) | support(n.lo) | {n.var}
    return n._sup


def prop(term):
    """guard made of a single proposition"""
    ix = _prop_ix.get(term)
    if ix is None:
        ix = len(PROPS)
        PROPS.append(term)
        _prop_ix[term] = ix
    return mknode(ix, T_, F_)


_ap = {}


def apply2(op, a, b):
    if op == "+":
        if a is F_:
            return b
        if b is F_:
            return a
    elif op == "*":
        if a is F_ or b is F_:
            return F_
        if a is T_:
            return b
        if b is T_:
            return a
    if a.id > b.id and op in "+*|":
        a, b = b, a
    k = (op, a.id, b.id)
    r = _ap.get(k)
    if r is not None:
        return r
    if a.var is None and b.var is None:
        if op == "+":
            r = leaf(a.val + b.val)
        elif op == "*":
            r = leaf(a.val * b.val)
        else:
            r = T_ if (a.val or b.val) else F_
    else:
        v = min(x.var for x in (a, b) if x.var is not None)
        a1, a0 = (a.hi, a.lo) if a.var == v else (a, a)
        b1, b0 = (b.hi, b.lo) if b.var == v else (b, b)
        r = mknode(v, apply2(op, a1, b1), apply2(op, a0, b0))
    _ap[k] = r
    return r


def nadd(a, b):
    return apply2("+", a, b)


def nmul(a, b):
    return apply2("*", a, b)


def c_and(*cs):
    r = T_
    for c in cs:
        r = apply2("*", r, c)
    return r


def c_or(*cs):
    r = F_
    for c in cs:
        r = apply2("|", r, c)
    return r


def c_not(a):
    return apply2("+", T_, apply2("*", leaf(-1), a))


def c_ite(c, a, b):
    return nadd(nmul(c, a), nmul(c_not(c), b))


def cofactor(n, var, val):
    if n.var is None or n.var > var:
        return n
    if n.var == var:
        return n.hi if val else n.lo
    k = ("cf", n.id, var, val)
    r = _ap.get(k)
    if r is None:
        r = mknode(n.var, cofactor(n.hi, var, val), cofactor(n.lo, var, val))
        _ap[k] = r
    return r


def restrict(f, c):
    """generalised cofactor of f by the care set c (Coudert-Madre)"""
    if c is F_ or c is T_ or f.var is None:
        return f
    k = ("rs", f.id, c.id)
    r = _ap.get(k)
    if r is not None:
        return r
    if c.var < f.var:
        r = restrict(f, c_or(c.hi, c.lo))
    elif c.var == f.var:
        if c.hi is F_:
            r = restrict(f.lo, c.lo)
        elif c.lo is F_:
            r = restrict(f.hi, c.hi)
        else:
            r = mknode(f.var, restrict(f.hi, c.hi), restrict(f.lo, c.lo))
    else:
        r = mknode(f.var, restrict(f.hi, c), restrict(f.lo, c))
    _ap[k] = r
    return r


def cond_fv(n):
    if n._fv is None:
        n._fv = cond_fv(n.hi) | cond_fv(n.lo) | PROPS[n.var].fv
    return n._fv


# --------------------------------------------------------------------------
# terms
# --------------------------------------------------------------------------
class Term:
    __slots__ = ("op", "args", "id", "fv", "_bmax", "_unk")

    def __repr__(self):
        return show(self)


_terms, _tid = {}, itertools.count()


def _fv(x):
    if isinstance(x, (Term, Lin)):
        return x.fv
    if isinstance(x, Node):
        return cond_fv(x)
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r = r | _fv(y)
        return r
    return frozenset()


def _key(x):
    if isinstance(x, (Term, Lin, Node)):
        return (type(x).__name__[0], x.id)
    if isinstance(x, tuple):
        return tuple(_key(y) for y in x)
    if isinstance(x, bool):
        return ("bool", x)
    return x


def T(op, *args):
    """interned raw term (no simplification)"""
    k = (op,) + tuple(_key(a) for a in args)
    t = _terms.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.id = op, args, next(_tid)
        t._bmax = None
        t._unk = None
        if op == "i":
            t.fv = frozenset([t])
        else:
            t.fv = _fv(args)
        _terms[k] = t
    return t


class Lin:
    __slots__ = ("items", "id", "fv", "_bmax", "_unk")

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return add(self, o)

    def __sub__(self, o):
        return add(self, scale(o, leaf(-1)))

    def __mul__(self, o):
        return mul(self, o)


_lins, _lid = {}, itertools.count()


def _mkey(mono):
    return tuple((t.id, e) for t, e in mono)


def mklin(d):
    """d: dict mono -> Node"""
    items = tuple(sorted(((m, n) for m, n in d.items() if n is not F_), key=lambda x: _mkey(x[0])))
    k = tuple((_mkey(m), n.id) for m, n in items)
    L = _lins.get(k)
    if L is None:
        L = Lin()
        L.items, L.id = items, next(_lid)
        fv = frozenset()
        for m, n in items:
            fv |= cond_fv(n)
            for t, e in m:
                fv |= t.fv
        L.fv = fv
        L._bmax = None
        L._unk = None
        _lins[k] = L
    return L


def num(x):
    return mklin({(): leaf(x)})


def atom(t):
    return mklin({((t, ONE),): T_})


def add(a, b):
    d = dict(a.items)
    for m, n in b.items:
        d[m] = nadd(d[m], n) if m in d else n
    return mklin(d)


def scale(a, node):
    return mklin({m: nmul(n, node) for m, n in a.items})


def neg(a):
    return scale(a, leaf(-1))


def ite(c, a, b):
    if c is T_:
        return a
    if c is F_:
        return b
    if a is b:
        return a
    return add(scale(a, c), scale(b, c_not(c)))


def lrestrict(L, care):
    if care is T_:
        return L
    return mklin({m: restrict(n, care) for m, n in L.items})


def mono_mul(m1, m2):
    d = {}
    ex = None
    for t, e in m1 + m2:
        if t.op == "exp":
            a = scale(t.args[0], leaf(e))
            ex = a if ex is None else add(ex, a)
        else:
            d[t] = d.get(t, ZERO) + e
    if ex is not None and ex.items:
        t = T("exp", ex)
        d[t] = d.get(t, ZERO) + ONE
    return tuple(sorted(((t, e) for t, e in d.items() if e != 0), key=lambda x: (x[0].id, x[1])))


def mul(a, b):
    d = {}
    for m1, n1 in a.items:
        for m2, n2 in b.items:
            n = nmul(n1, n2)
            if n is F_:
                continue
            m = mono_mul(m1, m2)
            if any(t.op == "lin" and e.denominator == 1 and e > 0 for t, e in m):
                # (a+b)^n with n a positive integer again: expand
                L = num(1)
                for t, e in m:
                    if t.op == "lin" and e.denominator == 1 and e > 0:
                        for _ in range(int(e)):
                            L = mul(L, t.args[0])
                    else:
                        L = mul(L, mklin({((t, e),): T_}))
                for mm, nn in L.items:
                    nn = nmul(nn, n)
                    d[mm] = nadd(d[mm], nn) if mm in d else nn
                continue
            d[m] = nadd(d[m], n) if m in d else n
    return mklin(d)


def is_ground(L):
    return all(n.var is None for m, n in L.items)


def as_num(L):
    """Fraction if L is a literal number else None"""
    if not L.items:
        return ZERO
    if len(L.items) == 1 and L.items[0][0] == () and L.items[0][1].var is None:
        return L.items[0][1].val
    return None


def as_atom(L):
    """Term if L is a single atom else None"""
    if len(L.items) == 1 and L.items[0][1] is T_:
        m = L.items[0][0]
        if len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


class TooBig(Exception):
    pass


def cases(L, care=T_, limit=600):
    """partition: list of (guard, ground Lin), guards disjoint, covering care"""
    if is_ground(L):
        return [(care, L)]
    out = {}
    cnt = [0]

    def rec(items, g, lits):
        cnt[0] += 1
        if cnt[0] > 8000:
            raise TooBig()
        v = None
        for m, n in items:
            if n.var is not None and (v is None or n.var < v):
                v = n.var
        if v is None:
            gl = mklin(dict(items))
            out[gl] = c_or(out[gl], g) if gl in out else g
            return
        for b in (True, False):
            l2 = lits + ((v, b),)
            if not lits_ok(l2):
                continue
            g2 = c_and(g, mknode(v, T_, F_) if b else mknode(v, F_, T_))
            if g2 is F_:
                continue
            rec([(m, cofactor(n, v, b)) for m, n in items], g2, l2)

    rec(list(L.items), care, ())
    if len(out) > limit:
        raise TooBig()
    return [(g, gl) for gl, g in out.items()]


def fmap(fn, *Ls):
    """apply fn(ground Lins...) -> Lin over the joint cases of the arguments"""
    if all(is_ground(L) for L in Ls):
        return fn(*Ls)
    res = num(0)

    def rec(i, g, acc):
        nonlocal res
        if i == len(Ls):
            res = add(res, scale(fn(*acc), g))
            return
        for c, gl in cases(Ls[i]):
            g2 = c_and(g, c)
            if g2 is F_ or not feasible(g2):
                continue
            rec(i + 1, g2, acc + [gl])

    rec(0, T_, [])
    return res


# --------------------------------------------------------------------------
# algebra
# --------------------------------------------------------------------------
def A(op, *args):
    """atom value of an uninterpreted operator applied to values (cases split)"""
    ix = [i for i, a in enumerate(args) if isinstance(a, Lin) and not is_ground(a)]
    if not ix:
        return atom(T(op, *args))

    def fn(*gs):
        a2 = list(args)
        for i, g in zip(ix, gs):
            a2[i] = g
        return atom(T(op, *a2))

    return fmap(fn, *[args[i] for i in ix])


def f_exp(L):
    def fn(g):
        if not g.items:
            return num(1)
        return atom(T("exp", g))

    return fmap(fn, L)


def _content(L):
    """common monomial factor of a ground Lin (exp factors: those of the
    smallest monomial once the other factors are removed)"""
    common = None
    for m, n in L.items:
        d = {t: e for t, e in m if t.op != "exp"}
        if common is None:
            common = d
        else:
            common = {t: min(e, d[t]) for t, e in common.items() if t in d}
    common = common or {}
    inv = tuple((t, -e) for t, e in sorted(common.items(), key=lambda x: x[0].id))
    rest = {mono_mul(m, inv): n for m, n in L.items}
    # exp part
    best = None
    for m in rest:
        ne = tuple((t, e) for t, e in m if t.op != "exp")
        ex = [t for t, e in m if t.op == "exp"]
        k = (len(ne), _mkey(ne))
        if best is None or k < best[0]:
            best = (k, ex)
    cm = tuple((t, e) for t, e in sorted(common.items(), key=lambda x: x[0].id))
    if best and best[1]:
        e = best[1][0]
        iv = ((T("exp", neg(e.args[0])), ONE),)
        rest = {mono_mul(m, iv): n for m, n in rest.items()}
        cm = mono_mul(cm, ((e, ONE),))
    return cm, mklin(rest)


def power(base, ex):
    def fn(b, e):
        q = as_num(e)
        if q is None:
            return atom(T("pow", b, e))
        if q == 0:
            return num(1)
        if q == 1:
            return b
        bn = as_num(b)
        if bn is not None:
            if bn == 0:
                return num(0) if q > 0 else atom(T("pow", b, e))
            if q.denominator == 1 and abs(q) < 64:
                return num(bn ** int(q))
            if bn > 0:
                return mklin({((T("num", bn), q),): T_})
            return atom(T("pow", b, e))
        if len(b.items) == 1:
            m, n = b.items[0]
            c = n.val
            if q.denominator == 1:
                mm = ()
                for t, ee in m:
                    mm = mono_mul(mm, ((t, ee * q),))
                return mklin({mm: leaf(c ** int(q))})
            if c > 0:
                mm = ()
                for t, ee in m:
                    mm = mono_mul(mm, ((t, ee * q),))
                r = mklin({mm: T_})
                if c != 1:
                    r = mul(r, mklin({((T("num", c), q),): T_}))
                return r
            return mklin({((T("lin", b), q),): T_})
        if q.denominator == 1 and 1 < q <= 4:
            r = b
            for _ in range(int(q) - 1):
                r = mul(r, b)
            return r
        cm, rest = _content(b)
        k = ONE
        if q.denominator == 1:
            k = rest.items[0][1].val
            rest = scale(rest, leaf(1 / k))
            k = k ** int(q)
        mm = ()
        for t, ee in cm:
            mm = mono_mul(mm, ((t, ee * q),))
        return mul(mklin({mm: leaf(k)}), mklin({((T("lin", rest), q),): T_}))

    return fmap(fn, base, ex)


def div(a, b):
    return mul(a, power(b, num(-1)))


VECTOR_OPS = ("grad", "FacetNormal")


def is_vec(t):
    return t.op == "grad" or (t.op == "call" and t.args[0] == "fenics.FacetNormal") or \
        (t.op in ("attr", "item") and t.args[-1] == "n")


def f_grad(L):
    """gradient as a derivation"""
    d = num(0)
    for m, n in L.items:
        for k, (t, e) in enumerate(m):
            rest = m[:k] + m[k + 1:]
            if t.op == "exp":
                g = mul(f_grad(t.args[0]), mklin({((t, ONE),): leaf(e)}))
            elif t.op == "lin":
                g = mul(f_grad(t.args[0]), mklin({((t, e - 1),): leaf(e)}) if e != 1 else num(1))
            elif t.op == "num" or (t.op == "sym" and t.args[0] in ("k_B", "R", "pi")):
                continue
            else:
                g = atom(T("grad", atom(t)))
                if e != 1:
                    g = mul(g, mklin({((t, e - 1),): leaf(e)}))
            d = add(d, scale(mul(g, mklin({rest: T_})), n))
    return d


def f_dot(a, b):
    r = num(0)
    for m1, n1 in a.items:
        v1 = [x for x in m1 if is_vec(x[0]) and x[1] == 1]
        s1 = tuple(x for x in m1 if not (is_vec(x[0]) and x[1] == 1))
        for m2, n2 in b.items:
            v2 = [x for x in m2 if is_vec(x[0]) and x[1] == 1]
            s2 = tuple(x for x in m2 if not (is_vec(x[0]) and x[1] == 1))
            n = nmul(n1, n2)
            if n is F_:
                continue
            if len(v1) == 1 and len(v2) == 1:
                p, q = sorted((v1[0][0], v2[0][0]), key=lambda t: t.id)
                r = add(r, scale(mul(mklin({mono_mul(s1, s2): T_}), atom(T("dot", atom(p), atom(q)))), n))
            elif not v1 and not v2:
                # inner(u, v) of scalars
                r = add(r, mklin({mono_mul(m1, m2): n}))
            else:
                r = add(r, scale(atom(T("dot", mklin({m1: T_}), mklin({m2: T_}))), n))
    return r


def bmax(x):
    """largest bound-variable index inside x"""
    if isinstance(x, (Term, Lin)):
        if x._bmax is None:
            if isinstance(x, Term):
                x._bmax = x.args[0] if x.op == "b" else bmax(x.args)
            else:
                r = 0
                for m, n in x.items:
                    r = max(r, bmax(n))
                    for t, e in m:
                        r = max(r, bmax(t))
                x._bmax = r
        return x._bmax
    if isinstance(x, Node):
        return max([bmax(PROPS[v]) for v in support(x)], default=0)
    if isinstance(x, tuple):
        return max([bmax(y) for y in x], default=0)
    return 0


def unknowns(x, acc=None):
    """set of markers of constructs the analysis does not model, inside x"""
    if isinstance(x, (Term, Lin)):
        if x._unk is None:
            if isinstance(x, Term):
                r = unknowns(x.args)
                if x.op == "unk":
                    r = r | {x.args[0]}
                x._unk = r
            else:
                r = frozenset()
                for m, n in x.items:
                    r |= unknowns(n)
                    for t, e in m:
                        r |= unknowns(t)
                x._unk = r
        return x._unk
    if isinstance(x, Node):
        r = frozenset()
        for v in support(x):
            r |= unknowns(PROPS[v])
        return r
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= unknowns(y)
        return r
    return frozenset()


# --------------------------------------------------------------------------
# propositions
# --------------------------------------------------------------------------
def const_of(L):
    """('num',q) / ('str',s) / ('none',) / ('bool',b) / class constant, or None"""
    q = as_num(L)
    if q is not None:
        return ("num", q)
    t = as_atom(L)
    if t is not None and t.op in ("str", "none", "true", "false", "class"):
        return (t.op,) + tuple(t.args)
    return None


NONE = atom(T("none"))
TRUE = atom(T("true"))
FALSE = atom(T("false"))


def mkstr(s):
    return atom(T("str", s))


def mkbool(c):
    return ite(c, TRUE, FALSE)


def lead(p):
    """(scale, linear part without constant scaled to leading coeff 1, constant)"""
    nc = [(m, n) for m, n in p.items if m != ()]
    if not nc:
        return None
    k = nc[0][1].val
    return k


SUM_HOOK = [None]
LEN_HOOK = [None]


COUNTS = ("num_sub_spaces", "num_cells", "num_vertices", "num_facets")


def is_len(t):
    """a whole number that is not negative"""
    return t.op == "len" or (t.op == "mcall" and t.args[1] in COUNTS)


def nonneg(t):
    """a term that cannot be negative: a length, a count, a sum of such"""
    if t.op == "count" or is_len(t):
        return True
    if t.op == "sum":
        return (all(n.var is None and n.val > 0 and all(e > 0 and nonneg(x) for x, e in m) for m, n in t.args[1].items)
                and leaves(t.args[2]) <= {0, 1})
    return False


def mono_pos(m):
    r = T_
    for t, e in m:
        r = c_and(r, SUM_HOOK[0](t) if t.op == "sum" else prop(T("pos", mklin({((t, ONE),): T_}))))
    return r


def counting(L):
    """sum of non-negative counts with positive coefficients, at least one a sum"""
    nc = [(m, n) for m, n in L.items if m != ()]
    return (any(t.op == "sum" for m, n in nc for t, e in m) or len(nc) > 1) and all(
        n.val > 0 and all(e > 0 and nonneg(t) for t, e in m) for m, n in nc)


def c_pos(L):
    """L > 0 for ground L"""
    q = as_num(L)
    if q is not None:
        return T_ if q > 0 else F_
    for m, n in L.items:
        if len(m) == 1 and m[0][0].op == "nunique" and abs(n.val) == 1 and m[0][1] == 1:
            # at most as many distinct elements as there are elements
            size = LEN_HOOK[0](m[0][0].args[0])
            if n.val == -1 and (L - (size - mklin({m: T_}))) is num(0):
                return c_not(c_zero(L))
            if n.val == 1 and (L + (size - mklin({m: T_}))) is num(0):
                return F_
    cst = [n.val for m, n in L.items if m == ()]
    if not cst or cst[0] > 0:
        if counting(L):
            return T_ if cst else c_or(*[mono_pos(m) for m, n in L.items])
    if not cst or cst[0] < 0:
        if counting(neg(L)):
            return F_
    at = [(m, n) for m, n in L.items if m != ()]
    # lengths and counts are non negative
    k = lead(L)
    p = scale(L, leaf(1 / abs(k)))
    if k > 0:
        if len(p.items) == 1 and as_atom(p) is not None and is_len(as_atom(p)):
            return prop(T("pos", p))
        if len(at) == 1 and is_len(at[0][0][0][0]) and len(at[0][0]) == 1 and at[0][0][0][1] == 1:
            c0 = [n.val for m, n in p.items if m == ()]
            if c0 and c0[0] > 0:
                return T_
            if c0 and c0[0] > -1:
                return prop(T("pos", mklin({at[0][0]: T_})))
        return prop(T("pos", p))
    p = neg(p)
    return c_and(c_not(prop(T("pos", p))), c_not(c_zero(p)))


def c_zero(p):
    q = as_num(p)
    if q is not None:
        return T_ if q == 0 else F_
    if not any(m == () for m, n in p.items):
        if counting(p):
            return c_not(c_pos(p))
        if counting(neg(p)):
            return c_not(c_pos(neg(p)))
    k = lead(p)
    p = scale(p, leaf(1 / k))
    nc = [(m, n) for m, n in p.items if m != ()]
    cst = [n.val for m, n in p.items if m == ()]
    if len(nc) == 1 and len(nc[0][0]) == 1 and nc[0][0][0][1] == 1:
        return c_eq_g(mklin({nc[0][0]: T_}), num(-cst[0] if cst else 0))
    if len(nc) == 2 and not cst and nc[1][1].val == -1:
        return c_eq_g(mklin({nc[0][0]: T_}), mklin({nc[1][0]: T_}))
    return prop(T("eq", p, num(0)))


FINITE = {"solubility_law": ("sievert", "henry"), "type": ("cartesian", "cylindrical", "spherical")}


def picked(t):
    """an element found by looking at an attribute of the elements is not None"""
    i = as_atom(t.args[1])
    if i is None or i.op not in ("first", "last") or i.args[0] is not t.args[0]:
        return False
    el = T("elem", t.args[0], atom(T("b", i.args[1])))
    for v in support(i.args[2]):
        seen, todo = set(), [PROPS[v]]
        while todo:
            x = todo.pop()
            if isinstance(x, Term):
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "attr" and as_atom(x.args[0]) is el:
                    return True
                todo.extend(y for y in x.args if isinstance(y, (Term, Lin, tuple)))
            elif isinstance(x, Lin):
                todo.extend(y for m, n in x.items for y, e in m)
            elif isinstance(x, tuple):
                todo.extend(y for y in x if isinstance(y, (Term, Lin, tuple)))
    return False


def c_eq_g(a, b):
    if a is b:
        return T_
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is not None:
        if ca[0] in ("true", "false", "num") and cb[0] in ("true", "false", "num"):
            f = lambda c: c[1] if c[0] == "num" else (1 if c[0] == "true" else 0)
            return T_ if f(ca) == f(cb) else F_
        return T_ if ca == cb else F_
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        if cb[0] == "true":
            return c_truth_g(a)
        if cb[0] == "false":
            return c_not(c_truth_g(a))
        ta = as_atom(a)
        if ta is not None and ta.op == "attr" and ta.args[1] in FINITE and cb[0] in ("str", "none"):
            # one of the values its constructor accepts
            vals = FINITE[ta.args[1]]
            if cb[0] == "none" or cb[1] not in vals:
                return F_
            if cb[1] == vals[-1]:
                return c_and(*[c_not(prop(T("eq", a, mkstr(x)))) for x in vals[:-1]])
        if ta is not None and cb[0] == "none" and ta.op == "elem" and picked(ta):
            return F_
        if ta is not None and ta.op in ("new", "L", "pyobj", "func"):
            return F_
        if ta is not None and cb[0] == "none" and (is_len(ta) or ta.op in ("sorted", "rev", "strof", "alloc", "niter")):
            return F_
        if ta is None and cb[0] in ("none", "str"):
            return F_  # an arithmetic result
        if cb[0] == "num" and cb[1] == 0 and (counting(a) or counting(neg(a))):
            return c_zero(a)
        if ta is None and cb[0] == "num":
            d = a - b
            nc = [(m, n) for m, n in d.items if m != ()]
            if len(nc) != 1 or len(nc[0][0]) != 1 or nc[0][0][0][1] != 1:
                k = lead(d)
                return prop(T("eq", scale(d, leaf(1 / k)), num(0)))
            if nc[0][1].val != 1:
                return c_zero(d)
        if ta is not None and is_len(ta) and cb[0] == "num":
            if cb[1] == 0:
                return c_not(c_pos(a))
            if cb[1] < 0:
                return F_
        return prop(T("eq", a, b))
    ta, tb = as_atom(a), as_atom(b)
    if ta is not None and tb is not None and ta.op == "new" and tb.op == "new":
        return F_
    if a.id > b.id:
        a, b = b, a
    if ta is None or tb is None:
        d = a - b
        k = lead(d)
        if k is not None:
            d = scale(d, leaf(1 / k))
            nc = [(m, n) for m, n in d.items if m != ()]
            simple = len(nc) == 2 and len(nc) == len(d.items) and nc[1][1].val == -1
            if not simple:
                return prop(T("eq", d, num(0)))
    return prop(T("eq", a, b))


TRUTH_HOOK = [None]


def c_truth_g(g):
    q = as_num(g)
    if q is not None:
        return T_ if q != 0 else F_
    t = as_atom(g)
    if t is None:
        return c_not(c_zero(g))
    if t.op == "true":
        return T_
    if t.op in ("false", "none"):
        return F_
    if t.op == "str":
        return T_ if t.args[0] else F_
    if t.op in ("new", "func", "pyobj", "class", "module"):
        if TRUTH_HOOK[0]:
            r = TRUTH_HOOK[0](t)
            if r is not None:
                return r
        return T_
    if t.op == "count" or is_len(t):
        return c_pos(g)
    if TRUTH_HOOK[0]:
        r = TRUTH_HOOK[0](t)
        if r is not None:
            return r
    return prop(T("truthy", g))


def lift(fn, *Ls):
    """guard-valued function of ground Lins lifted to arbitrary Lins"""
    if all(is_ground(L) for L in Ls):
        return fn(*Ls)
    res = F_

    def rec(i, g, acc):
        nonlocal res
        if i == len(Ls):
            res = c_or(res, c_and(g, fn(*acc)))
            return
        for c, gl in cases(Ls[i]):
            g2 = c_and(g, c)
            if g2 is F_ or not feasible(g2):
                continue
            rec(i + 1, g2, acc + [gl])

    rec(0, T_, [])
    return res


def c_eq(a, b):
    return lift(c_eq_g, a, b)


def c_lt(a, b):
    return lift(lambda x, y: c_pos(y - x), a, b)


def c_truth(a):
    return lift(c_truth_g, a)


# --------------------------------------------------------------------------
# theory: which sets of literals are contradictory
# --------------------------------------------------------------------------
SUBCLASS_HOOK = [lambda a, b: False]  # is a a subclass of b
COMMON_HOOK = [lambda a, b: True]  # can an object be instance of both


def _const_truth(c):
    if c[0] == "num":
        return c[1] != 0
    if c[0] == "str":
        return bool(c[1])
    return c[0] == "true" or c[0] == "class"


def _const_inst(c, cls):
    if c[0] == "num":
        if cls in ("int", "float"):
            return None
        return False
    if c[0] == "str":
        return cls == "str"
    if c[0] in ("none",):
        return False
    return None


_lits_memo = {}


def lits_ok(lits):
    """False when the literals (var, bool) contradict each other"""
    key = tuple(sorted(lits))
    r = _lits_memo.get(key)
    if r is None:
        r = _lits_ok(key)
        _lits_memo[key] = r
    return r


def _lits_ok(lits):
    eqc, neq, inst, ninst, truth, call = {}, {}, {}, {}, {}, {}
    bounds = {}
    ex_t, ex_f = [], []
    eqs, same = {}, []
    for v, b in lits:
        p = PROPS[v]
        if p.op == "eq":
            c = const_of(p.args[1])
            if c is not None:
                x = p.args[0]
                if b:
                    if x in eqc and eqc[x] != c:
                        return False
                    eqc[x] = c
                else:
                    neq.setdefault(x, []).append(c)
            else:
                if b:
                    same.append((p.args[0], p.args[1]))
                eqs[p] = b
        elif p.op == "isinst":
            (inst if b else ninst).setdefault(p.args[0], []).append(p.args[1])
        elif p.op == "truthy":
            truth[p.args[0]] = b
        elif p.op == "callable":
            call[p.args[0]] = b
        elif p.op == "pos":
            q = p.args[0]
            k = [n.val for m, n in q.items if m == ()]
            k = k[0] if k else ZERO
            lin = mklin({m: n for m, n in q.items if m != ()})
            bounds.setdefault(lin, []).append((k, b))
        elif p.op == "exists":
            (ex_t if b else ex_f).append(p)
    for x, c in eqc.items():
        if c in neq.get(x, ()):
            return False
        if x in truth and c[0] != "class" and truth[x] != _const_truth(c):
            return False
        if x in call and call[x] and c[0] in ("num", "str", "none"):
            return False
        for cl in inst.get(x, ()):
            if _const_inst(c, cl) is False:
                return False
        for cl in ninst.get(x, ()):
            if _const_inst(c, cl) is True:
                return False
        if x in bounds and c[0] == "num":
            for k, b in bounds[x]:
                if ((c[1] + k) > 0) != b:
                    return False
        if x in bounds and c[0] in ("none", "str"):
            return False
    if same:
        par = {}

        def find(x):
            while x in par:
                x = par[x]
            return x
        for a, b_ in same:
            ra, rb = find(a), find(b_)
            if ra is not rb:
                par[ra] = rb
        cc = {}
        for x, c in eqc.items():
            r = find(x)
            if r in cc and cc[r] != c:
                return False
            cc[r] = c
        for x, cs in neq.items():
            if cc.get(find(x)) in cs:
                return False
        for p, b in eqs.items():
            if not b and find(p.args[0]) is find(p.args[1]):
                return False
    for a, b_ in same:
        if a in eqc and b_ in eqc and eqc[a] != eqc[b_]:
            return False
        if a in eqc and eqc[a] in neq.get(b_, ()):
            return False
        if b_ in eqc and eqc[b_] in neq.get(a, ()):
            return False
        d = a - b_
        nd = neg(d)
        for dd in (d, nd):
            k = lead(dd)
            if k is None:
                continue
            kk = [n.val for m, n in dd.items if m == ()]
            lin = mklin({m: n for m, n in dd.items if m != ()})
            if lin in bounds:
                for k2, b in bounds[lin]:
                    # lin == -kk ; pos(lin + k2)
                    if ((k2 - (kk[0] if kk else 0)) > 0) != b:
                        return False
    for x, cls in inst.items():
        for i in range(len(cls)):
            for j in range(i):
                if not COMMON_HOOK[0](cls[i], cls[j]):
                    return False
            for n in ninst.get(x, ()):
                if SUBCLASS_HOOK[0](cls[i], n):
                    return False
            if call.get(x) and cls[i] in ("int", "float", "str", "list", "dict", "bool", "sympy.Expr"):
                return False
    for lin, bs in bounds.items():
        lo, hi = None, None  # lin > -k  => lo ; lin <= -k => hi
        for k, b in bs:
            if b:
                lo = -k if lo is None else max(lo, -k)
            else:
                hi = -k if hi is None else min(hi, -k)
        if lo is not None and hi is not None and lo >= hi:
            return False
        # equality to a constant already handled; integrality of len
        ta = as_atom(lin)
        if ta is not None and is_len(ta) and lo is not None and hi is not None and hi - lo < 1 and int(hi) <= lo:
            return False
        # pos(lin) true and eq(lin,0)
        for e, b in eqs.items():
            pass
    for t in ex_t:
        from .subst import subst_cond
        fs = [f for f in ex_f if f.args[0] is t.args[0]]
        if fs:
            k = max([max(bmax(x.args[2]), x.args[1]) for x in fs + [t]]) + 1
            nv = atom(T("b", k))
            c = subst_cond(t.args[2], {T("b", t.args[1]): nv})
            for f in fs:
                c = c_and(c, c_not(subst_cond(f.args[2], {T("b", f.args[1]): nv})))
            if not feasible(c):
                return False
        ln = atom(T("len", t.args[0]))
        if ln in bounds:
            for k, b in bounds[ln]:
                if k <= 0 and not b and k > -1:
                    return False
        # what has elements is neither empty nor None
        if truth.get(t.args[0]) is False or eqc.get(t.args[0], ("",))[0] == "none":
            return False
    for lin, bs in bounds.items():
        ta = as_atom(lin)
        if ta is not None and ta.op == "len" and isinstance(ta.args[0], Lin):
            x = ta.args[0]
            if eqc.get(x, ("",))[0] == "none" and any(b and k <= 0 for k, b in bs):
                return False
            if x in truth and any((b and k <= 0 and truth[x] is False) or (not b and -1 < k <= 0 and truth[x]) for k, b in bs):
                return False
    return True


_feas = {}


def feasible(n):
    """some assignment of n's propositions that satisfies n is consistent"""
    if n is T_:
        return True
    if n is F_:
        return False
    r = _feas.get(n.id)
    if r is not None:
        return r
    cnt = [0]

    def rec(m, lits):
        cnt[0] += 1
        if cnt[0] > 20000:
            return True
        if m.var is None:
            return m.val != 0
        for b, ch in ((True, m.hi), (False, m.lo)):
            if ch is F_:
                continue
            l2 = lits + ((m.var, b),)
            if not lits_ok(l2):
                continue
            if rec(ch, l2):
                return True
        return False

    r = rec(n, ())
    _feas[n.id] = r
    return r


def witness(n):
    """a consistent set of literals satisfying n (for reports); None: none found"""
    cnt = [0]

    def rec(m, lits):
        cnt[0] += 1
        if cnt[0] > 60000:
            return None
        if m.var is None:
            return lits if m.val != 0 else None
        for b, ch in ((True, m.hi), (False, m.lo)):
            if ch is F_:
                continue
            l2 = lits + ((m.var, b),)
            if not lits_ok(l2):
                continue
            r = rec(ch, l2)
            if r is not None:
                return r
        return None
    return rec(n, ())


def equiv(a, b, care=T_):
    if a is b:
        return True
    x = c_or(c_and(a, c_not(b)), c_and(c_not(a), b))
    return not feasible(c_and(x, care))


_canon = {}


def canon(n):
    """drop propositions made redundant by the theory"""
    if n.var is None:
        return n
    r = _canon.get(n.id)
    if r is not None:
        return r
    cur = n
    if len(support(n)) <= 10:
        if not feasible(n) and all(x in (0, 1) for x in leaves(n)):
            cur = F_
        changed = True
        while changed and cur.var is not None:
            changed = False
            for v in sorted(support(cur)):
                for b in (False, True):
                    cand = cofactor(cur, v, b)
                    if nequiv(cand, cur):
                        cur = cand
                        changed = True
                        break
                if changed:
                    break
    _canon[n.id] = cur
    return cur


def leaves(n, acc=None):
    acc = set() if acc is None else acc
    if n.var is None:
        acc.add(n.val)
    else:
        leaves(n.hi, acc)
        leaves(n.lo, acc)
    return acc


def nonzero_cond(n):
    """guard: n != 0"""
    if n.var is None:
        return T_ if n.val != 0 else F_
    return mknode(n.var, nonzero_cond(n.hi), nonzero_cond(n.lo))


def nequiv(a, b):
    d = nadd(a, nmul(leaf(-1), b))
    return not feasible(nonzero_cond(d))


# --------------------------------------------------------------------------
# printing
# --------------------------------------------------------------------------
def show_frac(q):
    if q.denominator == 1:
        return str(q.numerator)
    f = float(q)
    return "%g" % f


def show_cond(n, top=True):
    if n.var is None:
        return {0: "false", 1: "true"}.get(n.val, show_frac(n.val))
    out = []

    def rec(m, lits):
        if m.var is None:
            if m.val != 0:
                s = " and ".join(("" if b else "not ") + show(PROPS[v]) for v, b in lits) or "true"
                if m.val != 1:
                    s = show_frac(m.val) + "*[" + s + "]"
                out.append(s)
            return
        if len(out) > 6:
            return
        rec(m.hi, lits + [(m.var, True)])
        rec(m.lo, lits + [(m.var, False)])

    rec(n, [])
    s = " or ".join(out[:6]) + (" ..." if len(out) > 6 else "")
    return s


def show(x):
    if isinstance(x, Node):
        return show_cond(x)
    if isinstance(x, tuple):
        return "(" + ", ".join(show(y) for y in x) + ")"
    if isinstance(x, Lin):
        if not x.items:
            return "0"
        parts = []
        for m, n in x.items:
            ms = "*".join(show(t) + ("" if e == 1 else "**%s" % (show_frac(e) if e > 0 else "(" + show_frac(e) + ")")) for t, e in m)
            if n.var is None:
                if n.val == 1 and ms:
                    parts.append(ms)
                elif n.val == -1 and ms:
                    parts.append("-" + ms)
                else:
                    parts.append(show_frac(n.val) + ("*" + ms if ms else ""))
            else:
                parts.append("[" + show_cond(n) + "]" + ("*" + ms if ms else ""))
        return " + ".join(parts)
    if not isinstance(x, Term):
        return str(x)
    o, a = x.op, x.args
    if o in ("var", "i", "sym"):
        return str(a[0]) if o != "i" else "i%s" % a[0]
    if o == "b":
        return "#%d" % a[0]
    if o == "str":
        return repr(a[0])
    if o == "none":
        return "None"
    if o == "attr":
        return show(a[0]) + "." + str(a[1])
    if o == "elem":
        return show(a[0]) + "[" + show(a[1]) + "]"
    if o == "eq":
        return "(%s == %s)" % (show(a[0]), show(a[1]))
    if o == "pos":
        return "(%s > 0)" % show(a[0])
    if o == "isinst":
        return "isinstance(%s, %s)" % (show(a[0]), a[1])
    if o == "truthy":
        return "bool(%s)" % show(a[0])
    if o == "call":
        return str(a[0]).replace("fenics.", "") + "(" + ", ".join(show(y) for y in a[1]) + "".join(
            ", %s=%s" % (k, show(v)) for k, v in a[2]) + ")"
    if o == "mcall":
        return show(a[0]) + "." + str(a[1]) + "(" + ", ".join(show(y) for y in a[2]) + "".join(
            ", %s=%s" % (k, show(v)) for k, v in a[3]) + ")"
    if o == "meas":
        return show(a[0]) + "(" + show(a[1]) + ")"
    if o == "lin":
        return "(" + show(a[0]) + ")"
    if o == "exists":
        return "exists #%d in %s: (%s)" % (a[1], show(a[0]), show(a[2]))
    if o == "sum":
        return "Sum[%s | %s](%s)" % (", ".join("#%d in %s" % (k, show(d)) for d, k in a[0]), show(a[2]), show(a[1]))
    if o == "class":
        return str(a[0])
    if o == "pyobj":
        return "<%s>" % (a[1],)
    if o == "new":
        return "new " + str(a[0])
    return o + "(" + ", ".join(show(y) for y in a) + ")"
