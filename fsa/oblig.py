"""Obligations: one comparison of an analysed value with its reference law."""
import os
import time
from .harness import *
from .harness import NODE
from . import harness as H, subst as S

# library functions that only rearrange data: code may use them to say the same thing in another
# way, so that a difference that involves one the engine has no meaning for decides nothing
PLUMBING = ("itertools.", "functools.", "operator.", "copy.", "collections.", "os.", "pathlib.", "re.", "string.",
            "types.", "inspect.", "contextlib.", "dataclasses.", "enum.", "typing.", "json.", "csv.", "shutil.", "warnings.")
BUILTIN = {"iter", "next", "reversed", "map", "filter", "vars", "getattr", "setattr", "dict", "frozenset", "divmod", "zip",
           "enumerate", "set", "tuple", "list", "type", "slice", "id", "hash", "repr", "format", "all", "any", "sum", "dir"}
ARRAYS = {"concatenate", "append", "vstack", "stack", "dstack", "r_", "c_", "asarray", "atleast_1d", "atleast_2d", "full",
          "empty", "zeros", "ones", "zeros_like", "ones_like", "full_like", "empty_like", "arange", "ravel", "reshape", "flip",
          "sort", "argsort", "where", "nonzero", "flatnonzero", "isin", "in1d", "union1d", "intersect1d", "setdiff1d", "diff",
          "fromiter", "vectorize", "searchsorted", "insert", "delete", "copy", "array_equal", "ndarray", "unravel_index",
          "meshgrid", "squeeze", "expand_dims", "take", "choose", "select", "piecewise", "savetxt", "genfromtxt", "split"}
METHODS = {"join", "format", "startswith", "partition", "rpartition", "rsplit", "splitlines", "get", "items", "values",
           "setdefault", "update", "copy", "tolist", "flatten", "ravel", "reshape", "count", "pop", "popitem", "fromkeys",
           "union", "intersection", "difference", "issubset", "issuperset", "symmetric_difference", "removeprefix",
           "removesuffix", "isnumeric", "isdecimal", "__len__", "__iter__", "__getitem__", "__contains__", "mro", "as_posix",
           "with_suffix", "mkdir", "is_dir", "is_file", "__class__", "format_map", "find", "rfind", "nonzero", "T", "has", "subs", "xreplace", "evalf", "atoms", "free_symbols"}


def plumbing(w):
    kind, _, name = w.partition(" ")
    if kind == "slice?":
        return True
    if kind in ("call", "ext"):
        if name.startswith(PLUMBING) and name != "os.mkdir" or name in BUILTIN:
            return True
        if name in ("sp.sympify", "sp.S", "sp.lambdify", "sp.simplify", "sp.expand", "sympy.sympify"):
            return True
        mod, _, f = name.rpartition(".")
        return mod in ("np", "numpy") and f in ARRAYS
    return kind in ("mcall", "vcall") and name in METHODS


SEEN = set()


def words(x, seen=None, out=None):
    """external operations occurring in a value"""
    seen = set() if seen is None else seen
    out = set() if out is None else out
    if isinstance(x, (Lin, Term, Node)):
        k = (type(x).__name__, x.id)
        if k in seen:
            return out
        seen.add(k)
    if isinstance(x, Term):
        if x.op == "slice" and not all(b is NONE or as_num(b) is not None for b in x.args[1:3]):
            out.add("slice?")
        if x.op == "call":
            out.add("call " + str(x.args[0]))
        elif x.op in ("mcall", "vcall"):
            out.add(x.op + " " + str(x.args[1]))
        elif x.op == "ext":
            out.add("ext " + x.args[0])
        else:
            out.add(x.op)
        for a in x.args:
            words(a, seen, out)
    elif isinstance(x, Lin):
        for m, n in x.items:
            words(n, seen, out)
            for t, e in m:
                words(t, seen, out)
    elif isinstance(x, Node):
        for v in core.support(x):
            words(PROPS[v], seen, out)
    elif isinstance(x, tuple):
        for a in x:
            words(a, seen, out)
    return out


class Check:
    """collects the obligations of one property"""

    vocabulary = frozenset()    # operations of the reference in other configurations

    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.results = []
        self.analysed = set()
        self.notes = set()
        self.seen, self.keep = set(), []
        self.part = 0
        self.t0 = time.time()

    def add(self, name, status, where="", detail=(), construct=""):
        self.results.append(dict(part=self.part, name=name, status=status, where=where, detail=list(detail), construct=construct))

    def use(self, *runs):
        for r in runs:
            if r is not None:
                self.analysed |= r.it.analysed
                self.notes |= r.it.notes
                self.untouched(r)

    def untouched(self, r):
        """no statement overwrites values of a field, of markers or of a mesh in place (assigning one
        function to another, solving and reading a file are operations of their own)"""
        name = "values are not overwritten in place"
        for e in r.it.events:
            if e.kind == "tamper" and e.func is not None and not e.func.module.name.startswith("spec_") and feasible(S.refine(e.g)):
                k = ("tamper", e.func.qual, e.line)
                if k not in self.seen:
                    self.seen.add(k)
                    self.add(name, "violated", "%s:%d %s" % (e.func.module.rel, e.line, e.func.qual),
                             ["%s on the values of %s when %s" % (e.name, cut(show(e.args[0])), cut(show_cond(e.g), 300))], "statement")
        if "tamper" not in self.seen:
            self.seen.add("tamper")
            if not any(x["name"] == name for x in self.results):
                self.add(name, "holds", self.at(r))

    # -- helpers -------------------------------------------------------------
    def guarded(self, name, fn, where=""):
        """an analyser limitation or a renamed anchor is 'undecided'"""
        try:
            return fn()
        except Missing as e:
            self.add(name, "undecided", where, ["the anchor is gone: %s" % e])
        except (TooBig, RecursionError, core_unsupported) as e:
            self.add(name, "undecided", where, ["analysis gave up: %s %s" % (type(e).__name__, e)])
        except Exception as e:
            if os.environ.get("FSA_DEBUG"):
                raise
            self.add(name, "undecided", where, ["analysis failed: %s %s" % (type(e).__name__, e)])

    def undecidable(self, x, want=()):
        w = words(x)
        ref = words(want) | self.vocabulary
        SEEN.update(w)
        bad = [z for z in w if z == "unk" or z == "undef"]
        bad += sorted(z for z in w - ref if plumbing(z))
        return bad

    def equal(self, name, got, want, care=T_, fi=None, what="value"):
        where = self.at(fi)
        if os.environ.get("FSA_VAC") and (not feasible(care) or not diff_terms(want, care)):
            print("VACUOUS", self.pid, name, "care" if not feasible(care) else "zero")
        d = got - want
        left = diff_terms(d, care)
        if not left:
            SEEN.update(words(got))
            SEEN.update(words(want))
            self.add(name, "holds", where)
            return True
        bad = set()
        for key, n, cond in left:
            bad |= set(self.undecidable((flat_key(key), n), want))
        det = []
        for key, n, cond in left[:4]:
            w = core.witness(cond)
            if w is None:
                bad.add("no witness found")
                w = ()
            det.append("term %s: code minus reference has coefficient %s, e.g. when %s" % (
                cut(show_key(key)), cut(show_cond(n), 200), cut(" and ".join(("" if b else "not ") + show(PROPS[v]) for v, b in w), 300) or "always"))
        if bad:
            self.add(name, "undecided", where, ["outside the modelled operations: %s" % sorted(bad)[:6]] + det)
            return None
        self.add(name, "violated", where, det, what)
        return False

    def completes(self, name, r, care, fi=None):
        """the code does not refuse what the reference accepts"""
        x = c_and(care, c_not(r.g))
        if feasible(x):
            x = S.refine(x)
        if not feasible(x):
            self.add(name + " (accepted)", "holds", self.at(fi or r))
            return True
        det, bad = [], set()
        for q in r.it.raises:
            if feasible(c_and(q.g, care)):
                bad |= set(self.undecidable(q.g))
                det.append("%s raised at %s when %s" % (q.exc, getattr(q, "where", "line %s" % q.line), cut(show_cond(q.g), 300)))
        if bad or not det:
            self.add(name + " (accepted)", "undecided", self.at(fi or r), det)
            return None
        self.add(name + " (accepted)", "violated", self.at(fi or r), det[:3], "exception")
        return False

    def both(self, r, s, *extra):
        """guard under which code and reference both complete; the code has to complete
        wherever the reference does"""
        k = (id(r), id(s)) + tuple(x.id for x in extra)
        if k not in self.seen:
            self.seen.add(k)
            self.keep.append((r, s))
            fi = r.fi if not r.fi.module.name.startswith("spec_") else None
            name = "%s is not refused" % (fi.qual if fi else "the call in %s" % r.fi.qual)
            n = sum(1 for x in self.results if x["name"].startswith(name))
            self.completes(name + (" #%d" % (n + 1) if n else ""), r, c_and(s.g, *extra), r)
        return c_and(r.g, s.g, *extra)

    def same_cond(self, name, got, want, care=T_, fi=None, what="condition"):
        where = self.at(fi)
        x = c_or(c_and(got, c_not(want)), c_and(c_not(got), want))
        x = c_and(x, care)
        if feasible(x):
            x = S.refine(x)
        if not feasible(x):
            SEEN.update(words(got))
            SEEN.update(words(want))
            self.add(name, "holds", where)
            return True
        bad = self.undecidable((got, want), want)
        w = core.witness(x)
        if w is None:
            bad = list(bad) + ["no witness found"]
            w = ()
        det = ["code: %s" % cut(show_cond(got), 300), "reference: %s" % cut(show_cond(want), 300),
               "differ when %s" % cut(" and ".join(("" if b else "not ") + show(PROPS[v]) for v, b in w), 400)]
        if bad:
            self.add(name, "undecided", where, ["outside the modelled operations: %s" % sorted(bad)[:6]] + det)
            return None
        self.add(name, "violated", where, det, what)
        return False

    def covers(self, name, got, want, care=T_, fi=None, what="registered objects"):
        """every element of want is among got (multisets as formal sums)"""
        where = self.at(fi)
        a = groups(got)
        b = groups(want)
        det, bad = [], set()
        for k, (key, n) in b.items():
            c = a[k][1] if k in a else F_
            x = c_and(core.nonzero_cond(n), c_not(core.nonzero_cond(c)), care)
            if feasible(x) and feasible(S.refine(x)):
                bad |= set(self.undecidable((flat_key(key), n, got), want))
                w = core.witness(x)
                if w is None:
                    bad.add("no witness found")
                    w = ()
                det.append("%s is not covered when %s" % (cut(show_key(key)), cut(
                    " and ".join(("" if bb else "not ") + show(PROPS[v]) for v, bb in w), 300) or "always"))
        SEEN.update(words(got))
        SEEN.update(words(want))
        if not det:
            self.add(name, "holds", where)
        elif bad:
            self.add(name, "undecided", where, ["outside the modelled operations: %s" % sorted(bad)[:6]] + det)
        else:
            self.add(name, "violated", where, det, what)

    def at(self, fi):
        if fi is None:
            return ""
        if isinstance(fi, str):
            return fi
        if isinstance(fi, Run):
            fi = fi.fi
        return "%s:%d %s" % (fi.module.rel, fi.node.lineno, fi.qual)


class core_unsupported(Exception):
    pass


def groups(L):
    out = {}
    for m, n in L.items:
        sums = [t for t, e in m if t.op == "sum" and e == 1]
        if len(sums) == 1:
            t = sums[0]
            rest = tuple(x for x in m if x[0] is not t)
            key = (rest, tuple((d, k) for d, k in t.args[0]), t.args[1])
            kk = (tuple((a.id, b) for a, b in rest), tuple((d.id, k) for d, k in t.args[0]), t.args[1].id)
            out.setdefault(kk, [key, F_])
            out[kk][1] = nadd(out[kk][1], nmul(n, t.args[2]))
        else:
            kk = tuple((a.id, b) for a, b in m)
            out.setdefault(kk, [m, F_])
            out[kk][1] = nadd(out[kk][1], n)
    return out


def flat_key(key):
    return tuple(key)


def cut(s, n=260):
    if os.environ.get("FSA_WIDE"):
        return s
    return s if len(s) <= n else s[:n] + "..."
