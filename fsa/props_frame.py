"""What the user supplied is left as it was given: a write-effect analysis of the whole package."""
import ast
from .oblig import *
from .harness import program as PROG
from .reg import prop_check

# constructor parameters whose attribute the set-up is meant to fill in or convert (documented: resolved
# materials, generated ids, converted values, fields handed to exports, problem parts)
FILLED = {"F", "J", "bcs", "value", "materials", "id", "density", "show_units", "volume_markers", "surface_markers", "thermal_cond",
          "Q", "heat_capacity", "function", "sources", "boundary_conditions", "mobile", "soret", "T", "milestones", "final_time",
          "solution", "previous_solution", "test_function", "mesh", "initial_conditions", "traps", "exports", "settings", "dt",
          "log_level", "prms", "vm", "bci", "expression", "t"}
SEQ = {"times", "milestones", "surfaces", "materials", "borders", "boundary_conditions", "sources", "initial_conditions", "traps",
       "exports", "vertices", "expressions", "sub_expressions", "derived_quantities"}
GROW = {"times", "surfaces", "borders", "vertices"}
TABLES = {"adaptive_stepsize"}
REMOVE = {"remove", "pop", "clear", "popitem", "discard", "reverse"}
LISTS = {"Materials", "Traps", "Exports", "DerivedQuantities"}
MATS = {"find_material", "find_material_from_id", "find_material_from_name"}


def functions():
    for m in PROG().modules.values():
        if m.name.startswith("spec_"):
            continue
        for c in m.tree.body:
            if isinstance(c, ast.FunctionDef):
                yield m, None, c
            elif isinstance(c, ast.ClassDef):
                for x in c.body:
                    if isinstance(x, ast.FunctionDef):
                        yield m, c.name, x


def params(cls):
    """parameters of the constructors of a class, its bases and its subclasses"""
    prog = PROG()
    out = set()
    for c in prog.classes.values():
        if prog.is_subclass(c.name, cls) or prog.is_subclass(cls, c.name):
            fi = c.methods.get("__init__")
            if fi:
                a = fi.node.args
                out |= {x.arg for x in a.args[1:] + a.kwonlyargs}
    return out


def constructing(funcs):
    """constructors, setters and the functions only they call"""
    def setter(fn):
        return fn.name == "__init__" or any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in fn.decorator_list)
    inside_, calls = set(), {}
    for m, c, fn in funcs:
        if setter(fn):
            inside_.add(fn)
        for n in ast.walk(fn):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                calls.setdefault(n.attr, set()).add(fn)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                calls.setdefault(n.id, set()).add(fn)
    # property(getter, setter) written as a call
    names = set()
    for m in PROG().modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "property":
                names |= {a.id for a in n.args[1:] if isinstance(a, ast.Name)}
    for m, c, fn in funcs:
        if fn.name in names:
            inside_.add(fn)
    more = True
    while more:
        more = False
        for m, c, fn in funcs:
            w = calls.get(fn.name, set()) - {fn}
            if fn not in inside_ and not fn.name.startswith("__") and w and w <= inside_:
                inside_.add(fn)
                more = True
    return inside_


class Origin:
    """where the value of a local name comes from, by its assignments in the function"""

    def __init__(self, cls, fn):
        self.cls, self.fn = cls, fn
        self.env = {}
        a = fn.args
        self.params = {x.arg for x in a.args + a.kwonlyargs}
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.env.setdefault(t.id, []).append(("=", n.value))
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                        for x, v in zip(t.elts, n.value.elts):
                            if isinstance(x, ast.Name):
                                self.env.setdefault(x.id, []).append(("=", v))
            elif isinstance(n, (ast.For, ast.comprehension)):
                it, t = n.iter, n.target
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args \
                        and isinstance(t, ast.Tuple) and len(t.elts) == 2:
                    it, t = it.args[0], t.elts[1]
                if isinstance(t, ast.Name):
                    self.env.setdefault(t.id, []).append(("in", it))
            elif isinstance(n, ast.NamedExpr):
                self.env.setdefault(n.target.id, []).append(("=", n.value))

    def paths(self, x, depth=0):
        """access paths an expression may stand for; () for something made here"""
        if depth > 6:
            return set()
        if isinstance(x, ast.Name):
            if x.id in self.env:
                out = set()
                for k, v in self.env[x.id]:
                    for p in self.paths(v, depth + 1):
                        out.add(p + (("[]",) if k == "in" else ()))
                return out
            return {(x.id,)} if x.id in self.params or x.id == "self" else set()
        if isinstance(x, ast.Attribute):
            return {p + (x.attr,) for p in self.paths(x.value, depth + 1)}
        if isinstance(x, ast.Subscript):
            if isinstance(x.slice, ast.Slice):
                return set()
            return {p + ("[]",) for p in self.paths(x.value, depth + 1)}
        if isinstance(x, ast.IfExp):
            return self.paths(x.body, depth + 1) | self.paths(x.orelse, depth + 1)
        if isinstance(x, ast.BoolOp):
            out = set()
            for v in x.values:
                out |= self.paths(v, depth + 1)
            return out
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MATS:
            return {("materials", "[]")}
        return set()

    def part_of(self, x):
        """paths of the lists of which an expression keeps some elements only"""
        if isinstance(x, ast.ListComp) and len(x.generators) == 1 and x.generators[0].ifs:
            return self.paths(x.generators[0].iter)
        if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice) and (x.slice.lower or x.slice.upper or x.slice.step):
            return self.paths(x.value)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("list", "tuple", "sorted") and x.args:
            return self.part_of(x.args[0])
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "filter" and len(x.args) == 2:
            return self.paths(x.args[1])
        return set()

    def is_list(self, p, name=None):
        """the path is a list of the user's"""
        if p == ("self",):
            return self.cls in LISTS
        return p[-1] in SEQ

    def is_material(self, p):
        return p[-1] == "[]" and (p[:-1] == ("self",) and self.cls == "Materials" or p[:-1] and p[-2] == "materials")


def scan(C, funcs):
    own = constructing(funcs)
    everywhere = set()
    for c in PROG().classes.values():
        everywhere |= params(c.name)
    count = {"attribute writes": 0, "changes of lists": 0, "solver options": 0}
    bad = []
    for m, cls, fn in funcs:
        o = Origin(cls, fn)
        mine = params(cls) if cls else set()

        def say(n, what):
            bad.append(("%s:%d %s" % (m.rel, n.lineno, (cls + "." if cls else "") + fn.name), what))

        def write(n, recv, attr):
            count["attribute writes"] += 1
            if attr in absent.get(n, ()):
                return
            if fn in own and isinstance(recv, ast.Name) and recv.id == "self":
                return
            for p in o.paths(recv):
                if p[-1] in ("settings", "_settings"):
                    return say(n, "the settings attribute %s is overwritten" % attr)
                if o.is_material(p):
                    return say(n, "attribute %s of a material is overwritten" % attr)
                if attr in FILLED:
                    continue
                if p == ("self",):
                    if attr in mine:
                        return say(n, "the input %s of %s is overwritten" % (attr, cls))
                elif attr in everywhere:
                    return say(n, "the input %s of %s is overwritten" % (attr, ".".join(p)))

        def table(n, recv):
            """the options of the step are given once"""
            for p in o.paths(recv):
                if p[-1] in TABLES and not (fn in own and p[0] == "self"):
                    return say(n, "an entry of the input %s is overwritten" % ".".join(p))

        def changed(n, recv, how):
            count["changes of lists"] += 1
            for p in o.paths(recv):
                if not o.is_list(p):
                    continue
                if fn in own and p[0] == "self" and len(p) == 2:
                    continue
                if p == ("self",) and fn.name in REMOVE | {"insert", "append", "extend", "sort", "__iadd__", "__setitem__", "__delitem__", "__init__"}:
                    continue
                if how in REMOVE or how == "del":
                    return say(n, "elements of %s are removed (%s)" % (".".join(p), how))
                if how == "sort" and p[-1] not in ("milestones", "times"):
                    return say(n, "%s is put in another order" % ".".join(p))
                if how == "[:]=" and o.part_of(n.value) & {p}:
                    return say(n, "elements of %s are removed (it becomes a part of itself)" % ".".join(p))
                if how in ("append", "extend", "insert", "+=", "[]=") and p[-1] in GROW:
                    return say(n, "%s is changed (%s)" % (".".join(p), how))

        # filling in an input that was not given overwrites nothing
        absent = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.If):
                t = n.test
                if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Attribute) and isinstance(t.comparators[0], ast.Constant) \
                        and t.comparators[0].value is None and isinstance(t.ops[0], (ast.Is, ast.IsNot)):
                    for b in (n.body if isinstance(t.ops[0], ast.Is) else n.orelse):
                        for x in ast.walk(b):
                            absent.setdefault(x, set()).add(t.left.attr)

        for n in ast.walk(fn):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)) else []
            if isinstance(n, ast.AnnAssign) and n.value is None:
                continue
            todo = list(ts)
            while todo:
                t = todo.pop()
                if isinstance(t, (ast.Tuple, ast.List)):
                    todo += t.elts
                elif isinstance(t, ast.Starred):
                    todo.append(t.value)
                elif isinstance(t, ast.Attribute):
                    write(n, t.value, t.attr)
                    if isinstance(n, ast.Assign) and t.attr in SEQ and fn not in own and o.paths(t) & o.part_of(n.value):
                        say(n, "elements of %s are removed (it becomes a part of itself)" % t.attr)
                    if isinstance(n, ast.AugAssign):
                        changed(n, t, "+=")
                elif isinstance(t, ast.Subscript):
                    table(n, t.value)
                    v, k = t.value, t.slice
                    if isinstance(k, ast.Constant) and isinstance(k.value, str):
                        if isinstance(v, ast.Attribute) and v.attr == "__dict__":
                            write(n, v.value, k.value)
                        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "vars" and v.args:
                            write(n, v.args[0], k.value)
                    changed(n, t.value, "del" if isinstance(n, ast.Delete) else "[:]=" if isinstance(t.slice, ast.Slice) else "[]=")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in REMOVE | {"sort", "append", "extend", "insert"}:
                changed(n, n.func.value, n.func.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("update", "setdefault", "pop", "popitem", "clear"):
                table(n, n.func.value)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 \
                    and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
                write(n, n.args[0], n.args[1].value)
    return count, bad


@prop_check("C31")
def frame(C):
    def go():
        funcs = list(functions())
        C.analysed |= {(m.rel, (c + "." if c else "") + fn.name) for m, c, fn in funcs}
        count, bad = scan(C, funcs)
        kinds = (("inputs of models are not overwritten", ("overwritten",)), ("lists of the user lose no element", ("removed",)),
                 ("lists of the user keep their order and their elements", ("order", "changed")))
        for name, words_ in kinds:
            hit = [b for b in bad if any(w in b[1] for w in words_)]
            for where, what in hit:
                C.add(name, "violated", where, [what], "statement")
            if not hit:
                C.add(name, "holds", "", ["%d attribute writes and %d changes of lists in %d functions" % (
                    count["attribute writes"], count["changes of lists"], len(funcs))])
    C.guarded("inputs", go)


# options of the nonlinear solver that change what the tolerances mean or what a converged step is, with their defaults
OPTIONS = {"relaxation_parameter": (1, 1.0), "convergence_criterion": ("residual",)}


@prop_check("C20")
def options(C):
    """no option of a nonlinear solver is set beside those the user gives"""
    def go():
        seen, bad = 0, []
        for m, c, fn in functions():
            C.analysed.add((m.rel, (c + "." if c else "") + fn.name))
            for n in ast.walk(fn):
                if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript)):
                    continue
                k = n.targets[0].slice
                if not (isinstance(k, ast.Constant) and isinstance(k.value, str)):
                    continue
                seen += 1
                if k.value in ("relaxation_parameter", "convergence_criterion") and not (
                        isinstance(n.value, ast.Constant) and n.value.value in OPTIONS[k.value]):
                    bad.append(("%s:%d %s" % (m.rel, n.lineno, fn.name), "the solver option %s is set" % k.value))
        for where, what in bad:
            C.add("solver options the user cannot set keep their defaults", "violated", where, [what], "statement")
        if not bad:
            C.add("solver options the user cannot set keep their defaults", "holds", "", ["%d option writes" % seen])
    C.guarded("options", go)
