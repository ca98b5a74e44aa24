"""Reference containers and setters (read by the analysis, never run)."""
import festim
import sympy as sp
import numpy as np
from fenics import *


def valid(kind, x):
    if kind == "Traps":
        return isinstance(x, festim.Trap)
    if kind == "Materials":
        return isinstance(x, festim.Material)
    if kind == "Exports":
        return isinstance(x, (festim.Export, festim.DerivedQuantities))
    return isinstance(x, festim.DerivedQuantity)


def check_item(kind, x):
    if not valid(kind, x):
        raise TypeError("wrong type")


def u_make(kind, xs):
    return list(getattr(festim, kind)(xs))


def r_make(kind, xs):
    if not isinstance(xs, list):
        raise TypeError("not a list")
    for x in xs:
        check_item(kind, x)
    return list(xs)


def u_append(kind, a, b):
    c = getattr(festim, kind)([a])
    c.append(b)
    return list(c)


def r_append(kind, a, b):
    check_item(kind, a)
    check_item(kind, b)
    return [a, b]


def u_insert(kind, a, b):
    c = getattr(festim, kind)([a])
    c.insert(0, b)
    return list(c)


def r_insert(kind, a, b):
    check_item(kind, a)
    check_item(kind, b)
    return [b, a]


def u_insert_at(kind, i, a, b):
    c = getattr(festim, kind)([a])
    c.insert(i, b)
    return list(c)


def r_insert_at(kind, i, a, b):
    check_item(kind, a)
    check_item(kind, b)
    c = [a]
    c.insert(i, b)
    return c


def u_set_at(kind, i, a, b, x):
    c = getattr(festim, kind)([a, b])
    c[i] = x
    return list(c)


def r_set_at(kind, i, a, b, x):
    check_item(kind, a)
    check_item(kind, b)
    check_item(kind, x)
    c = [a, b]
    c[i] = x
    return c


def u_set(kind, a, b, x):
    c = getattr(festim, kind)([a, b])
    c[1] = x
    return list(c)


def r_set(kind, a, b, x):
    check_item(kind, a)
    check_item(kind, b)
    check_item(kind, x)
    return [a, x]


def u_extend(kind, a, xs):
    c = getattr(festim, kind)([a])
    c.extend(xs)
    return list(c)


def u_iadd(kind, a, xs):
    c = getattr(festim, kind)([a])
    c += xs
    return list(c)


def u_extend_own(kind, a, b):
    c = getattr(festim, kind)([a])
    c.extend(getattr(festim, kind)([b]))
    return list(c)


def u_iadd_own(kind, a, b):
    c = getattr(festim, kind)([a])
    c += getattr(festim, kind)([b])
    return list(c)


def r_extend(kind, a, xs):
    check_item(kind, a)
    for x in xs:
        check_item(kind, x)
    return [a] + list(xs)


def u_setter(self, name, value):
    setattr(self, name, value)
    return getattr(self, name)


def u_setter_list(self, name, value):
    setattr(self, name, value)
    return list(getattr(self, name))


def r_traps(self, value):
    if value is None:
        return []
    if isinstance(value, festim.Trap):
        return [value]
    if not isinstance(value, list):
        raise TypeError("traps")
    for x in value:
        if not isinstance(value, festim.Traps):
            check_item("Traps", x)
    return list(value)


def r_materials(self, value):
    if isinstance(value, festim.Material):
        return [value]
    if not isinstance(value, list):
        raise TypeError("materials")
    for x in value:
        if not isinstance(value, festim.Materials):
            check_item("Materials", x)
    return list(value)


def r_exports(self, value):
    if value is None:
        return []
    if isinstance(value, festim.Export) or isinstance(value, festim.DerivedQuantities):
        return [value]
    if not isinstance(value, list):
        raise TypeError("exports")
    for x in value:
        if not isinstance(value, festim.Exports):
            check_item("Exports", x)
    return list(value)


def r_T(self, value):
    if value is None or isinstance(value, festim.Temperature):
        return value
    if not isinstance(value, (int, float, sp.Expr)):
        raise TypeError("T")
    return festim.Temperature(value)


def r_dt(self, value):
    if value is None or isinstance(value, festim.Stepsize):
        return value
    if not isinstance(value, (int, float)):
        raise TypeError("dt")
    return festim.Stepsize(value)


def is_Traps(x):
    return isinstance(x, festim.Traps)


def is_Materials(x):
    return isinstance(x, festim.Materials)


def is_Exports(x):
    return isinstance(x, festim.Exports)


def is_DerivedQuantities(x):
    return isinstance(x, festim.DerivedQuantities)


def r_full_turn(self, value):
    if value[0] < 0 or value[1] > 2 * np.pi:
        raise ValueError("range")
    return value


def r_half_turn(self, value):
    if value[0] < 0 or value[1] > np.pi:
        raise ValueError("range")
    return value


def r_either_side(self, value):
    if value[0] < -np.pi or value[1] > np.pi:
        raise ValueError("range")
    return value


def r_plain_int(self, value):
    if isinstance(value, bool) or not isinstance(value, int):
        raise TypeError("id")
    return value


def r_csv(self, value):
    if value is not None:
        if not isinstance(value, str):
            raise TypeError("filename")
        if not value.endswith(".csv"):
            raise ValueError("filename")
    return value


def r_txt(self, value):
    if value is not None:
        if not isinstance(value, str):
            raise TypeError("filename")
        if not value.endswith(".txt"):
            raise ValueError("filename")
    return value


def r_xdmf(self, value):
    if value is None:
        return "{}.xdmf".format(self.label)
    if not isinstance(value, str):
        raise TypeError("filename")
    if not value.endswith(".xdmf"):
        raise ValueError("filename")
    return value


def r_folder(self, value):
    if value is not None and not isinstance(value, str):
        raise TypeError("folder")
    return value


def r_mode(self, value):
    if isinstance(value, int):
        if value <= 0:
            raise ValueError("mode")
    elif not isinstance(value, str) or value != "last":
        raise ValueError("mode")
    return value


def r_solver(self, value):
    if value is not None and not isinstance(value, NewtonSolver):
        raise TypeError("solver")
    return value


def r_checkpoint(field, label, filename, mode, checkpoint, folder):
    return not isinstance(checkpoint, bool)


def r_heat_ic(self, value):
    if isinstance(value, (int, float, sp.Expr)):
        return festim.InitialCondition(field="T", value=value)
    return value
