"""Typed containers, setters, argument validation, titles, isolation of runs."""
from .oblig import *
from .reg import prop_check
from .props_eq import spec, attr_of, null, form, find, TT, lst, INT_IDS, E, val, items, not_str
from .props_run import events, ev_sum, same_events, in_order, obj_list, two_traps, distinct_ids, SIM
from .props_step import at, held, probes, always, start, SIMT, keeps
from .props_mat import stores, returns
from .props_cfg import refuses

KINDS = ("Traps", "Materials", "Exports", "DerivedQuantities")


def law(C, title, u, r_, fi, care=T_, view=lambda v: v, **kw):
    """two reference programs: one uses the code, the other says what must come out"""
    def go():
        r, s = spec(u, **kw), spec(r_, **kw)
        C.use(r)
        f = find(*fi)
        C.equal(title, view(r.norm(r.ret)), view(s.norm(s.ret)), C.both(r, s, care), f)
        C.same_cond(title + ": what is refused", r.raised(), s.raised(), care, f, "raised exceptions")
    C.guarded(title, go)


def isa(name, cls):
    """the argument is an instance of cls"""
    r = spec("is_" + cls, args=dict(x=sym(name)))
    return c_truth(r.ret)


@prop_check("C17")
def containers(C):
    for k in KINDS:
        kw = dict(args=dict(kind=mkstr(k)), types={n: ("object", False) for n in ("a", "b", "x")})
        law(C, "%s from a list" % k, "u_make", "r_make", (k, "__init__"), **kw)
        law(C, "%s.append" % k, "u_append", "r_append", (k, "append"), **kw)
        law(C, "%s.insert" % k, "u_insert", "r_insert", (k, "insert"), **kw)
        at = dict(kw, types=dict(kw["types"], i=("int", False)))
        law(C, "%s.insert at any place" % k, "u_insert_at", "r_insert_at", (k, "insert"), **at)
        law(C, "%s[i] = x at any place" % k, "u_set_at", "r_set_at", (k, "__setitem__"), **at)
        law(C, "%s[i] = x" % k, "u_set", "r_set", (k, "__setitem__"), **kw)
        law(C, "%s.extend with another one" % k, "u_extend_own", "r_append", (k, "extend"), **kw)
        law(C, "%s += another one" % k, "u_iadd_own", "r_append", (k, "__iadd__"), **kw)
        plain = c_not(isa("xs", k))
        law(C, "%s.extend" % k, "u_extend", "r_extend", (k, "extend"), plain, **dict(kw, types=dict(kw["types"], xs=("list", False))))
        law(C, "%s += list" % k, "u_iadd", "r_extend", (k, "__iadd__"), plain, **dict(kw, types=dict(kw["types"], xs=("list", False))))


RANGES = (("SurfaceFluxCylindrical", "azimuth_range", "r_full_turn"), ("SurfaceFluxSpherical", "azimuth_range", "r_half_turn"),
          ("SurfaceFluxSpherical", "polar_range", "r_either_side"), ("TotalSurfaceCylindrical", "azimuth_range", "r_full_turn"),
          ("TotalSurfaceSpherical", "azimuth_range", "r_full_turn"), ("TotalSurfaceSpherical", "polar_range", "r_half_turn"),
          ("TotalVolumeCylindrical", "azimuth_range", "r_full_turn"), ("TotalVolumeSpherical", "azimuth_range", "r_full_turn"),
          ("TotalVolumeSpherical", "polar_range", "r_half_turn"))
PLAIN = (("DerivedQuantities", "filename", "r_csv"), ("TXTExport", "filename", "r_txt"), ("XDMFExport", "filename", "r_xdmf"),
         ("XDMFExport", "folder", "r_folder"), ("XDMFExport", "mode", "r_mode"), ("HTransportProblem", "newton_solver", "r_solver"),
         ("HeatTransferProblem", "newton_solver", "r_solver"), ("ExtrinsicTrap", "newton_solver", "r_solver"),
         ("HeatTransferProblem", "initial_condition", "r_heat_ic"), ("Simulation", "T", "r_T"), ("Simulation", "dt", "r_dt"))
VOLUMES = ("TotalVolume", "AverageVolume", "MaximumVolume", "MinimumVolume")
SURFACES = ("TotalSurface", "AverageSurface", "MaximumSurface", "MinimumSurface", "SurfaceFlux", "AdsorbedHydrogen")


def setter(C, cls, name, want, u="u_setter", care=T_, **kw):
    kw = dict(kw)
    kw["types"] = dict(kw.get("types", {}), self=(cls, True), value=("object", False))
    law(C, "%s.%s" % (cls, name), u, want, (cls, name), care, multiset if u == "u_setter_list" else lambda v: v, **dict(kw, args=dict(name=mkstr(name))))


@prop_check("C17")
def setters(C):
    for cls, name, want in RANGES + PLAIN:
        setter(C, cls, name, want)
    for cls in VOLUMES:
        setter(C, cls, "volume", "r_plain_int")
    for cls in SURFACES:
        setter(C, cls, "surface", "r_plain_int")
    setter(C, "Simulation", "traps", "r_traps", "u_setter_list")
    setter(C, "Simulation", "materials", "r_materials", "u_setter_list", c_not(null(sym("value"))))
    setter(C, "Simulation", "exports", "r_exports", "u_setter_list")
    refuses(C, "XDMFExport: checkpoint", ("XDMFExport", "__init__"), "r_checkpoint", args=dict(
        field=mkstr("solute"), label=mkstr("label"), filename=mkstr("file.xdmf"), mode=num(1), folder=NONE))
