"""Exports: derived quantities, schedules, tables, labels."""
from .oblig import *
from .reg import prop_check
from .props_eq import spec, attr_of, null, form, find, TT, lst, INT_IDS, E

DQ = ["TotalVolume", "TotalVolumeCylindrical", "TotalVolumeSpherical", "TotalSurface", "TotalSurfaceCylindrical",
      "TotalSurfaceSpherical", "AverageVolume", "AverageVolumeCylindrical", "AverageVolumeSpherical", "AverageSurface",
      "AverageSurfaceCylindrical", "AverageSurfaceSpherical", "AdsorbedHydrogen", "SurfaceFlux", "SurfaceFluxCylindrical",
      "SurfaceFluxSpherical", "HydrogenFlux", "ThermalFlux"]
PT = dict(TT, volume=("int", True), surface=("int", True), T="fenics.Function", fn="fenics.Function")


def quantity(C, name, care=T_, completes=True):
    def go():
        q, w = spec("q_" + name, types=PT), spec("w_" + name, types=PT)
        C.use(q)
        fi = find(name, "compute") if name != "AverageSurfaceSpherical" else find("AverageSurface", "compute")
        C.equal("%s: value" % name, q.norm(q.ret), w.norm(w.ret), c_and(q.g, w.g, care), fi, "value of " + name)
        return q, w
    return C.guarded(name, go)


@prop_check("C10")
def integrals(C):
    f = spec("flux_field")
    known = c_truth(f.ret)
    for n in DQ:
        quantity(C, n, known if n.startswith("SurfaceFlux") else T_)


@prop_check("C11")
def extrema(C):
    for n in ("MaximumVolume", "MinimumVolume", "PointValue"):
        quantity(C, n)


@prop_check("C28", "C23")
def titles(C):
    from .ctors import TITLED
    ty = dict(PT, where=("int", True))
    for n, (args, dims, meshes) in TITLED.items():
        def one():
            fi = find(n, "title")
            t = ty if n != "PointValue" else PT
            for d in dims:
                r = spec("h_" + n, types=t, dim=d)
                w = spec("e_" + n, types=t, dim=d, args={"dim": num(d)})
                C.use(r)
                C.equal("%s: title and unit in %d dimension%s" % (n, d, "s" * (d > 1)), r.norm(r.ret), w.norm(w.ret), c_and(r.g, w.g), fi, "title of " + n)
                C.completes("%s: title in %d dimension%s" % (n, d, "s" * (d > 1)), r, w.g, fi)

        def two():
            r, w = spec("allowed_" + n, types=ty), spec("allow_" + n, types=ty)
            C.use(r)
            C.equal("%s: coordinate systems" % n, r.norm(r.ret), w.norm(w.ret), c_and(r.g, w.g), find(n, "allowed_meshes"), "allowed_meshes of " + n)
        C.guarded(n, one)
        C.guarded(n + " meshes", two)
