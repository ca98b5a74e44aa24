"""Constructors keep what they are given."""
from .oblig import *
from .reg import prop_check
from .props_eq import spec, find
from . import ctors

# constructors with documented refusals, which C16 and C17 compare with theirs
REFUSING = set("""Material InitialCondition Trap ExtrinsicTrap NeutronInducedTrap RadioactiveDecay TXTExport XDMFExport TrapDensityXDMF DerivedQuantities
    AdsorbedHydrogen HydrogenFlux ThermalFlux AverageVolume AverageVolumeCylindrical AverageVolumeSpherical MaximumVolume MinimumVolume TotalVolume
    AverageSurface AverageSurfaceCylindrical MaximumSurface MinimumSurface TotalSurface SurfaceFlux TotalVolumeCylindrical
    TotalSurfaceCylindrical SurfaceFluxCylindrical TotalVolumeSpherical TotalSurfaceSpherical SurfaceFluxSpherical""".split())


# the properties that rely on what the objects of these classes hold
USED = {"Trap": "C01", "Material": "C02 C03 C07 C27", "Settings": "C02 C20", "HeatTransferProblem": "C03 C20", "Stepsize": "C13", "InitialCondition": "C19 C29",
        "ExtrinsicTrap": "C08 C20", "NeutronInducedTrap": "C08 C20", "Source": "C09", "ImplantationFlux": "C09", "RadioactiveDecay": "C09",
        "DerivedQuantities": "C22 C25", "TXTExport": "C22 C25 C23", "XDMFExport": "C22 C25", "TrapDensityXDMF": "C25", "Mesh": "C26", "Mesh1D": "C26", "MeshFromVertices": "C26",
        "MeshFromXDMF": "C26", "PointValue": "C11", "MaximumVolume": "C11", "MinimumVolume": "C11", "SurfaceKinetics": "C06", "Problem": "C14"}
for _c in ("FluxBC", "CustomFlux", "RecombinationFlux", "DissociationFlux", "MassFlux", "ConvectiveFlux"):
    USED[_c] = "C04"
for _c in ("DirichletBC", "SievertsBC", "HenrysBC", "ImplantationDirichlet", "CustomDirichlet"):
    USED[_c] = "C05"
for _r in ctors.ROWS:
    if any(_w in _r[0] for _w in ("Average", "Total", "SurfaceFlux", "HydrogenFlux", "ThermalFlux", "Adsorbed")):
        USED[_r[0]] = "C10"


@prop_check("C21", *sorted({p for v in USED.values() for p in v.split()}))
def constructors(C):
    for r_ in ctors.ROWS:
        cls = r_[0]
        if C.pid != "C21" and C.pid not in USED.get(cls, "").split():
            continue
        req, opt, names, want = ctors.row(*r_)
        for a, b, what in (("new_", "kept_", "argument"),) + ((("bare_", "filled_", "default"),) if opt else ()):
            def go():
                ty = {n: ("object", False) for n in names}
                ty.update({k: (v, True) for k, v in ctors.TYPES.get(cls, {}).items()})
                r, s = spec(a + cls, types=ty), spec(b + cls, types=ty)
                C.use(r)
                fi = find(cls, "__init__")
                care = c_and(r.g, s.g) if cls in REFUSING else C.both(r, s)
                if what == "argument":  # an argument taken to be of a class is not None: the defaults are the other comparison
                    for n in ctors.TYPES.get(cls, {}):
                        care = c_and(care, c_not(c_eq(atom(T("sym", n)), NONE)))
                for k, (n, e) in enumerate(want):
                    x, y = (q.norm(q.it.getitem(q.ret, num(k), q.st, NODE)) for q in (r, s))
                    C.equal("%s: %s %s" % (cls, what, n), x, y, care, fi, "attribute " + n)
            C.guarded("%s: %s" % (cls, what), go)
