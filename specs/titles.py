"""Titles, units and coordinate systems of the derived quantities: h_* what the code
says for a quantity built from user arguments, e_* what it should say."""
from festim import *


def with_unit(text, u, show):
    return text + " (" + u + ")" if show else text


def powers(base, k):
    """base times metres to the power k"""
    return base + {-3: " m-3", -2: " m-2", -1: " m-1", 0: "", 1: " m", 2: " m2", 3: " m3"}[k]


def density_unit(field):
    return "K" if field == "T" else "H m-3"


def total_unit(field, k):
    """a field integrated over a domain of k dimensions"""
    return powers("K", k) if field == "T" else powers("H", k - 3)


def surface_unit(field, k):
    """documented (and tested) units of totals over a surface of k dimensions: those of a
    hydrogen content, H m-2 in 1D to H in 3D"""
    return powers("K", k) if field == "T" else powers("H", k - 2)


def flux_unit(field, k):
    """a flux density integrated over a surface of k dimensions"""
    return powers("W", k - 2) if field == "T" else powers("H", k - 2) + " s-1"


def e_TotalVolume(field, where, dim, show):
    return with_unit(f"Total {field} volume {where}", total_unit(field, dim), show)


def e_TotalVolumeCylindrical(field, where, dim, show):
    return with_unit(f"Total {field} volume {where}", total_unit(field, dim + 1), show)


def e_TotalVolumeSpherical(field, where, dim, show):
    return with_unit(f"Total {field} volume {where}", total_unit(field, 3), show)


def e_TotalSurface(field, where, dim, show):
    return with_unit(f"Total {field} surface {where}", surface_unit(field, dim - 1), show)


def e_TotalSurfaceCylindrical(field, where, dim, show):
    return with_unit(f"Total {field} surface {where}", surface_unit(field, dim), show)


def e_TotalSurfaceSpherical(field, where, dim, show):
    return with_unit(f"Total {field} surface {where}", surface_unit(field, 2), show)


def e_AverageVolume(field, where, dim, show):
    return with_unit(f"Average {field} volume {where}", density_unit(field), show)


def e_AverageVolumeCylindrical(field, where, dim, show):
    return e_AverageVolume(field, where, dim, show)


def e_AverageVolumeSpherical(field, where, dim, show):
    return e_AverageVolume(field, where, dim, show)


def e_AverageSurface(field, where, dim, show):
    return with_unit(f"Average {field} surface {where}", density_unit(field), show)


def e_AverageSurfaceCylindrical(field, where, dim, show):
    return e_AverageSurface(field, where, dim, show)


def e_MaximumVolume(field, where, dim, show):
    return with_unit(f"Maximum {field} volume {where}", density_unit(field), show)


def e_MinimumVolume(field, where, dim, show):
    return with_unit(f"Minimum {field} volume {where}", density_unit(field), show)


def e_MaximumSurface(field, where, dim, show):
    return with_unit(f"Maximum {field} surface {where}", density_unit(field), show)


def e_MinimumSurface(field, where, dim, show):
    return with_unit(f"Minimum {field} surface {where}", density_unit(field), show)


def flux_head(field, where):
    return f"Heat flux surface {where}" if field == "T" else f"{field} flux surface {where}"


def e_SurfaceFlux(field, where, dim, show):
    return with_unit(flux_head(field, where), flux_unit(field, dim - 1), show)


def e_SurfaceFluxCylindrical(field, where, dim, show):
    return with_unit(flux_head(field, where), flux_unit(field, dim), show)


def e_SurfaceFluxSpherical(field, where, dim, show):
    return with_unit(flux_head(field, where), flux_unit(field, 2), show)


def e_PointValue(field, where, dim, show):
    where = where if hasattr(where, "__iter__") else [where]
    return with_unit(f"{field} value at {where}", density_unit(field), show)


def e_HydrogenFlux(where, dim, show):
    return with_unit(f"solute flux surface {where}", flux_unit("solute", dim - 1), show)


def e_ThermalFlux(where, dim, show):
    return with_unit(f"Heat flux surface {where}", flux_unit("T", dim - 1), show)


def e_AdsorbedHydrogen(where, dim, show):
    return with_unit(f"Adsorbed H on surface {where}", "H m-2", show)
