"""Reference values of the derived quantities: q_* is what the code computes for a
quantity built from user arguments, w_* the integral it stands for."""
from festim import *
from festim import k_B
from fenics import *
import numpy as np


def volume_q(q, fn, dx):
    q.function = fn
    q.dx = dx
    return q.compute()


def surface_q(q, fn, ds):
    q.function = fn
    q.ds = ds
    return q.compute()


def radius(fn):
    return SpatialCoordinate(fn.function_space().mesh())[0]


def q_TotalVolume(field, volume, fn, dx):
    return volume_q(TotalVolume(field=field, volume=volume), fn, dx)


def w_TotalVolume(field, volume, fn, dx):
    return assemble(fn * dx(volume))


def q_TotalVolumeCylindrical(field, volume, fn, dx, a0, a1):
    return volume_q(TotalVolumeCylindrical(field=field, volume=volume, azimuth_range=(a0, a1)), fn, dx)


def w_TotalVolumeCylindrical(field, volume, fn, dx, a0, a1):
    return (a1 - a0) * assemble(fn * radius(fn) * dx(volume))


def q_TotalVolumeSpherical(field, volume, fn, dx, a0, a1, p0, p1):
    return volume_q(TotalVolumeSpherical(field=field, volume=volume, azimuth_range=(a0, a1), polar_range=(p0, p1)), fn, dx)


def w_TotalVolumeSpherical(field, volume, fn, dx, a0, a1, p0, p1):
    return (a1 - a0) * (np.cos(p0) - np.cos(p1)) * assemble(fn * radius(fn) ** 2 * dx(volume))


def q_TotalSurface(field, surface, fn, ds):
    return surface_q(TotalSurface(field=field, surface=surface), fn, ds)


def w_TotalSurface(field, surface, fn, ds):
    return assemble(fn * ds(surface))


def q_TotalSurfaceCylindrical(field, surface, fn, ds, a0, a1):
    return surface_q(TotalSurfaceCylindrical(field=field, surface=surface, azimuth_range=(a0, a1)), fn, ds)


def w_TotalSurfaceCylindrical(field, surface, fn, ds, a0, a1):
    return (a1 - a0) * assemble(fn * radius(fn) * ds(surface))


def q_TotalSurfaceSpherical(field, surface, fn, ds, a0, a1, p0, p1):
    return surface_q(TotalSurfaceSpherical(field=field, surface=surface, azimuth_range=(a0, a1), polar_range=(p0, p1)), fn, ds)


def w_TotalSurfaceSpherical(field, surface, fn, ds, a0, a1, p0, p1):
    return (a1 - a0) * (np.cos(p0) - np.cos(p1)) * assemble(fn * radius(fn) ** 2 * ds(surface))


def q_AverageVolume(field, volume, fn, dx):
    return volume_q(AverageVolume(field=field, volume=volume), fn, dx)


def w_AverageVolume(field, volume, fn, dx):
    return assemble(fn * dx(volume)) / assemble(1 * dx(volume))


def q_AverageVolumeCylindrical(field, volume, fn, dx):
    return volume_q(AverageVolumeCylindrical(field=field, volume=volume), fn, dx)


def w_AverageVolumeCylindrical(field, volume, fn, dx):
    return assemble(fn * radius(fn) * dx(volume)) / assemble(radius(fn) * dx(volume))


def q_AverageVolumeSpherical(field, volume, fn, dx):
    return volume_q(AverageVolumeSpherical(field=field, volume=volume), fn, dx)


def w_AverageVolumeSpherical(field, volume, fn, dx):
    return assemble(fn * radius(fn) ** 2 * dx(volume)) / assemble(radius(fn) ** 2 * dx(volume))


def q_AverageSurface(field, surface, fn, ds):
    return surface_q(AverageSurface(field=field, surface=surface), fn, ds)


def w_AverageSurface(field, surface, fn, ds):
    return assemble(fn * ds(surface)) / assemble(1 * ds(surface))


def q_AverageSurfaceCylindrical(field, surface, fn, ds):
    return surface_q(AverageSurfaceCylindrical(field=field, surface=surface), fn, ds)


def w_AverageSurfaceCylindrical(field, surface, fn, ds):
    return assemble(fn * radius(fn) * ds(surface)) / assemble(radius(fn) * ds(surface))


def q_AverageSurfaceSpherical(field, surface, fn, ds):
    return surface_q(AverageSurfaceSpherical(field=field, surface=surface), fn, ds)


def w_AverageSurfaceSpherical(field, surface, fn, ds):
    # a spherical surface is r = const: the weight cancels
    return assemble(fn * ds(surface)) / assemble(1 * ds(surface))


def q_AdsorbedHydrogen(surface, fn, ds):
    return surface_q(AdsorbedHydrogen(surface=surface), fn, ds)


def w_AdsorbedHydrogen(surface, fn, ds):
    return assemble(fn * ds(surface))


def flux_q(q, fn, ds, n, D, thermal_cond, Q, T, soret):
    q.n, q.D, q.thermal_cond, q.Q, q.T, q.soret = n, D, thermal_cond, Q, T, soret
    return surface_q(q, fn, ds)


def flux_density(field, fn, n, D, thermal_cond, Q, T, soret):
    if field == "T":
        return thermal_cond * dot(grad(fn), n)
    J = D * dot(grad(fn), n)
    if soret:
        J += D * Q * fn / (k_B * T**2) * dot(grad(T), n)
    return J


def q_SurfaceFlux(field, surface, fn, ds, n, D, thermal_cond, Q, T, soret):
    return flux_q(SurfaceFlux(field=field, surface=surface), fn, ds, n, D, thermal_cond, Q, T, soret)


def w_SurfaceFlux(field, surface, fn, ds, n, D, thermal_cond, Q, T, soret):
    return assemble(flux_density(field, fn, n, D, thermal_cond, Q, T, soret) * ds(surface))


def q_SurfaceFluxCylindrical(field, surface, fn, ds, n, D, thermal_cond, Q, T, soret, a0, a1):
    q = SurfaceFluxCylindrical(field=field, surface=surface, azimuth_range=(a0, a1))
    return flux_q(q, fn, ds, n, D, thermal_cond, Q, T, soret)


def w_SurfaceFluxCylindrical(field, surface, fn, ds, n, D, thermal_cond, Q, T, soret, a0, a1):
    return (a1 - a0) * assemble(flux_density(field, fn, n, D, thermal_cond, Q, T, soret) * radius(fn) * ds(surface))


def q_SurfaceFluxSpherical(field, surface, fn, ds, n, D, thermal_cond, Q, T, soret, a0, a1, p0, p1):
    q = SurfaceFluxSpherical(field=field, surface=surface, azimuth_range=(a0, a1), polar_range=(p0, p1))
    return flux_q(q, fn, ds, n, D, thermal_cond, Q, T, soret)


def w_SurfaceFluxSpherical(field, surface, fn, ds, n, D, thermal_cond, Q, T, soret, a0, a1, p0, p1):
    # azimuth_range is the angle from the axis here (0..pi), polar_range the angle around it
    w = (p1 - p0) * (np.cos(a0) - np.cos(a1))
    return w * assemble(flux_density(field, fn, n, D, thermal_cond, Q, T, soret) * radius(fn) ** 2 * ds(surface))


def q_HydrogenFlux(surface, fn, ds, n, D, thermal_cond, Q, T, soret):
    return flux_q(HydrogenFlux(surface=surface), fn, ds, n, D, thermal_cond, Q, T, soret)


def w_HydrogenFlux(surface, fn, ds, n, D, thermal_cond, Q, T, soret):
    return assemble(flux_density("solute", fn, n, D, thermal_cond, Q, T, soret) * ds(surface))


def q_ThermalFlux(surface, fn, ds, n, D, thermal_cond, Q, T, soret):
    return flux_q(ThermalFlux(surface=surface), fn, ds, n, D, thermal_cond, Q, T, soret)


def w_ThermalFlux(surface, fn, ds, n, D, thermal_cond, Q, T, soret):
    return assemble(flux_density("T", fn, n, D, thermal_cond, Q, T, soret) * ds(surface))


def flux_field(field):
    return field == 0 or field == "0" or field == "solute" or field == "T"


# ---- extrema and point values
def volume_dofs(fn, markers, volume):
    dm = fn.function_space().dofmap()
    return np.unique(np.hstack([dm.cell_dofs(c.index()) for c in SubsetIterator(markers, volume)]))


def q_MaximumVolume(field, volume, fn, markers):
    q = MaximumVolume(field=field, volume=volume)
    q.function = fn
    return q.compute(markers)


def w_MaximumVolume(field, volume, fn, markers):
    return np.max(fn.vector().get_local()[volume_dofs(fn, markers, volume)])


def q_MinimumVolume(field, volume, fn, markers):
    q = MinimumVolume(field=field, volume=volume)
    q.function = fn
    return q.compute(markers)


def w_MinimumVolume(field, volume, fn, markers):
    return np.min(fn.vector().get_local()[volume_dofs(fn, markers, volume)])


def q_PointValue(field, x, fn):
    q = PointValue(field=field, x=x)
    q.function = fn
    return q.compute()


def w_PointValue(field, x, fn):
    return fn(x if hasattr(x, "__iter__") else [x])
