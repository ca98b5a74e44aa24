"""Documented constructors: arguments, defaults and what the object keeps.

Each row: class, required arguments, optional arguments with documented defaults,
and {attribute: expression of the arguments} for the attributes that do not simply
keep the argument of the same name.  From the rows the source of reference programs
is generated (module spec_auto): they call the constructor and read the attributes."""

AS_LIST = "surfaces if isinstance(surfaces, list) else [surfaces]"
FIELD = "(0 if field == 'solute' else (int(field) if isinstance(field, str) and field.isdigit() else field))"
RANGE2, RANGE1, EITHER = "(0, 2 * np.pi)", "(0, np.pi)", "(-np.pi, np.pi)"
TOLS = "absolute_tolerance=%s, relative_tolerance=1e-10, maximum_iterations=30, linear_solver=None, preconditioner='default'"
TRAP = "k_0, E_k, p_0, E_p, materials"
GIVEN = "as_constant_or_expression(%s)"
MATS = "materials if isinstance(materials, list) else [materials]"
DENSITY = "[(d if isinstance(d, (Expression, UserExpression)) else given(d)) for d in (density if isinstance(density, list) else [density]) if d is not None]"

ROWS = [
    ("Material", "id, D_0, E_D", "S_0=None, E_S=None, thermal_cond=None, heat_capacity=None, rho=None, borders=None, Q=None, solubility_law='sievert', name=None", {}),
    ("Settings", "absolute_tolerance, relative_tolerance", "maximum_iterations=30, transient=True, final_time=None, chemical_pot=False, soret=False, "
     "traps_element_type='CG', update_jacobian=True, linear_solver=None, preconditioner='default'", {}),
    ("InitialCondition", "", "field=0, value=0.0, label=None, time_step=None", {}),
    ("Temperature", "", "value=None", {}),
    ("HeatTransferProblem", "", "transient=True, initial_condition=None, " + TOLS % "1e-3", {}),
    ("Stepsize", "", "initial_value=0.0, milestones=None", {"milestones": "sorted(milestones) if milestones else milestones"}),
    ("Mesh", "", "mesh=None, volume_markers=None, surface_markers=None, type='cartesian'", {}),
    ("Mesh1D", "", "mesh=None, volume_markers=None, surface_markers=None, type='cartesian'", {"+start": "0"}),
    ("MeshFromVertices", "vertices", "type='cartesian'", {}),
    ("MeshFromXDMF", "volume_file, boundary_file", "type='cartesian'", {}),
    ("Exports", "", "", {"+nb_iterations": "0"}),
    ("Trap", TRAP + ", density", "id=None", {"density": DENSITY, "materials": MATS}),
    ("ExtrinsicTrap", TRAP + ", phi_0, n_amax, n_bmax, eta_a, eta_b, f_a, f_b", "id=None, " + TOLS % "1e0",
     {n: MATS if n == "materials" else GIVEN % n for n in ("materials", "phi_0", "n_amax", "n_bmax", "eta_a", "eta_b", "f_a", "f_b")}),
    ("NeutronInducedTrap", TRAP + ", phi, K, n_max, A_0, E_A", "id=None, " + TOLS % "1e0", {n: MATS if n == "materials" else GIVEN % n for n in ("materials", "phi", "K", "n_max", "A_0", "E_A")}),
    ("HTransportProblem", "mobile, traps, T, settings, initial_conditions", "", {}),
    ("Problem", "J, F, bcs", "", {"J": None, "F": None}),
    ("Simulation", "", "mesh=None, materials=None, sources=None, boundary_conditions=None, traps=None, dt=None, settings=None, temperature=None, "
     "initial_conditions=None, exports=None, log_level=40",
     {"sources": "sources if sources is not None else []", "boundary_conditions": "boundary_conditions if boundary_conditions is not None else []",
      "initial_conditions": "initial_conditions if initial_conditions is not None else []", "temperature": None, "+T": "temperature",
      "traps": "traps if traps is not None else Traps([])", "exports": "exports if exports is not None else Exports([])", "+t": "0"}),
    # boundary conditions
    ("BoundaryCondition", "surfaces, field", "", {"surfaces": AS_LIST, "field": FIELD}),
    ("DirichletBC", "surfaces, value, field", "", {"surfaces": AS_LIST, "field": FIELD}),
    ("FluxBC", "surfaces, value, field", "", {"surfaces": AS_LIST, "field": FIELD}),
    ("SievertsBC", "surfaces, S_0, E_S, pressure", "", {"surfaces": AS_LIST, "+field": "0"}),
    ("HenrysBC", "surfaces, H_0, E_H, pressure", "", {"surfaces": AS_LIST, "+field": "0"}),
    ("ImplantationDirichlet", "surfaces, phi, R_p, D_0, E_D", "Kr_0=None, E_Kr=None, Kd_0=None, E_Kd=None, P=None", {"surfaces": AS_LIST, "+field": "0"}),
    ("CustomDirichlet", "surfaces, function", "field=0", {"surfaces": AS_LIST, "field": FIELD}),
    ("CustomFlux", "surfaces, function, field", "", {"surfaces": AS_LIST, "field": FIELD}),
    ("RecombinationFlux", "Kr_0, E_Kr, order, surfaces", "", {"surfaces": AS_LIST, "+field": "0"}),
    ("DissociationFlux", "Kd_0, E_Kd, P, surfaces", "", {"surfaces": AS_LIST, "+field": "0"}),
    ("MassFlux", "h_coeff, c_ext, surfaces", "", {"surfaces": AS_LIST, "+field": "0"}),
    ("ConvectiveFlux", "h_coeff, T_ext, surfaces", "", {"surfaces": AS_LIST, "+field": "'T'"}),
    ("SurfaceKinetics", "k_sb, k_bs, lambda_IS, n_surf, n_IS, J_vs, surfaces, initial_condition", "", {"surfaces": AS_LIST, "+field": "0"}),
    # sources
    ("Source", "value, volume, field", "", {"value": None}),
    ("ImplantationFlux", "flux, imp_depth, width, volume", "", {"+field": "'0'"}),
    ("RadioactiveDecay", "decay_constant, volume", "field='all'", {}),
    # exports
    ("TXTExport", "field, filename", "times=None, filter=True, write_at_last=False, header_format='.2e'", {"times": "sorted(times) if times else times"}),
    ("XDMFExport", "field", "label=None, filename=None, mode=1, checkpoint=True, folder=None", {"label": None, "filename": None, "+append": "False"}),
    ("TrapDensityXDMF", "trap", "label=None, filename=None, mode=1, checkpoint=True, folder=None", {"label": None, "filename": None, "+append": "False", "+field": "'1'"}),
    ("DerivedQuantities", "", "filename=None, nb_iterations_between_compute=1, nb_iterations_between_exports=None, show_units=True", {"+data": "[]", "+t": "[]"}),
    ("PointValue", "field, x", "", {"x": "x if hasattr(x, '__iter__') else [x]"}),
    ("AdsorbedHydrogen", "surface", "", {"+field": "'adsorbed'"}),
    ("HydrogenFlux", "surface", "", {"+field": "'solute'"}),
    ("ThermalFlux", "surface", "", {"+field": "'T'"}),
]
for _c in ("AverageVolume", "AverageVolumeCylindrical", "AverageVolumeSpherical", "MaximumVolume", "MinimumVolume", "TotalVolume"):
    ROWS.append((_c, "field, volume", "", {"+show_units": "True", "+data": "[]", "+t": "[]"}))
for _c in ("AverageSurface", "AverageSurfaceCylindrical", "MaximumSurface", "MinimumSurface", "TotalSurface", "SurfaceFlux"):
    ROWS.append((_c, "field, surface", "", {"+show_units": "True", "+data": "[]", "+t": "[]"}))
ROWS += [
    ("TotalVolumeCylindrical", "field, volume", "azimuth_range=" + RANGE2, {}),
    ("TotalSurfaceCylindrical", "field, surface", "azimuth_range=" + RANGE2, {}),
    ("SurfaceFluxCylindrical", "field, surface", "azimuth_range=" + RANGE2, {}),
    ("TotalVolumeSpherical", "field, volume", "azimuth_range=%s, polar_range=%s" % (RANGE2, RANGE1), {}),
    ("TotalSurfaceSpherical", "field, surface", "azimuth_range=%s, polar_range=%s" % (RANGE2, RANGE1), {}),
    ("SurfaceFluxSpherical", "field, surface", "azimuth_range=%s, polar_range=%s" % (RANGE1, EITHER), {}),
]

TYPES = {"HeatTransferProblem": dict(initial_condition="InitialCondition"), "Simulation": dict(materials="Materials", traps="Traps", dt="Stepsize", temperature="Temperature", exports="Exports")}


def split(s):
    """top level commas"""
    out, d, cur = [], 0, ""
    for ch in s:
        d += ch in "([{"
        d -= ch in ")]}"
        if ch == "," and not d:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


def row(cls, req, opt, attrs):
    req = split(req)
    opt = [tuple(x.strip() for x in o.split("=", 1)) for o in split(opt)]
    names = req + [n for n, _ in opt]
    want = []  # attribute, expression
    for n in names:
        e = attrs.get(n, n)
        if e is not None:
            want.append((n, e))
    want += [(k[1:], e) for k, e in attrs.items() if k.startswith("+")]
    return req, opt, names, want


def source():
    out = ["from festim import *", "import numpy as np", "import sympy as sp", "from fenics import *", "from spec_bc import given", ""]
    for r in ROWS:
        cls = r[0]
        req, opt, names, want = row(*r)
        out.append("def new_%s(%s):\n    o = %s(%s)\n    return [%s]\n" % (
            cls, ", ".join(names), cls, ", ".join("%s=%s" % (n, n) for n in names), ", ".join("o." + a for a, _ in want)))
        out.append("def kept_%s(%s):\n    return [%s]\n" % (cls, ", ".join(names), ", ".join("(%s)" % e for _, e in want)))
        if opt:
            out.append("def bare_%s(%s):\n    o = %s(%s)\n    return [%s]\n" % (
                cls, ", ".join(req), cls, ", ".join(req), ", ".join("o." + a for a, _ in want)))
            out.append("def filled_%s(%s):\n%s    return [%s]\n" % (
                cls, ", ".join(req), "".join("    %s = %s\n" % o for o in opt), ", ".join("(%s)" % e for _, e in want)))
    for cls, (args, dims, meshes) in TITLED.items():
        out.append("def h_%s(%s, fn, dx, show):\n    q = %s(%s)\n    q.function = fn\n    q.dx = dx\n    q.show_units = show\n    return q.title\n" % (
            cls, args, cls, args))
        out.append("def allowed_%s(%s):\n    return %s(%s).allowed_meshes\n" % (cls, args, cls, args))
        out.append("def allow_%s(%s):\n    return %r\n" % (cls, args, meshes))
    return "\n".join(out)


# derived quantities: arguments, dimensions of the meshes they are meant for, coordinate systems
_A, _C, _Y, _S = ["cartesian", "cylindrical", "spherical"], ["cartesian"], ["cylindrical"], ["spherical"]
TITLED = {
    "TotalVolume": ("field, where", (1, 2, 3), _C), "TotalVolumeCylindrical": ("field, where", (1, 2), _Y), "TotalVolumeSpherical": ("field, where", (1,), _S),
    "TotalSurface": ("field, where", (1, 2, 3), _C), "TotalSurfaceCylindrical": ("field, where", (1, 2), _Y), "TotalSurfaceSpherical": ("field, where", (1,), _S),
    "AverageVolume": ("field, where", (1, 2, 3), _C), "AverageVolumeCylindrical": ("field, where", (1, 2), _Y), "AverageVolumeSpherical": ("field, where", (1,), _S),
    "AverageSurface": ("field, where", (1, 2, 3), ["cartesian", "spherical"]), "AverageSurfaceCylindrical": ("field, where", (1, 2), _Y),
    "MaximumVolume": ("field, where", (1, 2, 3), _A), "MinimumVolume": ("field, where", (1, 2, 3), _A),
    "MaximumSurface": ("field, where", (1, 2, 3), _A), "MinimumSurface": ("field, where", (1, 2, 3), _A),
    "SurfaceFlux": ("field, where", (1, 2, 3), _C), "SurfaceFluxCylindrical": ("field, where", (1, 2), _Y), "SurfaceFluxSpherical": ("field, where", (1,), _S),
    "HydrogenFlux": ("where", (1, 2, 3), _C), "ThermalFlux": ("where", (1, 2, 3), _C), "AdsorbedHydrogen": ("where", (1, 2, 3), _A),
    "PointValue": ("field, where", (1, 2, 3), _A),
}
