#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the registered checks."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from fsa import props  # noqa
from fsa.reg import REG

A = "festim/"
BC, CO, EX, DQ = A + "boundary_conditions/", A + "concentration/", A + "exports/", A + "exports/derived_quantities/"

# id, title, statement, over, quantifier, why, files, mechanism
P = []


def p(pid, title, statement, over, text, why, files, mech):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m.split("@")[0].strip(), where=m.split("@")[1].strip()) for m in mech])))


SAMPLE = "The tests build a handful of models (one or two materials, one trap, numbers as parameters) and compare with forms or results written by hand for those; "

p("C01", "Hydrogen exchanged between mobile and trapped populations is balanced",
  "In every model, whatever trapping/detrapping term appears in the equation of a trap appears with the opposite sign in the mobile equation, on the same subdomains and with the same k, p, density, temperature and concentrations, for every trap and every material it is attached to. The trapping law itself is k c_m (n - c_t) - p c_t with Arrhenius k and p, n the density of that trap in that material.",
  "inputs configurations", "all numbers of traps and materials, scalar or per-material parameters, constant, sympy or extrinsic densities, steady or transient, concentration or chemical-potential formulation",
  SAMPLE + "no test covers several traps with different numbers of materials in every formulation.",
  [CO + "mobile.py", CO + "traps/trap.py", CO + "traps/traps.py", A + "h_transport_problem.py"],
  ["Trap.create_form @ " + CO + "traps/trap.py", "Mobile.create_form @ " + CO + "mobile.py", "Traps.create_forms @ " + CO + "traps/traps.py"])

p("C02", "The mobile equation solved is diffusion with each material's own coefficients",
  "The equation solved for mobile hydrogen contains, on every subdomain of every material exactly once, the time derivative (transient runs only), Fick's flux with that material's D_0 exp(-E_D/k_B/T) and, if and only if the Soret effect is enabled, the thermophoretic flux with that material's Q, in the metric of the mesh (cartesian, cylindrical, spherical). In chemical-potential runs the concentration in all of them is the one given by the material's solubility law.",
  "inputs configurations", "all materials, subdomain id lists, coordinates, temperatures, steady/transient, Soret on/off, both formulations",
  SAMPLE + "the combinations of coordinates, Soret, transience, materials and formulation are not all tried.",
  [CO + "mobile.py", CO + "theta.py", A + "h_transport_problem.py", A + "materials/material.py"],
  ["Mobile.create_diffusion_form @ " + CO + "mobile.py", "HTransportProblem.define_variational_problem @ " + A + "h_transport_problem.py"])

p("C03", "The heat equation solved uses each material's own properties",
  "The heat equation solved contains, on every subdomain of every material exactly once, rho c_p dT/dt (transient only) and the conduction flux with that material's conductivity (evaluated at T when it is a function), in the metric of the mesh, and every heat source on each of its volumes. Nothing else is added.",
  "inputs configurations", "all materials, numbers or functions of T as properties, id lists, coordinates, sources",
  SAMPLE + "heat forms are compared for a few fixed models only.",
  [A + "temperature/temperature_solver.py"],
  ["HeatTransferProblem.define_variational_problem @ " + A + "temperature/temperature_solver.py"])

p("C04", "Flux boundary conditions impose their law on exactly their surfaces",
  "For every flux condition the weak form gains exactly the law it documents (given value, -Kr c^n, Kd P, h_coeff (T_ext - T), h_mass (c_ext - c), or the user's function of the solution, T and the parameters), once on each listed surface, with the sign of an incoming flux, and nothing on other surfaces. The parameters are the ones passed by the user, including Arrhenius prefactors and energies and time dependent pressures.",
  "inputs configurations", "all surfaces lists, parameters (numbers, sympy expressions of x, y, z, t), both formulations, heat and hydrogen problems",
  SAMPLE + "each law is tested with one set of values on one surface.",
  [BC + "fluxes/flux_bc.py", BC + "fluxes/recombination_flux.py", BC + "fluxes/dissociation_flux.py", BC + "fluxes/convective_flux.py", BC + "fluxes/mass_flux.py", BC + "fluxes/flux_custom.py", CO + "mobile.py"],
  ["FluxBC.create_form and subclasses @ " + BC + "fluxes", "Mobile.create_fluxes_form @ " + CO + "mobile.py"])

p("C05", "Dirichlet conditions impose their law on exactly their surfaces and field",
  "Every Dirichlet-type condition imposes, on each listed surface and only on its field's component, exactly the documented value (given value, Sieverts' S sqrt(P), Henry's H P, the implantation formula, or the user's function of T and the parameters), converted to chemical potential with the adjacent material's solubility law in chemical-potential runs for the mobile field only.",
  "inputs configurations", "all surfaces, fields, parameters, both formulations",
  SAMPLE + "each law is tested at isolated values.",
  [BC + "dirichlets/dirichlet_bc.py", BC + "dirichlets/dc_imp.py", BC + "dirichlets/sieverts_bc.py", BC + "dirichlets/henrys_bc.py", BC + "dirichlets/custom_dc.py", A + "h_transport_problem.py"],
  ["DirichletBC.create_dirichletbc @ " + BC + "dirichlets/dirichlet_bc.py", "HTransportProblem.create_dirichlet_bcs @ " + A + "h_transport_problem.py"])

p("C06", "Surface kinetics conserves hydrogen between surface and bulk",
  "On each of its surfaces a surface-kinetics condition couples the adsorbed concentration and the mobile concentration so that the surface gains the incoming flux plus what jumps out of the bulk minus what jumps in, and the bulk receives exactly the opposite of that exchange, including the subsurface term lambda_IS dc/dt. The rates are the documented functions of the coverages and the user's k_sb, k_bs and J_vs.",
  "inputs configurations", "all surface lists, constant or functional rates, steady or transient, both formulations",
  SAMPLE + "only single-surface models with constant rates are compared.",
  [BC + "fluxes/surface_kinetics.py", CO + "mobile.py"],
  ["SurfaceKinetics.create_form @ " + BC + "fluxes/surface_kinetics.py"])

p("C07", "Chemical potential and concentration are converted consistently",
  "In chemical-potential runs the unknown theta and the concentration are related everywhere by c = theta S for Sieverts materials and c = theta^2 S for Henry materials, with S the solubility of the material at hand: when the initial condition is set, in every term of the equation and when results are exported.",
  "inputs configurations", "all materials, solubility laws and temperatures",
  SAMPLE + "conversions are tested at isolated values.",
  [CO + "theta.py", A + "materials/materials.py"],
  ["Theta.mobile_concentration, Theta.create_form_post_processing, Theta.initialise @ " + CO + "theta.py"])

p("C08", "Extrinsic and neutron-induced trap densities follow their evolution law",
  "The density of an extrinsic trap obeys dn/dt = phi_0 [(1 - n_a/n_amax) eta_a f_a + (1 - n_b/n_bmax) eta_b f_b] and that of a neutron-induced trap dn/dt = phi K (1 - n/n_max) - A_0 exp(-E_A/k_B/T) n, with the user's parameters (numbers, expressions of space and time), solved once per accepted time step from the density of the previous step.",
  "inputs configurations histories", "all parameters of any accepted kind; all sequences of steps",
  SAMPLE + "densities are compared for constant parameters.",
  [CO + "traps/extrinsic_trap.py", CO + "traps/neutron_induced_trap.py", CO + "traps/traps.py"],
  ["create_form_density @ " + CO + "traps/extrinsic_trap.py", "Traps.solve_extrinsic_traps @ " + CO + "traps/traps.py"])

p("C09", "Every source acts on its field, in its volumes, with its value",
  "Each source given to a simulation is added exactly once to the equation of the field it names (mobile, a trap by its id, temperature; decay 'all' to every concentration), on each of its volumes, with the documented value (given expression, implantation profile normalised by its flux, -lambda c for decay). Sources of a previous initialisation do not linger.",
  "inputs configurations histories", "all lists of sources, fields, volumes, value types",
  SAMPLE + "attribution is tested with one trap and default ids.",
  [A + "generic_simulation.py", A + "sources/source.py", A + "sources/radioactive_decay.py", A + "sources/source_implantation_flux.py", CO + "mobile.py", CO + "traps/trap.py"],
  ["Simulation.attribute_source_terms @ " + A + "generic_simulation.py", "create_source_form @ " + CO])

p("C10", "Integral derived quantities integrate what they say",
  "Total, average and flux quantities equal the integral of the documented integrand (field, D grad c . n with the Soret term when enabled, lambda grad T . n) over exactly the requested volume or surface with the metric of their coordinate system and azimuth/polar ranges, averages being divided by the measure of the same domain.",
  "inputs configurations", "all fields, ids, ranges, coordinate systems",
  SAMPLE + "the quantities are evaluated on a few analytical fields.",
  [DQ + "surface_flux.py", DQ + "total_volume.py", DQ + "total_surface.py", DQ + "average_volume.py", DQ + "average_surface.py", DQ + "hydrogen_flux.py", DQ + "thermal_flux.py", DQ + "adsorbed_hydrogen.py"],
  ["compute @ " + DQ])

p("C11", "Extrema and point values refer to the requested domain",
  "Maximum and minimum quantities are the extremum of the field over the cells of the requested volume only, and a point value is the field at the requested point.",
  "inputs configurations", "all fields, ids, points",
  SAMPLE + "one field on one mesh is tried.",
  [DQ + "maximum_volume.py", DQ + "minimum_volume.py", DQ + "point_value.py"],
  ["compute @ " + DQ])

EXTRA = os.path.join(HERE, "tools", "more.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

NA = [
    ("N01", "Computed concentrations converge to the exact solution",
     "With refinement of mesh and time step the computed fields converge to the solution of the documented equations.",
     "Truth of a numerical result: depends on the discretisation, the linear algebra and floating point at run time; no static argument over the source bounds it."),
    ("N02", "The discrete inventory is conserved over a run",
     "Inventory gained equals the time integral of the boundary fluxes and sources up to solver tolerance.",
     "The structural part (balanced terms in the forms) is claimed as C01, C04, C06, C09; the discrete balance itself is a run-time quantity depending on quadrature, projections and tolerances."),
    ("N03", "Concentrations stay non-negative",
     "No computed concentration is negative for physical inputs.",
     "Depends on the discrete maximum principle of the finite elements and on the mesh; false in general and not visible in the source."),
    ("N04", "Parallel and serial runs give the same results",
     "A run under MPI writes the same derived quantities as a serial run.",
     "Depends on fenics' assembly and on reductions inside compiled libraries that are outside the analysed source."),
    ("N05", "The non-linear solver converges for well-posed models",
     "Newton's method converges for physically sensible parameters.",
     "Convergence is a run-time property of the iterates; no static argument in reach."),
]
WHY_NA = "Tests sample a few verification cases."

TECH = "static value-flow analysis (gated abstract interpretation of the Python AST, value numbering to normal forms) against reference laws"
FRAME = "static write-effect (frame) analysis over the AST of the whole package, with local alias tracking to access paths"
NOTE_FRAME = ("Every attribute write and every change of a list or option table in the package is classified by the access paths it may reach; none may "
              "reach an input of the model outside constructors and setters. Aliases that pass through calls or containers are not followed.")
NOTE = ("Each obligation is decided for all inputs of the analysed functions: the value the source computes is normalised and compared with "
        "the reference law. Assumes documented argument types and the modelled meaning of fenics/ufl/sympy/numpy operations; constructs outside "
        "the modelled operations are reported as undecided in the evidence, never as violations.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            assert x["id"] in REG, x["id"]
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            assert x["statement"].count(". ") <= 2, x["id"]
            for fn in x["anchors"]["files"]:
                assert os.path.exists(os.path.join("/repo", fn)), fn
            f.write(json.dumps(x) + "\n")
        for i, t, s, r in NA:
            f.write(json.dumps(dict(id=i, title=t, statement=s, quantifier=dict(over=["inputs", "configurations"], text="all models"),
                                    why_tests_cant=WHY_NA, anchors=dict(files=["festim"], mechanism=[]))) + "\n")
    assert {x["id"] for x in P} == set(REG), {x["id"] for x in P} ^ set(REG)
    m = dict(version=1, setup_cmd="true",
             checks=[dict(property=x["id"], quick_cmd="python3 check.py %s quick" % x["id"], thorough_cmd="python3 check.py %s thorough" % x["id"],
                          evidence_file="evidence/%s.json" % x["id"], technique=FRAME if x["id"] == "C31" else TECH, level="other",
                          level_note=NOTE_FRAME if x["id"] == "C31" else NOTE) for x in P],
             not_applicable=[dict(property=i, reason=r) for i, t, s, r in NA])
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
