p("C12", "Time-dependent inputs are refreshed before every solve",
  "Every user input that depends on time (sources, boundary conditions and their parameters, trap densities, extrinsic trap parameters, prescribed temperatures) is evaluated at the current time whenever a problem using it is solved.",
  "inputs histories configurations", "all inputs, all steps",
  SAMPLE + "a stale input shows up only with that kind of input, in that position of a list, after the first step.",
  ["festim/h_transport_problem.py", "festim/temperature/temperature.py", "festim/temperature/temperature_solver.py", "festim/concentration/traps/trap.py", "festim/concentration/mobile.py", "festim/helpers.py"],
  ["update_expressions @ festim/helpers.py", "HTransportProblem.update @ festim/h_transport_problem.py", "sub_expressions @ festim"])

p("C13", "Time advances by the step size and lands on milestones and the final time",
  "Each step of a transient run advances the time by the current step size, never past the next milestone or the final time, and the run ends at the final time. After each solve the step size follows the documented rule: grown or shrunk by the change ratio according to the iteration count, capped after t_stop, divided when the solve failed, cut to reach the next milestone.",
  "inputs histories schedules", "all initial values, ratios, caps, milestones, iteration counts and times",
  SAMPLE + "a few sequences of iteration counts are tried; which milestone or cap is met first depends on the whole history.",
  ["festim/stepsize.py", "festim/generic_simulation.py"],
  ["Stepsize.adapt @ festim/stepsize.py", "Simulation.iterate @ festim/generic_simulation.py", "Simulation.run_transient @ festim/generic_simulation.py"])

p("C14", "Previous-step fields hold the accepted solution of the previous step",
  "Whenever a time step is solved, the previous concentrations and the previous temperature are those accepted at the end of the preceding step, every attempt starts from the same state, and the residual, Jacobian and Dirichlet conditions are those of the problem. A rejected attempt leaves no trace in the next attempt.",
  "histories schedules", "all sequences of accepted and rejected steps, prescribed or computed temperatures",
  SAMPLE + "a rejected attempt followed by an accepted one is hardly ever produced by a test.",
  ["festim/h_transport_problem.py", "festim/temperature/temperature.py", "festim/temperature/temperature_solver.py"],
  ["HTransportProblem.update @ festim/h_transport_problem.py", "HeatTransferProblem.update @ festim/temperature/temperature_solver.py", "Temperature.update @ festim/temperature/temperature.py"])

p("C15", "A solution that did not converge is never accepted",
  "A time step is accepted only if its nonlinear solve converged; otherwise it is retried with another step size, or the run stops with an error when that is impossible. A steady run whose solve does not converge raises an error, and so do heat transfer and extrinsic trap solves.",
  "histories faults", "all sequences of converged and diverged solves",
  SAMPLE + "solver failure is a fault that tests rarely provoke.",
  ["festim/h_transport_problem.py", "festim/generic_simulation.py", "festim/temperature/temperature_solver.py", "festim/concentration/traps/extrinsic_trap.py"],
  ["HTransportProblem.update @ festim/h_transport_problem.py", "Simulation.run_steady @ festim/generic_simulation.py"])

p("C16", "Inconsistent models are refused, consistent ones accepted",
  "A model that contradicts itself (missing final time or step size, heat sources without a heat problem, wrong or duplicated boundary conditions, coordinates against dimension, borders that do not tile the domain, duplicate ids, properties for some materials only, missing thermal properties, incomplete files or pairs) raises an error before solving. A model without such a contradiction is not refused.",
  "inputs configurations", "all models",
  SAMPLE + "both directions, refusing and accepting, range over arbitrary lists of materials, traps and conditions.",
  ["festim/generic_simulation.py", "festim/materials/materials.py", "festim/materials/material.py", "festim/meshing/mesh_1d.py", "festim/concentration/traps/trap.py", "festim/initial_condition.py"],
  ["Simulation.initialise @ festim/generic_simulation.py", "Materials.check_materials @ festim/materials/materials.py", "Simulation.check_boundary_conditions @ festim/generic_simulation.py"])

p("C20", "Solver settings given by the user are the ones in force",
  "Tolerances, iteration limits, linear solver and preconditioner given for the hydrogen problem, the heat problem or an extrinsic trap are those of the nonlinear solver that solves that problem, and the flags in Settings are those used. A Jacobian computed once is that of the problem solved.",
  "inputs configurations", "all settings of all problems",
  SAMPLE + "a setting that is dropped or swapped still gives almost the same solution.",
  ["festim/settings.py", "festim/h_transport_problem.py", "festim/temperature/temperature_solver.py", "festim/concentration/traps/extrinsic_trap.py"],
  ["define_newton_solver @ festim/h_transport_problem.py", "define_newton_solver @ festim/temperature/temperature_solver.py", "define_newton_solver @ festim/concentration/traps/extrinsic_trap.py"])

p("C22", "Exports are computed and written exactly when they are due",
  "Derived quantities are computed every nb_iterations_between_compute steps and written every nb_iterations_between_exports steps, or at the final time when that is not given; XDMF files are written every mode steps, or only at the end; TXT profiles are recorded at each requested time, or at every step, or at the end. Nothing else is recorded and nothing due is skipped.",
  "inputs histories schedules", "all schedules, all numbers of steps",
  SAMPLE + "a record missed or repeated depends on how the schedule meets the sequence of steps.",
  ["festim/exports/exports.py", "festim/exports/derived_quantities/derived_quantities.py", "festim/exports/xdmf_export.py", "festim/exports/txt_export.py"],
  ["Exports.write @ festim/exports/exports.py", "is_export, is_compute @ festim/exports/derived_quantities/derived_quantities.py", "is_export @ festim/exports/xdmf_export.py", "is_it_time_to_export, is_last @ festim/exports/txt_export.py"])

p("C23", "Columns, titles, times and values of exported tables stay aligned",
  "In every row of a derived-quantities table the value under a title is that quantity at the time in the first column, and each quantity's own data and t lists agree with the table. In a TXT export the column under a title is the profile at that time, against positions in increasing order.",
  "inputs histories", "all lists of quantities, all numbers of rows",
  SAMPLE + "misalignment needs several quantities, several rows or several profiles of particular kinds.",
  ["festim/exports/derived_quantities/derived_quantities.py", "festim/exports/txt_export.py"],
  ["DerivedQuantities.compute, make_header, write @ festim/exports/derived_quantities/derived_quantities.py", "TXTExport.write @ festim/exports/txt_export.py"])

p("C24", "Every export receives the field that its name designates",
  "An export or derived quantity of solute, T, a trap id, retention or an adsorbed concentration is given the current solution of that field, in concentration units (also when the chemical potential is solved), and retention is the sum of the mobile and all trapped concentrations. Fluxes receive the diffusivity, conductivity, Soret coefficient and temperature of the model.",
  "inputs configurations", "all field names, all numbers of traps and adsorbed concentrations",
  SAMPLE + "a field swapped for another of the same type changes only the exports of that field.",
  ["festim/generic_simulation.py", "festim/exports/exports.py", "festim/exports/derived_quantities/derived_quantities.py", "festim/h_transport_problem.py", "festim/concentration/theta.py"],
  ["Simulation.update_post_processing_solutions @ festim/generic_simulation.py", "Exports.write @ festim/exports/exports.py", "HTransportProblem.update_post_processing_solutions @ festim/h_transport_problem.py"])

p("C25", "Output files go where the user asked, under the labels given",
  "Each export writes to the file the user named, in the folder named, creating missing folders; XDMF fields carry the export's label and time, replace the file of a previous run, and are checkpointed if asked.",
  "inputs configurations", "all filenames, folders, labels and modes",
  SAMPLE + "the path is assembled from several optional parts.",
  ["festim/exports/xdmf_export.py", "festim/exports/txt_export.py", "festim/exports/derived_quantities/derived_quantities.py", "festim/exports/trap_density_xdmf.py"],
  ["XDMFExport.write, define_xdmf_file @ festim/exports/xdmf_export.py", "TXTExport.write @ festim/exports/txt_export.py", "DerivedQuantities.write @ festim/exports/derived_quantities/derived_quantities.py"])

p("C17", "Containers and settings hold only valid values, however they are filled",
  "The lists of traps, materials, exports and derived quantities contain only objects of their kind whatever operation adds to them, and every such operation acts as on a plain list. File names, volume and surface ids, export modes, angular ranges, temperatures, step sizes and solvers are stored as given when they are valid and refused otherwise.",
  "inputs histories configurations", "all values, all operations on the containers",
  SAMPLE + "each combination of container, operation and wrong value would be one more test.",
  ["festim/concentration/traps/traps.py", "festim/materials/materials.py", "festim/exports/exports.py", "festim/exports/derived_quantities/derived_quantities.py", "festim/generic_simulation.py"],
  ["Traps.append, extend, insert @ festim/concentration/traps/traps.py", "Simulation.T, dt, traps, materials, exports @ festim/generic_simulation.py", "azimuth_range @ festim/exports/derived_quantities/total_volume.py"])

p("C19", "Every field starts from the initial condition given for it",
  "The mobile concentration, each trapped concentration, each adsorbed concentration and the temperature start from the initial value the user gave for that field, on the part of the mixed function space that the solution, the previous solution and the test function of that field share. Fields without an initial condition start from zero.",
  "inputs configurations", "all numbers of traps up to two in any order of ids, with and without adsorbed concentrations, all initial values",
  SAMPLE + "two components swapped or an initial condition in another field is seen only with several fields of different values.",
  ["festim/h_transport_problem.py", "festim/concentration/concentration.py", "festim/concentration/mobile.py", "festim/temperature/temperature.py", "festim/temperature/temperature_solver.py", "festim/temperature/temperature_from_xdmf.py"],
  ["HTransportProblem.initialise_concentrations @ festim/h_transport_problem.py", "HTransportProblem.define_function_space @ festim/h_transport_problem.py", "Concentration.initialise @ festim/concentration/concentration.py", "create_functions @ festim/temperature"])

p("C26", "Cells, facets and measures of a mesh carry the ids the user gave",
  "In a 1D mesh every cell carries the id of the material whose borders contain it and the two end points are surfaces 1 and 2; a mesh from files carries the markers of those files; and the volume and surface measures used in all integrals are built on those markers. A mesh from vertices has exactly these vertices, with cells between neighbours.",
  "inputs configurations", "all meshes, all borders, all materials",
  SAMPLE + "a cell beside a border, or a material spread over several ranges, is easily missed.",
  ["festim/meshing/mesh.py", "festim/meshing/mesh_1d.py", "festim/meshing/mesh_from_vertices.py", "festim/meshing/mesh_from_xdmf.py", "festim/materials/materials.py"],
  ["Mesh1D.define_measures @ festim/meshing/mesh_1d.py", "Materials.find_subdomain_from_x_coordinate @ festim/materials/materials.py", "Mesh.define_measures @ festim/meshing/mesh.py", "MeshFromVertices @ festim/meshing/mesh_from_vertices.py"])

p("C27", "A property evaluated in a cell is that of the material of that cell",
  "Diffusivity, solubility, thermal conductivity, heat capacity, density and heat of transport evaluated in a cell are those of the material with the id of that cell, at the temperature there. Materials are found by id, name or both, and numbers, functions and expressions given by the user keep their value when turned into constants and expressions.",
  "inputs configurations", "all lists of materials, all ids (single or lists), all temperatures",
  SAMPLE + "picking the wrong material shows only with several materials in a particular order or with lists of ids.",
  ["festim/materials/materials.py", "festim/materials/material.py", "festim/helpers.py", "festim/__init__.py"],
  ["ArheniusCoeff.eval_cell @ festim/materials/materials.py", "ThermalProp.eval_cell @ festim/materials/materials.py", "Materials.find_material @ festim/materials/materials.py", "as_constant_or_expression @ festim/helpers.py"])

p("C21", "Every object keeps the parameters it was built with",
  "Materials, traps, boundary conditions, sources, initial conditions, settings, temperatures, step sizes, exports, derived quantities, problems and simulations hold each constructor argument under its documented name, unchanged or converted as documented (single surfaces and materials become lists, 'solute' becomes component 0, values become constants or expressions), and the documented default when it is omitted.",
  "inputs configurations", "all argument values of all constructors",
  SAMPLE + "a parameter dropped, swapped or replaced by another on its way to the attribute used later shows only for that parameter.",
  ["festim/generic_simulation.py", "festim/materials/material.py", "festim/concentration/traps/trap.py", "festim/concentration/traps/extrinsic_trap.py", "festim/boundary_conditions/boundary_condition.py", "festim/exports/txt_export.py", "festim/settings.py"],
  ["__init__ @ festim", "Trap.make_density @ festim/concentration/traps/trap.py", "BoundaryCondition.__init__ @ festim/boundary_conditions/boundary_condition.py"])

p("C18", "Setting a simulation up prepares every part from the parts of this model",
  "Initialising a simulation starts at time zero and prepares the mesh measures, the temperature, the material properties, the hydrogen problem, the traps and the exports from one another, each after the parts it is computed from, for every kind of mesh, temperature and export. Boundary conditions, fluxes and traps all reach their problem, times of profiles become milestones, and nothing of a previous run is left in the derived quantities.",
  "inputs configurations histories", "all models: any mesh, temperature problem, traps, exports, settings; repeated initialisations",
  SAMPLE + "a part set up too early, from another part's data or for the first element of a list only shows with particular combinations of features.",
  ["festim/generic_simulation.py", "festim/h_transport_problem.py", "festim/exports/exports.py", "festim/exports/derived_quantities/derived_quantities.py", "festim/concentration/traps/traps.py"],
  ["Simulation.initialise @ festim/generic_simulation.py", "HTransportProblem.initialise @ festim/h_transport_problem.py", "Exports.initialise_derived_quantities @ festim/exports/exports.py", "Traps.initialise_extrinsic_traps @ festim/concentration/traps/traps.py"])

p("C28", "Titles of derived quantities name the quantity, field, domain and unit",
  "The title of a derived quantity, hence the header of its column, names what is computed, its field and its volume, surface or point, followed by the unit when units are shown. The unit is the documented one for the field and for the dimension and coordinate system of the mesh, and each quantity declares the coordinate systems it is valid for.",
  "inputs configurations", "all quantities, fields, ids, mesh dimensions and coordinate systems",
  SAMPLE + "the unit depends on class, field and dimension together, and most combinations are never exported in a test.",
  ["festim/exports/derived_quantities/total_volume.py", "festim/exports/derived_quantities/total_surface.py", "festim/exports/derived_quantities/surface_flux.py", "festim/exports/derived_quantities/average_volume.py", "festim/exports/derived_quantities/point_value.py", "festim/exports/derived_quantities/derived_quantity.py"],
  ["title @ festim/exports/derived_quantities", "export_unit @ festim/exports/derived_quantities", "allowed_meshes @ festim/exports/derived_quantities"])

p("C29", "Fields, times and labels read from XDMF files are those of the file",
  "A field read from an XDMF file, as the initial condition of a concentration or of the temperature or as a prescribed temperature, is the one with the label and time step the user named (the last step for a prescribed temperature, which then stays constant). The labels and times reported for a file are exactly those it contains.",
  "inputs", "all files, labels, time steps",
  SAMPLE + "one small file with one label is read.",
  ["festim/helpers.py", "festim/temperature/temperature_from_xdmf.py", "festim/concentration/concentration.py"],
  ["extract_xdmf_times @ festim/helpers.py", "extract_xdmf_labels @ festim/helpers.py", "TemperatureFromXDMF.create_functions @ festim/temperature/temperature_from_xdmf.py"])

p("C30", "Inputs that will be ignored or misused are reported by a warning",
  "A warning is issued for each material property that will not be used (density, heat capacity and conductivity without heat transfer or thermal flux), for checkpointed XDMF exports in 1D, for deprecated step size settings and for each derived quantity that does not suit the coordinate system of the mesh. Models without such inputs raise none of these warnings.",
  "inputs configurations", "all materials, temperatures, quantities and meshes",
  SAMPLE + "each warning is provoked once; that it is not issued, or issued for other elements of the lists, is not tested.",
  ["festim/materials/materials.py", "festim/exports/xdmf_export.py", "festim/stepsize.py", "festim/generic_simulation.py"],
  ["Materials.check_for_unused_properties @ festim/materials/materials.py", "XDMFExport.write @ festim/exports/xdmf_export.py", "Simulation.initialise @ festim/generic_simulation.py"])

p("C31", "What the user supplied is left as it was given",
  "Setting up, solving, post-processing and exporting never change what the user supplied: the coefficients, names, ids and borders of materials, the coefficients of traps, the parameters and surfaces of boundary conditions, the volumes and rates of sources, the settings, the initial step and the adaptive rules of the stepsize, and the times, files, labels and schedules of exports keep their values; the lists of materials, traps, sources, boundary conditions, initial conditions, exports, times, milestones and time-dependent expressions lose no element and are not reordered (export times may be added to the milestones). A simulation can therefore be initialised and run again, and an object used in two simulations.",
  "inputs histories", "all models, all sequences of initialise and run",
  SAMPLE + "a test looks at the result of one run, not at every input afterwards, for every kind of model and on every path.",
  ["festim/concentration/mobile.py", "festim/concentration/traps/trap.py", "festim/generic_simulation.py", "festim/h_transport_problem.py", "festim/stepsize.py", "festim/exports/txt_export.py", "festim/exports/exports.py", "festim/materials/materials.py", "festim/helpers.py"],
  ["Simulation.initialise @ festim/generic_simulation.py", "Mobile.create_diffusion_form @ festim/concentration/mobile.py", "Stepsize.next_milestone @ festim/stepsize.py", "TXTExport.is_it_time_to_export @ festim/exports/txt_export.py"])
