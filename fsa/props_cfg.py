"""Refused models, containers, labels, isolation."""
from .oblig import *
from .reg import prop_check
from .props_eq import spec, attr_of, null, form, find, TT, lst, INT_IDS, E, val, items, not_str
from .props_run import events, ev_sum, same_events, in_order, obj_list, two_traps, distinct_ids, SIM
from .props_step import at, held, probes, always, start, SIMT, keeps

SETUP = {"attribute_source_terms", "attribute_boundary_conditions", "check_mesh_dim_coords", "define_measures", "create_functions",
         "check_materials", "create_properties", "create_solubility_law_markers", "solubility_as_function", "HTransportProblem.initialise",
         "TXTExport.initialise", "define_xdmf_file", "initialise_derived_quantities", "initialise_value"}


SETT = {("Simulation", "settings"): ("Settings", True), ("Simulation", "exports"): ("Exports", True)}


def tables(it, st, v):
    """two tables of derived quantities"""
    qs = [sym("q%d" % k) for k in (1, 2, 3)]
    for q in qs:
        it.types[as_atom(q)] = ("DerivedQuantity", False)
    xs = [obj_list(it, st, "DerivedQuantities", qs[:2]), obj_list(it, st, "DerivedQuantities", qs[2:])]
    put(it, st, v["self"], "exports", obj_list(it, st, "Exports", xs))


def refuses(C, title, fi, sp_, cls=None, care=T_, exc=None, kw=None, skw=None, stop=(), **common):
    """the function raises exactly when the reference says so"""
    def go():
        kw_ = dict(common)
        kw_.update(kw or {})
        r = run(find(*fi), cls or fi[0], stop=set(stop), **kw_)
        sk = dict(common)
        sk.update(skw or {})
        s = spec(sp_, cls or fi[0], stop=set(stop), **sk)
        C.use(r)
        C.same_cond(title, r.raised(exc), c_or(s.raised(), c_truth(s.ret)), care, r.fi, "raised exceptions")
    C.guarded(title, go)


@prop_check("C16")
def models(C):
    refuses(C, "final time, step size and temperature", ("Simulation", "initialise"), "bad_sim", stop=SETUP, attr={
        ("Simulation", "settings"): ("Settings", True), ("Simulation", "exports"): ("Exports", True)},
        kw=dict(pre=lambda it, st, v: put(it, st, v["self"], "exports", obj_list(it, st, "Exports", []))))
    refuses(C, "heat sources without a heat problem", ("Simulation", "attribute_source_terms"), "bad_heat_source", exc=("TypeError",))
    refuses(C, "boundary conditions", ("Simulation", "check_boundary_conditions"), "bad_bcs")
    refuses(C, "coordinates against dimension", ("Simulation", "check_mesh_dim_coords"), "bad_dims")
    refuses(C, "1D materials without borders", ("Mesh1D", "define_measures"), "bad_measures", stop={"check_borders", "define_markers"},
            types=dict(materials=("Materials", True)))
    refuses(C, "borders that do not tile the domain", ("Materials", "check_borders"), "bad_borders")
    refuses(C, "materials sharing an id", ("Materials", "check_unique_ids"), "bad_ids")
    refuses(C, "properties given for some materials only", ("Materials", "check_consistency"), "bad_consistency")
    refuses(C, "thermal properties missing", ("Materials", "check_missing_properties"), "bad_missing", types=dict(T=("Temperature", False)))
    refuses(C, "solubility law and pairs", ("Material", "__init__"), "bad_material")
    refuses(C, "materials of a trap", ("Trap", "__init__"), "bad_trap_materials", types=dict(materials=("object", False)))
    refuses(C, "a trap twice in a material", ("Trap", "make_materials"), "bad_duplicates", stop={"find_material"}, types=dict(materials=("Materials", True)))
    refuses(C, "decay constant", ("RadioactiveDecay", "__init__"), "bad_decay")
    refuses(C, "initial condition from a file without label or step", ("InitialCondition", "__init__"), "bad_ic")
    refuses(C, "transient heat transfer without initial condition", ("HeatTransferProblem", "create_functions"), "bad_heat_ic",
            stop={"define_variational_problem", "create_dirichlet_bcs", "define_newton_solver"}, types=TT)
    refuses(C, "temperature label absent from its file", ("TemperatureFromXDMF", "__init__"), "bad_T_file", stop={"extract_xdmf_labels"})

    refuses(C, "traps in a material with Henry's law", ("Trap", "create_form"), "henry_traps", exc=("NotImplementedError",), types=TT, attr=INT_IDS)
    refuses(C, "adsorbed hydrogen without surface kinetics", ("Simulation", "initialise"), "bad_adsorbed_or_sim", stop=SETUP, kw=dict(pre=tables), skw=dict(pre=tables), attr=SETT)

    def ch():
        st = {"check_consistency", "check_unique_ids", "check_missing_properties", "check_for_unused_properties"}
        r = run(find("Materials", "check_materials"), "Materials", stop=st)
        s = spec("all_checked", "Materials", stop=st)
        C.use(r)
        same_events(C, "materials are checked", r, s, ("check_consistency", "check_unique_ids", "check_missing_properties"), C.both(r, s))
        st = {"check_borders", "define_markers"}
        ty = dict(materials=("Materials", True))
        r = run(find("Mesh1D", "define_measures"), "Mesh1D", stop=st, types=ty)
        s = spec("borders_checked", "Mesh1D", stop=st, types=ty)
        C.use(r)
        same_events(C, "borders are checked against the mesh", r, s, ("check_borders",), c_and(r.g, s.g))
    C.guarded("checks", ch)
