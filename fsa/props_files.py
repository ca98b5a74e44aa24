"""What is read from files; what is reported by warnings."""
from .oblig import *
from .reg import prop_check
from .props_eq import spec, attr_of, find, TT, val
from .props_run import events, same_events, obj_list
from .props_mat import returns
from .props_cfg import refuses


@prop_check("C29")
def reading(C):
    returns(C, "times of an XDMF file", (None, "extract_xdmf_times"), "times_in")

    def lab():
        r, s = spec("u_label_in"), spec("r_label_in")
        C.use(r)
        C.same_cond("labels of an XDMF file", r.it.truth(r.ret, r.st), s.it.truth(s.ret, s.st), C.both(r, s), find(None, "extract_xdmf_labels"))
        C.completes("labels of an XDMF file", r, s.g)
    C.guarded("labels", lab)

    def written_out():
        """a file of two steps of two or three entries"""
        g = spec("steps_of").ret

        def pre(it, st, v):
            for j in range(2):
                it.heap_write(st, sym("step%d" % j), "$items", mkL([("one", T_, sym("e%d%d" % (j, k))) for k in range(3 - j)]))
            it.heap_write(st, g, "$items", mkL([("one", T_, sym("step%d" % j)) for j in range(2)]))
        r = run(find(None, "extract_xdmf_times"), None, pre=pre)
        s = spec("times_in", pre=pre)
        C.use(r)
        C.equal("times of an XDMF file of two steps", val(r, r.ret), val(s, s.ret), C.both(r, s), r.fi)
        r, s = spec("u_label_in", pre=pre), spec("r_label_in", pre=pre)
        C.same_cond("labels of an XDMF file of two steps", r.it.truth(r.ret, r.st), s.it.truth(s.ret, s.st), C.both(r, s), find(None, "extract_xdmf_labels"))
    C.guarded("two steps", written_out)

    for cls in ("Mobile", "Trap", "Theta"):
        def ini():
            st = {}
            r = run(find(cls, "initialise"), cls, types=dict(value=("str", True)))
            s = spec("from_file", cls, types=dict(value=("str", True)))
            C.use(r)
            q = spec("is_xdmf", args=dict(value=sym("value")), types=dict(value=("str", True)))
            same_events(C, "%s: the field named is read at the step named" % cls, r, s, ("read_checkpoint",), C.both(r, s, q.it.truth(q.ret, q.st)))
        C.guarded("initial", ini)

    def tf():
        cls = "TemperatureFromXDMF"
        r = run(find(cls, "create_functions"), cls, types=dict(TT, self=(cls, True)))
        s = spec("file_start", cls, types=TT)
        C.use(r)
        same_events(C, "temperature: the last step of the field named", r, s, ("read_checkpoint",), C.both(r, s))
        for n in ("T", "T_n"):
            C.equal("temperature: %s is that of the file" % n, val(r, r.it.get_attr(r.selfv, n, r.st, None)),
                    val(s, s.it.get_attr(s.args["self"], n, s.st, None)), C.both(r, s), r.fi)
        r = run(find(cls, "update"), cls, types=dict(self=(cls, True)))
        C.use(r)
        for n in ("T", "T_n"):
            v = r.it.get_attr(r.selfv, n, r.st, None)
            C.equal("temperature: %s of the file is kept" % n, val(r, v), r.norm(v), r.g, r.fi)
    C.guarded("temperature", tf)
    refuses(C, "temperature label absent from its file", ("TemperatureFromXDMF", "__init__"), "bad_T_file", stop={"extract_xdmf_labels"})


@prop_check("C30")
def warned(C):
    when = lambda e: ()

    def go(title, fi, law, **kw):
        def f():
            r = run(find(*fi), fi[0], **kw)
            s = spec(law, fi[0], **kw)
            C.use(r)
            same_events(C, title, r, s, ("warnings.warn",), C.both(r, s), args=when)
        C.guarded(title, f)
    go("unused thermal properties", ("Materials", "check_for_unused_properties"), "w_unused")
    go("checkpoints in 1D", ("XDMFExport", "write"), "w_1d")
    go("deprecated step size settings", ("Stepsize", "__init__"), "w_stop")

    def meshes():
        from .props_set import typed, SETT, SETUP, put
        for a, b in (("SurfaceFlux", "SurfaceFluxCylindrical"), ("TotalVolume", "SurfaceFluxSpherical"), ("AverageVolume", "AverageVolumeCylindrical")):
            def pre(it, st, v):
                xs = [obj_list(it, st, "DerivedQuantities", typed(it, a, True, "q1") + typed(it, b, True, "q2")), obj_list(it, st, "DerivedQuantities", typed(it, b, True, "q3"))]
                put(it, st, v["self"], "exports", obj_list(it, st, "Exports", xs))
            kw = dict(stop=SETUP, attr={**SETT, ("Simulation", "T"): ("Temperature", True), ("Simulation", "_T"): ("Temperature", True)}, pre=pre)
            r = run(find("Simulation", "initialise"), "Simulation", **kw)
            s = spec("w_meshes", "Simulation", **kw)
            C.use(r)
            same_events(C, "quantities of another coordinate system: %s, %s" % (a, b), r, s, ("warnings.warn",), c_and(r.g, s.g), args=when)
    C.guarded("meshes", meshes)
