"""Reference reading of files and warnings (read by the analysis, never run)."""
import festim
from fenics import *
import xml.etree.ElementTree as ET
import warnings


def steps_of(filename):
    """the time steps of the first grid of the first domain"""
    return list(list(ET.parse(filename).getroot())[0])[0]


def times_in(filename):
    out = []
    for step in steps_of(filename):
        for e in step:
            if "Time" in e.tag:
                out.append(float(e.attrib["Value"]))
    return out


def u_label_in(filename, label):
    return label in festim.extract_xdmf_labels(filename)


def r_label_in(filename, label):
    for step in steps_of(filename):
        for e in step:
            if "Attribute" in e.tag and e.attrib["Name"] == label:
                return True
    return False


def from_file(self, V, value, label, time_step):
    c = Function(V)
    with XDMFFile(value) as file:
        file.read_checkpoint(c, label, time_step)


# ---- warnings
def w_unused(self, T, derived_quantities):
    heat = isinstance(T, festim.HeatTransferProblem)
    for mat in self:
        if not heat:
            if mat.rho is not None:
                warnings.warn("rho", UserWarning)
            if mat.heat_capacity is not None:
                warnings.warn("heat_capacity", UserWarning)
        if mat.thermal_cond is not None and not heat:
            used = False
            for q in derived_quantities:
                if isinstance(q, festim.SurfaceFlux) and q.field == "T":
                    used = True
            if not used:
                warnings.warn("thermal_cond", UserWarning)


def w_1d(self, t):
    if self.checkpoint and self.function.function_space().mesh().topology().dim() == 1:
        warnings.warn("1D")


def w_stop(initial_value, stepsize_change_ratio, t_stop, stepsize_stop_max):
    if stepsize_change_ratio is not None and (t_stop or stepsize_stop_max):
        warnings.warn("deprecated", DeprecationWarning)


def is_xdmf(value):
    return value.endswith(".xdmf")


def w_meshes(self):
    for e in self.exports:
        if isinstance(e, festim.DerivedQuantities):
            for q in e:
                if self.mesh.type not in q.allowed_meshes:
                    warnings.warn("mesh")
