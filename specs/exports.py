"""Reference export schedules, tables, labels and files (read by the analysis, never run)."""
import festim
from fenics import *
import fenics as f
import numpy as np
import os


# ---- schedules
def dq_export(self, t, final_time, nb_iterations):
    if final_time is None:
        return True
    if self.nb_iterations_between_exports is None:
        return np.isclose(t, final_time, atol=0)
    return nb_iterations % self.nb_iterations_between_exports == 0


def dq_compute(self, nb_iterations):
    return nb_iterations % self.nb_iterations_between_compute == 0


def xdmf_export(self, t, final_time, nb_iterations):
    if self.mode == "last":
        return final_time is None or np.isclose(t, final_time, atol=0)
    return isinstance(self.mode, int) and nb_iterations % self.mode == 0


def txt_time(self, current_time):
    if self.times is None:
        return True
    return any(np.isclose(x, current_time, atol=0) for x in self.times)


def txt_last(self, current_time, final_time):
    if final_time is None:
        return True
    if self.times is None:
        return np.isclose(current_time, final_time, atol=0)
    return np.isclose(current_time, self.times[-1], atol=0)


def txt_saved(self, current_time, final_time):
    return self.is_it_time_to_export(current_time) and (not self.write_at_last or self.is_last(current_time, final_time))


def sorted_times(field, filename, times):
    if times:
        return sorted(times)
    return times


def due(self, label_to_function, dx):
    """what is computed and written at a step"""
    for e in self:
        if isinstance(e, festim.DerivedQuantities):
            if dq_compute(e, self.nb_iterations):
                e.compute(self.t)
            if dq_export(e, self.t, self.final_time, self.nb_iterations):
                e.write()
        elif isinstance(e, festim.TrapDensityXDMF):
            if xdmf_export(e, self.t, self.final_time, self.nb_iterations):
                e.write(self.t, dx)
        elif isinstance(e, festim.XDMFExport):
            if xdmf_export(e, self.t, self.final_time, self.nb_iterations):
                e.write(self.t)
        elif isinstance(e, festim.TXTExport):
            e.write(self.t, self.final_time)


def u_two_steps(self, e, labels, dx, t1, t2):
    self.t = t1
    self.write(labels, dx)
    self.t = t2
    self.write(labels, dx)


def r_two_steps(self, e, labels, dx, t1, t2):
    """a file is continued once this run has written to it"""
    first = xdmf_export(e, t1, self.final_time, self.nb_iterations)
    if first and e.checkpoint:
        e.file.write_checkpoint(labels["solute"], e.label, t1, XDMFFile.Encoding.HDF5, append=e.append)
    if xdmf_export(e, t2, self.final_time, self.nb_iterations + 1) and e.checkpoint:
        e.file.write_checkpoint(labels["solute"], e.label, t2, XDMFFile.Encoding.HDF5, append=True if first else e.append)


# ---- tables
def header_of(self):
    out = ["t(s)"]
    for q in self:
        q.show_units = self.show_units
        out.append(q.title)
    return out


def rows(self, t):
    row = [t]
    for q in self:
        if isinstance(q, (festim.MaximumVolume, festim.MinimumVolume)):
            row.append(q.compute(self.volume_markers))
        else:
            row.append(q.compute())
    out = list(self.data)
    if len(out) == 0 and len(self) > 0:
        out = [self.make_header()]
    return out + [row]


def value_of(self, q):
    if isinstance(q, (festim.MaximumVolume, festim.MinimumVolume)):
        return q.compute(self.volume_markers)
    return q.compute()


def make_dir(path):
    d = os.path.dirname(path)
    if d and not os.path.exists(d):
        os.makedirs(d, exist_ok=True)


def folder_of(self):
    d = os.path.dirname(self.filename)
    return [d, os.path.exists(d)]


def dq_file(self):
    if self.filename is not None:
        make_dir(self.filename)
        np.savetxt(self.filename, np.array(self.data), fmt="%s", delimiter=",")


def txt_file(self, current_time, final_time):
    if txt_time(self, current_time):
        sol = project(self.function, self.V)
        make_dir(self.filename)
        if final_time is None:
            self.header = self.header + ",t=steady"
        else:
            self.header = self.header + ",t=" + format(current_time, self.header_format) + "s"
        self.data = np.column_stack([self.data, np.transpose(sol.vector()[:])[self._unique_indices]])
        if not self.write_at_last or txt_last(self, current_time, final_time):
            np.savetxt(self.filename, self.data, header=self.header, delimiter=",", comments="")


# ---- labels
def labels(self):
    c = self.mobile.post_processing_solution
    out = {"solute": c, "0": c, 0: c, "T": self.T.T}
    total = c
    for trap in self.traps:
        total = total + trap.post_processing_solution
    out["retention"] = total
    for trap in self.traps:
        out[trap.id] = trap.post_processing_solution
        out[str(trap.id)] = trap.post_processing_solution
    return out


def adsorbed(self):
    return [{"post_processing_solutions": bc.post_processing_solutions, "surfaces": bc.surfaces} for bc in self.boundary_conditions if isinstance(bc, festim.SurfaceKinetics)]


def works_on(self, label_to_function, dx):
    """the function each export works on"""
    for e in self:
        if isinstance(e, festim.DerivedQuantities):
            if dq_compute(e, self.nb_iterations):
                for q in e:
                    if isinstance(q, (festim.MaximumVolume, festim.MinimumVolume)):
                        if not isinstance(label_to_function[q.field], Function):
                            label_to_function[q.field] = project(label_to_function[q.field], self.V_DG1)
                    if isinstance(q, festim.AdsorbedHydrogen):
                        for s in label_to_function[q.field]:
                            if q.surface in s["surfaces"]:
                                q.function = s["post_processing_solutions"][s["surfaces"].index(q.surface)]
                    else:
                        q.function = label_to_function[q.field]
        elif isinstance(e, festim.XDMFExport):
            if xdmf_export(e, self.t, self.final_time, self.nb_iterations):
                if e.field == "retention" and not isinstance(label_to_function["retention"], Function):
                    label_to_function["retention"] = project(label_to_function["retention"], self.V_DG1)
                e.function = label_to_function[e.field]
        elif isinstance(e, festim.TXTExport):
            if not isinstance(label_to_function[e.field], Function):
                label_to_function[e.field] = project(label_to_function[e.field], self.V_DG1)
            e.function = label_to_function[e.field]


def total(self):
    c = self.mobile.post_processing_solution
    for trap in self.traps:
        c = c + trap.post_processing_solution
    return c


def components(self):
    """the component of the solution each concentration is read from"""
    if self.u.function_space().num_sub_spaces() == 0:
        res = [self.u]
    else:
        res = list(self.u.split())
    return res


# ---- files
def xdmf_path(self):
    if self.folder is None:
        self.file = XDMFFile(self.filename)
    else:
        self.file = XDMFFile("{}/{}".format(self.folder, self.filename))
    return self.file


def xdmf_file(self, t):
    self.function.rename(self.label, "label")
    if self.checkpoint:
        self.file.write_checkpoint(self.function, self.label, t, XDMFFile.Encoding.HDF5, append=self.append)
    else:
        self.file.write(self.function, t)


def xdmf_label(field, label):
    if label is not None:
        return label
    if field == "solute":
        return "mobile_concentration"
    if field == "T":
        return "temperature"
    if field == "retention":
        return "retention"
    if field != "trap" and field.isdigit():
        return "trap_i_concentration".replace("i", field, 1)
    raise ValueError("no default label")


def xdmf_name(field, label, filename):
    if filename is not None:
        return filename
    return "{}.xdmf".format(xdmf_label(field, label))


def two_kinetics(k_sb, k_bs, lambda_IS, n_surf, n_IS, J_vs, sa, sb, sc, ca, cb):
    a = festim.SurfaceKinetics(k_sb=k_sb, k_bs=k_bs, lambda_IS=lambda_IS, n_surf=n_surf, n_IS=n_IS, J_vs=J_vs, surfaces=[sa, sb], initial_condition=ca)
    b = festim.SurfaceKinetics(k_sb=k_sb, k_bs=k_bs, lambda_IS=lambda_IS, n_surf=n_surf, n_IS=n_IS, J_vs=J_vs, surfaces=sc, initial_condition=cb)
    return [a, b]


def u_adsorbed(self, exports, k_sb, k_bs, lambda_IS, n_surf, n_IS, J_vs, sa, sb, sc, ca, cb):
    a, b = two_kinetics(k_sb, k_bs, lambda_IS, n_surf, n_IS, J_vs, sa, sb, sc, ca, cb)
    self.boundary_conditions = [a, b]
    self.update_post_processing_solutions(exports)
    return [a.post_processing_solutions[0], a.post_processing_solutions[1], b.post_processing_solutions[0]]


def r_adsorbed(self):
    res = self.u.split()
    n = len(self.traps)
    return [res[n + 1], res[n + 2], res[n + 3]]


def density_file(self, t, dx):
    V = self.function.function_space().collapse()
    u = Function(V)
    v = TestFunction(V)
    F = inner(u, v) * dx
    for i, mat in enumerate(self.trap.materials):
        if len(self.trap.density) > 1:
            F -= inner(self.trap.density[i], v) * dx(mat.id)
        else:
            F -= inner(self.trap.density[0], v) * dx(mat.id)
    solve(F == 0, u, bcs=[])
    u.rename(self.label, "label")
    if self.checkpoint:
        self.file.write_checkpoint(u, self.label, t, XDMFFile.Encoding.HDF5, append=self.append)
    else:
        self.file.write(u, t)


def txt_setup(self, mesh, project_to_DG, materials):
    """positions in increasing order; in DG each position once, except next to interfaces"""
    self.V = FunctionSpace(mesh, "DG", 1) if project_to_DG else FunctionSpace(mesh, "CG", 1)
    x = np.transpose([interpolate(Expression("x[0]", degree=1), self.V).vector()[:]])
    order = np.argsort(x, axis=0)[:, 0]
    if project_to_DG and self.filter:
        borders = []
        for m in materials:
            if m.borders:
                for b in m.borders:
                    borders.append(b)
        _, firsts = np.unique(x, return_index=True)
        near = []
        for b in np.unique(borders):
            for i in np.where(x == x[np.abs(x - b).argmin()])[0]:
                near.append(i)
        keep = []
        for i in order:
            if i in firsts or i in near:
                keep.append(i)
        order = np.array(keep)
    self._unique_indices = order
    self.data = x[order]
    self.header = "x"
