"""Reference material properties, mesh marking, initial values (read by the analysis, never run)."""
import festim
from festim import k_B, R
import fenics as f
import numpy as np
import sympy as sp


# ---- materials
def ids_of_material(m):
    return m.id if isinstance(m.id, list) else [m.id]


def material_of_id(self, mat_id):
    for m in self:
        if mat_id in ids_of_material(m):
            return m
    raise ValueError("no such id")


def material_of_name(self, name):
    for m in self:
        if m.name == name:
            return m
    raise ValueError("no such name")


def material_of(self, mat):
    if isinstance(mat, int):
        return material_of_id(self, mat)
    if isinstance(mat, str):
        return material_of_name(self, mat)
    if isinstance(mat, festim.Material):
        return mat
    return None


def subdomain_at(self, x):
    for m in self:
        if m.borders is None:
            return m.id
        if isinstance(m.borders[0], list):
            bs = m.borders
        else:
            bs = [m.borders]
        for k in range(len(bs)):
            if bs[k][0] <= x and x <= bs[k][1]:
                return m.id[k] if isinstance(m.id, list) else m.id
    return 0


def u_field(self, vm, T, x, cell, name):
    self.create_properties(vm, T)
    value = [0]
    getattr(self, name).eval_cell(value, x, cell)
    return value[0]


def r_arrhenius(self, vm, T, x, cell, pre, E):
    mat = material_of_id(self, vm[f.Cell(vm.mesh(), cell.index)])
    return getattr(mat, pre) * f.exp(-getattr(mat, E) / k_B / T(x))


def r_thermal(self, vm, T, x, cell, key):
    mat = material_of_id(self, vm[f.Cell(vm.mesh(), cell.index)])
    v = getattr(mat, key)
    if callable(v):
        return v(T(x))
    return v


def ev_of_kj(energy):
    return energy * 1000 / (R / k_B)


def constant_of(constant):
    if isinstance(constant, f.Constant):
        return constant
    if isinstance(constant, (int, float)):
        return f.Constant(constant)
    return None


def expression_of(expr):
    if isinstance(expr, (f.Expression, f.UserExpression)):
        return expr
    return f.Expression(sp.printing.ccode(expr), degree=2, t=0)


def constant_or_expression_of(val):
    if isinstance(val, (f.Constant, f.Expression, f.UserExpression)):
        return val
    if isinstance(val, (int, float)):
        return f.Constant(val)
    return f.Expression(sp.printing.ccode(val), degree=2, t=0)


# ---- meshes
def mesh_1d_marked(self, materials):
    volumes = f.MeshFunction("size_t", self.mesh, self.mesh.topology().dim(), 0)
    for cell in f.cells(self.mesh):
        volumes[cell] = materials.find_subdomain_from_x_coordinate(cell.midpoint().x())
    surfaces = f.MeshFunction("size_t", self.mesh, self.mesh.topology().dim() - 1, 0)
    for facet in f.facets(self.mesh):
        if f.near(facet.midpoint().x(), self.start):
            surfaces[facet] = 1
        if f.near(facet.midpoint().x(), self.size):
            surfaces[facet] = 2
    self.volume_markers = volumes
    self.surface_markers = surfaces
    self.dx = f.Measure("dx", domain=self.mesh, subdomain_data=volumes)
    self.ds = f.Measure("ds", domain=self.mesh, subdomain_data=surfaces)


def both_ends(self, facet):
    return f.near(facet.midpoint().x(), self.start) and f.near(facet.midpoint().x(), self.size)


def mesh_any(self):
    self.dx = f.Measure("dx", domain=self.mesh, subdomain_data=self.volume_markers)
    self.ds = f.Measure("ds", domain=self.mesh, subdomain_data=self.surface_markers)


def mesh_vertices(self, vertices):
    self.size = max(vertices)
    self.start = min(vertices)
    mesh = f.Mesh()
    if f.MPI.comm_world.rank == 0:
        points = np.unique(vertices)
        editor = f.MeshEditor()
        editor.open(mesh, "interval", 1, 1)
        editor.init_vertices(len(points))
        editor.init_cells(len(points) - 1)
        for i in range(len(points)):
            editor.add_vertex(i, np.array([points[i]]))
        for i in range(len(points) - 1):
            editor.add_cell(i, np.array([i, i + 1]))
        editor.close()
    f.MeshPartitioning.build_distributed_mesh(mesh)
    self.mesh = mesh


def mesh_xdmf(self, volume_file, boundary_file):
    mesh = f.Mesh()
    f.XDMFFile(volume_file).read(mesh)
    volumes = f.MeshFunction("size_t", mesh, mesh.topology().dim())
    f.XDMFFile(volume_file).read(volumes)
    values = f.MeshValueCollection("size_t", mesh, mesh.topology().dim() - 1)
    f.XDMFFile(boundary_file).read(values, "f")
    self.mesh = mesh
    self.volume_markers = volumes
    self.surface_markers = f.MeshFunction("size_t", mesh, values)
