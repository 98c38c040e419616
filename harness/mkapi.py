"""ctypes binding of the MeshKernel C API (library built from /repo's current tree)."""
import ctypes as C
import os
import re
from mksigs import SIGS

MISSING = -999.0
PI, PD = C.POINTER(C.c_int), C.POINTER(C.c_double)


class _S(C.Structure):
    def __init__(self, **kw):
        super().__init__()
        for k, v in self._defaults_.items():
            setattr(self, k, v)
        for k, v in kw.items():
            setattr(self, k, v)
    _defaults_ = {}


class Mesh2D(_S):
    _fields_ = [(n, PI) for n in ("edge_faces", "edge_nodes", "face_edges", "face_nodes", "nodes_per_face")] + \
               [(n, PD) for n in ("node_x", "node_y", "edge_x", "edge_y", "face_x", "face_y")] + \
               [(n, C.c_int) for n in ("num_nodes", "num_valid_nodes", "num_edges", "num_valid_edges", "num_faces", "num_face_nodes")]


class Mesh1D(_S):
    _fields_ = [("edge_nodes", PI), ("node_x", PD), ("node_y", PD)] + \
               [(n, C.c_int) for n in ("num_nodes", "num_valid_nodes", "num_edges", "num_valid_edges")]


class CurvilinearGrid(_S):
    _fields_ = [("node_x", PD), ("node_y", PD), ("num_m", C.c_int), ("num_n", C.c_int)]


class GeometryList(_S):
    _fields_ = [("geometry_separator", C.c_double), ("inner_outer_separator", C.c_double), ("num_coordinates", C.c_int),
                ("coordinates_x", PD), ("coordinates_y", PD), ("values", PD)]
    _defaults_ = dict(geometry_separator=-999.0, inner_outer_separator=-998.0)


class Contacts(_S):
    _fields_ = [("mesh1d_indices", PI), ("mesh2d_indices", PI), ("num_contacts", C.c_int)]


class GriddedSamples(_S):
    _fields_ = [("num_x", C.c_int), ("num_y", C.c_int), ("x_origin", C.c_double), ("y_origin", C.c_double),
                ("cell_size", C.c_double), ("x_coordinates", PD), ("y_coordinates", PD), ("values", C.c_void_p),
                ("value_type", C.c_int)]
    _defaults_ = dict(value_type=1)


class BoundingBox(_S):
    _fields_ = [(n, C.c_double) for n in ("xLowerLeft", "yLowerLeft", "xUpperRight", "yUpperRight")]
    _defaults_ = dict(xLowerLeft=-1.7976931348623157e308, yLowerLeft=-1.7976931348623157e308,
                      xUpperRight=1.7976931348623157e308, yUpperRight=1.7976931348623157e308)


class MakeGridParameters(_S):
    _fields_ = [("num_columns", C.c_int), ("num_rows", C.c_int)] + [(n, C.c_double) for n in (
        "angle", "origin_x", "origin_y", "block_size_x", "block_size_y", "upper_right_x", "upper_right_y",
        "radius_curvature", "uniform_columns_fraction", "uniform_rows_fraction", "maximum_uniform_size_columns",
        "maximum_uniform_size_rows")]
    _defaults_ = dict(num_columns=3, num_rows=3, block_size_x=10.0, block_size_y=10.0, uniform_columns_fraction=0.25,
                      uniform_rows_fraction=0.25, maximum_uniform_size_columns=5.0, maximum_uniform_size_rows=5.0)


class CurvilinearParameters(_S):
    _fields_ = [("m_refinement", C.c_int), ("n_refinement", C.c_int), ("smoothing_iterations", C.c_int),
                ("smoothing_parameter", C.c_double), ("attraction_parameter", C.c_double)]
    _defaults_ = dict(m_refinement=2000, n_refinement=40, smoothing_iterations=10, smoothing_parameter=0.5)


class SplinesToCurvilinearParameters(_S):
    _fields_ = [("aspect_ratio", C.c_double), ("aspect_ratio_grow_factor", C.c_double), ("average_width", C.c_double),
                ("curvature_adapted_grid_spacing", C.c_int), ("grow_grid_outside", C.c_int),
                ("maximum_num_faces_in_uniform_part", C.c_int), ("nodes_on_top_of_each_other_tolerance", C.c_double),
                ("min_cosine_crossing_angles", C.c_double), ("check_front_collisions", C.c_int),
                ("remove_skinny_triangles", C.c_int)]
    _defaults_ = dict(aspect_ratio=0.1, aspect_ratio_grow_factor=1.1, average_width=500.0,
                      curvature_adapted_grid_spacing=1, maximum_num_faces_in_uniform_part=5,
                      nodes_on_top_of_each_other_tolerance=0.0001, min_cosine_crossing_angles=0.95,
                      remove_skinny_triangles=1)


class MeshRefinementParameters(_S):
    _fields_ = [("max_num_refinement_iterations", C.c_int), ("refine_intersected", C.c_int),
                ("use_mass_center_when_refining", C.c_int), ("min_edge_size", C.c_double), ("refinement_type", C.c_int),
                ("connect_hanging_nodes", C.c_int), ("account_for_samples_outside", C.c_int),
                ("smoothing_iterations", C.c_int), ("max_courant_time", C.c_double), ("directional_refinement", C.c_int)]
    _defaults_ = dict(max_num_refinement_iterations=10, use_mass_center_when_refining=1, min_edge_size=0.5,
                      refinement_type=2, connect_hanging_nodes=1, smoothing_iterations=5, max_courant_time=120.0)


class OrthogonalizationParameters(_S):
    _fields_ = [("outer_iterations", C.c_int), ("boundary_iterations", C.c_int), ("inner_iterations", C.c_int),
                ("orthogonalization_to_smoothing_factor", C.c_double),
                ("orthogonalization_to_smoothing_factor_at_boundary", C.c_double),
                ("areal_to_angle_smoothing_factor", C.c_double)]
    _defaults_ = dict(outer_iterations=2, boundary_iterations=25, inner_iterations=25,
                      orthogonalization_to_smoothing_factor=0.975,
                      orthogonalization_to_smoothing_factor_at_boundary=1.0, areal_to_angle_smoothing_factor=1.0)


STRUCTS = {c.__name__: c for c in (Mesh2D, Mesh1D, CurvilinearGrid, GeometryList, Contacts, GriddedSamples, BoundingBox,
                                   MakeGridParameters, CurvilinearParameters, SplinesToCurvilinearParameters,
                                   MeshRefinementParameters, OrthogonalizationParameters)}
SCAL = {"int": C.c_int, "double": C.c_double, "bool": C.c_bool, "size_t": C.c_size_t}


def darr(v):
    v = list(v)
    return (C.c_double * max(len(v), 1))(*v)


def iarr(v):
    v = list(v)
    return (C.c_int * max(len(v), 1))(*v)


CANARY = 5.5e55


class GL:
    """A geometry list that owns its arrays. pts: iterable of (x,y) or (x,y,v); None is a separator."""

    def __init__(self, pts=(), size=None, fill=MISSING):
        if size is not None:
            pts = [(fill, fill, fill)] * size
        xs, ys, vs = [], [], []
        for p in pts:
            if p is None:
                p = (MISSING, MISSING, MISSING)
            xs.append(float(p[0])); ys.append(float(p[1])); vs.append(float(p[2]) if len(p) > 2 else 0.0)
        self.n = len(xs)
        over = [CANARY] * 4 if size is not None else []     # behind the announced size: nothing may be written there
        self.x, self.y, self.v = darr(xs + over), darr(ys + over), darr(vs + over)
        self.over = len(over)
        self.s = GeometryList()
        self.s.num_coordinates = self.n
        self.s.coordinates_x = C.cast(self.x, PD)
        self.s.coordinates_y = C.cast(self.y, PD)
        self.s.values = C.cast(self.v, PD)
        self._keep = (self.x, self.y, self.v)

    def intact(self):
        return all(a[self.n + i] == CANARY for a in (self.x, self.y, self.v) for i in range(self.over))

    def pts(self, n=None):
        n = self.n if n is None else n
        return [(self.x[i], self.y[i]) for i in range(n)]

    def vals(self, n=None):
        n = self.n if n is None else n
        return [self.v[i] for i in range(n)]


class MK:
    """Calls return (exit_code, [values of the scalar reference arguments in order])."""

    digest = None       # a hashlib object: collects everything the calls return

    def __init__(self, path=None, on_call=None):
        self.lib = C.CDLL(path or os.environ["MKLIB"])
        self.on_call = on_call
        self._f = {}
        for n, (ret, args) in SIGS.items():
            f = getattr(self.lib, "mkernel_" + n)
            f.restype = SCAL[ret]
            at, spec = [], []
            for a in [x for x in args.split(", ") if x]:
                t, _ = a.split(" ")
                if t.endswith("&") and t[:-1] in STRUCTS:
                    at.append(C.c_void_p); spec.append("struct")
                elif t.endswith("&"):
                    at.append(C.POINTER(SCAL[t[:-1]])); spec.append(SCAL[t[:-1]])
                elif t.endswith("*"):
                    at.append(C.c_void_p); spec.append("ptr")
                else:
                    at.append(SCAL[t]); spec.append("val")
            f.argtypes = at
            self._f[n] = (f, spec)

    def call(self, name, *args, init=None):
        f, spec = self._f[name]
        out, real, it = [], [], iter(args)
        keep = []
        for sp in spec:
            if sp == "val":
                real.append(next(it))
            elif sp == "struct":
                a = next(it)
                keep.append(a)
                real.append(C.addressof(a.s if isinstance(a, GL) else a))
            elif sp == "ptr":
                a = next(it)
                keep.append(a)
                real.append(None if a is None else (C.cast(C.c_char_p(a), C.c_void_p) if isinstance(a, bytes) else C.addressof(a)))
            else:
                v = sp(-777 if init is None and sp is C.c_int else (init or 0))
                out.append(v)
                real.append(C.byref(v))
        rest = list(it)
        assert not rest, (name, rest)
        if self.on_call:
            self.on_call(name, args)
        rc = f(*real)
        if self.digest is not None:
            h = self.digest
            h.update(repr((name, rc, [v.value for v in out])).encode())
            if rc == 0:
                for a in keep:
                    for b in getattr(a, "_keep", ()) if not isinstance(a, C.Array) else (a,):
                        h.update(bytes(b))
                    if isinstance(a, C.Structure):
                        h.update(repr([getattr(a, f[0]) for f in a._fields_ if f[1] in (C.c_int, C.c_double)]).encode())
        return rc, [v.value for v in out]

    def __getattr__(self, name):
        if name in SIGS:
            return lambda *a, **k: self.call(name, *a, **k)
        raise AttributeError(name)

    def error(self):
        buf = (C.c_char * 4096)()
        self._f["get_error"][0](C.addressof(buf))
        return buf.value.decode(errors="replace")

    # ---- observers -----------------------------------------------------------------------------------
    CAP = 20000

    def raw_mesh2d(self, mid):
        """Nodes and edges exactly as stored, through the one getter that does not re-administrate the mesh, so
        observing does not alter it.  That getter wants the exact sizes; they are found by offering sizes until it
        accepts them, starting from the last known ones and the ones its error message mentions."""
        cache = self.__dict__.setdefault("_szcache", {})
        guess = cache.get(mid, (0, 0))
        for _ in range(6):
            nn, ne = guess
            x, y, e = (C.c_double * (nn + 1))(), (C.c_double * (nn + 1))(), (C.c_int * (2 * ne + 2))()
            m = Mesh2D()
            m.node_x, m.node_y, m.edge_nodes = C.cast(x, PD), C.cast(y, PD), C.cast(e, PI)
            m.num_nodes, m.num_edges = nn, ne
            rc, _ = self.call("mesh2d_get_node_edge_data", mid, m)
            if rc == 0:
                cache[mid] = guess
                return 0, [(x[i], y[i]) for i in range(nn)], [(e[2 * i], e[2 * i + 1]) for i in range(ne)]
            msg = self.error()
            mm = re.search(r"(\d+)\D+?(\d+)\s*$", msg.strip())
            if not mm or rc != 4:
                r2, d = self.mesh2d_dims(mid)
                if r2 or rc != 4 or (d.num_nodes, d.num_edges) == guess:
                    return rc, None, None
                guess = (d.num_nodes, d.num_edges)
                continue
            guess = (int(mm.group(2)), ne) if "number of nodes" in msg else (nn, int(mm.group(2)))
        raise RuntimeError("cannot observe mesh2d sizes: " + msg)

    def mesh2d_dims(self, mid):
        m = Mesh2D()
        rc, _ = self.call("mesh2d_get_dimensions", mid, m)
        return rc, m

    def mesh2d_full(self, mid, m=None):
        """m: the dimensions, when known (asking for them would find the faces anew)"""
        rc, m = (0, m) if m else self.mesh2d_dims(mid)
        if rc:
            return rc, None
        nn, ne, nf, nfn = m.num_nodes, m.num_edges, m.num_faces, m.num_face_nodes
        x, y = darr([0] * nn), darr([0] * nn)
        en, ef = iarr([-777] * (2 * ne)), iarr([-777] * (2 * ne))
        ex, ey, fx, fy = darr([0] * ne), darr([0] * ne), darr([0] * nf), darr([0] * nf)
        fe, fn, npf = iarr([-777] * nfn), iarr([-777] * nfn), iarr([-777] * nf)
        for k, v in dict(node_x=x, node_y=y, edge_x=ex, edge_y=ey, face_x=fx, face_y=fy).items():
            setattr(m, k, C.cast(v, PD))
        for k, v in dict(edge_nodes=en, edge_faces=ef, face_edges=fe, face_nodes=fn, nodes_per_face=npf).items():
            setattr(m, k, C.cast(v, PI))
        m._keep = (x, y, en, ef, ex, ey, fx, fy, fe, fn, npf)
        rc, _ = self.call("mesh2d_get_data", mid, m)
        if rc:
            return rc, None
        faces, faceedges, p = [], [], 0
        for i in range(nf):
            k = npf[i]
            faces.append([fn[p + j] for j in range(k)])
            faceedges.append([fe[p + j] for j in range(k)])
            p += k
        return 0, dict(nodes=[(x[i], y[i]) for i in range(nn)], edges=[(en[2 * i], en[2 * i + 1]) for i in range(ne)],
                       faces=faces, face_edges=faceedges, edge_faces=[(ef[2 * i], ef[2 * i + 1]) for i in range(ne)],
                       edge_xy=[(ex[i], ey[i]) for i in range(ne)], face_xy=[(fx[i], fy[i]) for i in range(nf)],
                       num_valid_nodes=m.num_valid_nodes, num_valid_edges=m.num_valid_edges, num_face_nodes=nfn)

    def curvi(self, mid):
        g = CurvilinearGrid()
        rc, _ = self.call("curvilinear_get_dimensions", mid, g)
        if rc:
            return rc, None
        n = max(g.num_m, 0) * max(g.num_n, 0)
        x, y = darr([0] * n), darr([0] * n)
        g.node_x, g.node_y = C.cast(x, PD), C.cast(y, PD)
        g._keep = (x, y)
        if n:
            rc, _ = self.call("curvilinear_get_data", mid, g)
            if rc:
                return rc, None
        return 0, dict(m=g.num_m, n=g.num_n, nodes=[(x[i], y[i]) for i in range(n)])

    def mesh1d(self, mid):
        m = Mesh1D()
        rc, _ = self.call("mesh1d_get_dimensions", mid, m)
        if rc:
            return rc, None
        x, y, e = darr([0] * m.num_nodes), darr([0] * m.num_nodes), iarr([0] * 2 * m.num_edges)
        m.node_x, m.node_y, m.edge_nodes = C.cast(x, PD), C.cast(y, PD), C.cast(e, PI)
        m._keep = (x, y, e)
        if m.num_nodes:
            rc, _ = self.call("mesh1d_get_data", mid, m)
            if rc:
                return rc, None
        return 0, dict(nodes=[(x[i], y[i]) for i in range(m.num_nodes)],
                       edges=[(e[2 * i], e[2 * i + 1]) for i in range(m.num_edges)],
                       num_valid_nodes=m.num_valid_nodes, num_valid_edges=m.num_valid_edges)

    def contacts(self, mid):
        c = Contacts()
        rc, _ = self.call("contacts_get_dimensions", mid, c)
        if rc:
            return rc, None
        a, b = iarr([-777] * c.num_contacts), iarr([-777] * c.num_contacts)
        c.mesh1d_indices, c.mesh2d_indices = C.cast(a, PI), C.cast(b, PI)
        c._keep = (a, b)
        if c.num_contacts:
            rc, _ = self.call("contacts_get_data", mid, c)
            if rc:
                return rc, None
        return 0, [(a[i], b[i]) for i in range(c.num_contacts)]

    # ---- setters -------------------------------------------------------------------------------------
    def mk_mesh2d(self, nodes, edges, faces=None):
        m = Mesh2D()
        x, y = darr([p[0] for p in nodes]), darr([p[1] for p in nodes])
        e = iarr([i for ed in edges for i in ed])
        m.node_x, m.node_y, m.edge_nodes = C.cast(x, PD), C.cast(y, PD), C.cast(e, PI)
        m.num_nodes, m.num_edges = len(nodes), len(edges)
        m._keep = (x, y, e)
        if faces:
            fn, npf = iarr([i for f in faces for i in f]), iarr([len(f) for f in faces])
            m.face_nodes, m.nodes_per_face = C.cast(fn, PI), C.cast(npf, PI)
            m.num_faces, m.num_face_nodes = len(faces), sum(map(len, faces))
            m._keep += (fn, npf)
        return m

    def mk_mesh1d(self, nodes, edges):
        m = Mesh1D()
        x, y = darr([p[0] for p in nodes]), darr([p[1] for p in nodes])
        e = iarr([i for ed in edges for i in ed])
        m.node_x, m.node_y, m.edge_nodes = C.cast(x, PD), C.cast(y, PD), C.cast(e, PI)
        m.num_nodes, m.num_edges = len(nodes), len(edges)
        m.num_valid_nodes, m.num_valid_edges = len(nodes), len(edges)
        m._keep = (x, y, e)
        return m

    def mk_curvi(self, rows):
        """rows: list over n of lists over m of (x,y)"""
        g = CurvilinearGrid()
        g.num_n, g.num_m = len(rows), len(rows[0])
        x = darr([p[0] for r in rows for p in r]); y = darr([p[1] for r in rows for p in r])
        g.node_x, g.node_y = C.cast(x, PD), C.cast(y, PD)
        g._keep = (x, y)
        return g

    def mk_contacts(self, pairs):
        c = Contacts()
        a, b = iarr([p[0] for p in pairs]), iarr([p[1] for p in pairs])
        c.mesh1d_indices, c.mesh2d_indices, c.num_contacts = C.cast(a, PI), C.cast(b, PI), len(pairs)
        c._keep = (a, b)
        return c
