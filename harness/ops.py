"""Catalogue of concrete API calls the conformance driver can make on one instance.

Every entry draws its own arguments from the instance's current (observed) content, so that a random history is made of
mostly meaningful calls, with a share of deliberately invalid ones.  Nothing here judges results: the driver records what
was called and what was observed, and the TLA+ specifications decide.
"""
from mkapi import *

EDITS, QUERIES, BADS = {}, {}, {}


def edit(name, needs="any", weight=1.0, isolated_ok=False):
    def deco(f):
        EDITS[name] = dict(fn=f, needs=needs, weight=weight, isolated_ok=isolated_ok)
        return f
    return deco


def wrong(name, needs="any", weight=1.0, isolated_ok=False):
    """a call with arguments the library is expected to refuse"""
    def deco(f):
        BADS[f"{name}#{len(BADS)}"] = dict(fn=f, needs=needs, weight=weight, isolated_ok=isolated_ok)
        return f
    return deco


def query(name, needs="any", weight=1.0, intrusive=True):
    def deco(f):
        QUERIES[name] = dict(fn=f, needs=needs, weight=weight, intrusive=intrusive)
        return f
    return deco


def mk_contacts(pairs):
    a, b = iarr([p[0] for p in pairs]), iarr([p[1] for p in pairs])
    c = Contacts()
    c.mesh1d_indices, c.mesh2d_indices, c.num_contacts = C.cast(a, PI), C.cast(b, PI), len(pairs)
    c._keep = (a, b)
    return c


def valid(p):
    return p[0] != MISSING and p[1] != MISSING


class Ctx:
    """What an operation may look at: the instance's last observed content."""

    def __init__(self, mk, mid, rng, obs):
        self.mk, self.id, self.rng, self.obs = mk, mid, rng, obs

    @property
    def nodes(self):
        return self.obs["nodes"]

    @property
    def edges(self):
        return self.obs["edges"]

    def vnodes(self):
        return [i for i, p in enumerate(self.nodes) if valid(p)]

    def vedges(self):
        return [i for i, e in enumerate(self.edges) if e[0] >= 0 and e[1] >= 0 and valid(self.nodes[e[0]]) and valid(self.nodes[e[1]])]

    def cedges(self):
        return sorted({n for i in self.vedges() for n in self.edges[i]})

    def bbox(self):
        v = [self.nodes[i] for i in self.vnodes()]
        if not v:
            return (0.0, 0.0, 10.0, 10.0)
        return (min(p[0] for p in v), min(p[1] for p in v), max(p[0] for p in v), max(p[1] for p in v))

    def span(self):
        b = self.bbox()
        return max(b[2] - b[0], b[3] - b[1], 1.0)

    def rect_poly(self, rng=None, frac=None, closed=True):
        """an axis aligned polygon that covers part of the mesh, never through lattice points"""
        b = self.bbox()
        w, h = max(b[2] - b[0], 1.0), max(b[3] - b[1], 1.0)
        x0 = b[0] - 0.137 * w + self.rng.random() * 0.7 * w
        y0 = b[1] - 0.141 * h + self.rng.random() * 0.7 * h
        x1 = x0 + (0.31 + 0.7 * self.rng.random()) * w
        y1 = y0 + (0.33 + 0.7 * self.rng.random()) * h
        p = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
        if self.rng.random() < 0.3:
            p = [(x0, y0), (x1, y0), ((x0 + x1) / 2, y1)]
        return p + [p[0]] if closed else p

    def near(self, i, eps=0.01):
        p = self.nodes[i]
        s = self.span()
        return (p[0] + (self.rng.random() - .5) * eps * s, p[1] + (self.rng.random() - .5) * eps * s)

    # curvilinear helpers
    @property
    def cg(self):
        return self.obs["curvi"]

    def cnode(self, n, m):
        return self.cg["nodes"][n * self.cg["m"] + m]

    def cvalid(self):
        g = self.cg
        return [(n, m) for n in range(g["n"]) for m in range(g["m"]) if valid(self.cnode(n, m))]

    def cpair(self, same_line=None):
        v = self.cvalid()
        for _ in range(50):
            a, b = self.rng.choice(v), self.rng.choice(v)
            if a == b:
                continue
            if same_line is None or (same_line and (a[0] == b[0] or a[1] == b[1])) or \
                    (same_line is False and a[0] != b[0] and a[1] != b[1]):
                return a, b
        return v[0], v[-1]


def grid_params(c, **kw):
    r = c.rng
    d = dict(num_columns=r.randint(1, 4), num_rows=r.randint(1, 4), block_size_x=10.0, block_size_y=10.0,
             origin_x=10.0 * r.randint(-3, 3), origin_y=10.0 * r.randint(-3, 3))
    d.update(kw)
    return MakeGridParameters(**d)


def bad(c, p=0.06):
    return c.rng.random() < p


BIGBB = (-1e6, -1e6, 1e6, 1e6)


# ------------------------------------------------------------------ 2D mesh: creation
@edit("mesh2d_make_rectangular_mesh", weight=1.5)
def _(c):
    p = grid_params(c)
    if bad(c):
        p.num_columns = -1
    return c.mk.mesh2d_make_rectangular_mesh(c.id, p)


@edit("mesh2d_make_rectangular_mesh_from_polygon")
def _(c):
    return c.mk.mesh2d_make_rectangular_mesh_from_polygon(c.id, grid_params(c), GL(c.rect_poly()))


@edit("mesh2d_make_rectangular_mesh_on_extension")
def _(c):
    x, y = 10.0 * c.rng.randint(-3, 3), 10.0 * c.rng.randint(-3, 3)
    return c.mk.mesh2d_make_rectangular_mesh_on_extension(c.id, MakeGridParameters(
        block_size_x=10.0, block_size_y=10.0, origin_x=x, origin_y=y,
        upper_right_x=x + 10.0 * c.rng.randint(0, 4), upper_right_y=y + 10.0 * c.rng.randint(0, 4)))


@edit("mesh2d_make_triangular_mesh_from_polygon", weight=0.5)
def _(c):
    x, y, s = 10.0 * c.rng.randint(-3, 3), 10.0 * c.rng.randint(-3, 3), 10.0 * c.rng.randint(1, 3)
    poly = [(x, y), (x + s, y), (x + 2 * s, y), (x + 2 * s, y + s), (x + 2 * s, y + 2 * s), (x + s, y + 2 * s), (x, y + 2 * s), (x, y + s), (x, y)]
    if bad(c):
        poly = poly[:2]
    return c.mk.mesh2d_make_triangular_mesh_from_polygon(c.id, GL(poly))


@edit("mesh2d_make_triangular_mesh_from_samples", weight=0.5)
def _(c):
    pts = {(10.0 * c.rng.randint(-3, 3) + c.rng.randint(0, 3), 10.0 * c.rng.randint(-3, 3) + c.rng.randint(0, 3), 1.0) for _ in range(8)}
    return c.mk.mesh2d_make_triangular_mesh_from_samples(c.id, GL(sorted(pts)))


def small_mesh(c):
    ox, oy, s = 10.0 * c.rng.randint(-4, 4), 10.0 * c.rng.randint(-4, 4), 10.0
    nx, ny = c.rng.randint(1, 3), c.rng.randint(1, 3)
    nodes = [(ox + s * i, oy + s * j) for j in range(ny + 1) for i in range(nx + 1)]
    edges = [(j * (nx + 1) + i, j * (nx + 1) + i + 1) for j in range(ny + 1) for i in range(nx)] + \
            [(j * (nx + 1) + i, (j + 1) * (nx + 1) + i) for j in range(ny) for i in range(nx + 1)]
    if c.rng.random() < 0.4:   # triangulate some cells
        for j in range(ny):
            for i in range(nx):
                if c.rng.random() < 0.5:
                    edges.append((j * (nx + 1) + i, (j + 1) * (nx + 1) + i + 1))
    return nodes, edges


@edit("mesh2d_set", weight=1.5)
def _(c):
    return c.mk.mesh2d_set(c.id, c.mk.mk_mesh2d(*small_mesh(c)))


@edit("mesh2d_add")
def _(c):
    return c.mk.mesh2d_add(c.id, c.mk.mk_mesh2d(*small_mesh(c)))


@edit("mesh2d_connect_meshes", needs="compact", weight=0.7)
def _(c):
    return c.mk.mesh2d_connect_meshes(c.id, c.mk.mk_mesh2d(*small_mesh(c)), c.rng.choice([0.1, 0.3, 0.4]))


# ------------------------------------------------------------------ 2D mesh: local edits
@edit("mesh2d_insert_node", weight=1.5, isolated_ok=True)
def _(c):
    return c.mk.mesh2d_insert_node(c.id, 5.0 * c.rng.randint(-8, 8), 5.0 * c.rng.randint(-8, 8))


@edit("mesh2d_insert_edge", needs="mesh2d", weight=2, isolated_ok=True)
def _(c):
    v = c.vnodes()
    a = c.rng.choice(v)
    near = sorted((n for n in v if n != a), key=lambda n: (c.nodes[n][0] - c.nodes[a][0]) ** 2 + (c.nodes[n][1] - c.nodes[a][1]) ** 2)[:8]
    if not near:
        return None
    return c.mk.mesh2d_insert_edge(c.id, a, c.rng.choice(near))


@edit("mesh2d_insert_edge_from_coordinates", needs="mesh2d", isolated_ok=False)
def _(c):
    b, s = c.bbox(), c.span()
    p = (b[0] + s * (0.07 + c.rng.random()), b[1] + s * (0.09 + c.rng.random()))
    if c.rng.random() < 0.6:
        q = c.nodes[c.rng.choice(c.vnodes())]
    else:
        q = (b[0] + s * c.rng.random(), b[1] + s * c.rng.random())
    return c.mk.mesh2d_insert_edge_from_coordinates(c.id, p[0], p[1], q[0], q[1])


@edit("mesh2d_delete_node", needs="mesh2d", weight=2)
def _(c):
    i = c.rng.choice(c.vnodes())
    if bad(c):
        i = len(c.nodes) + c.rng.randint(0, 3)
    return c.mk.mesh2d_delete_node(c.id, i)


@edit("mesh2d_move_node", needs="mesh2d")
def _(c):
    i = c.rng.choice(c.cedges() or c.vnodes())
    p = c.nodes[i]
    if bad(c):
        i = len(c.nodes) + 3
    return c.mk.mesh2d_move_node(c.id, p[0] + c.rng.choice([-2.5, 0.0, 1.25, 2.5]), p[1] + c.rng.choice([-2.5, 1.25, 2.5]), i)


@edit("mesh2d_delete_edge", needs="mesh2d")
def _(c):
    e = c.edges[c.rng.choice(c.vedges())]
    p, q = c.nodes[e[0]], c.nodes[e[1]]
    return c.mk.mesh2d_delete_edge(c.id, (p[0] + q[0]) / 2 + 0.01, (p[1] + q[1]) / 2 + 0.02, *BIGBB)


@edit("mesh2d_delete_edge_by_index", needs="mesh2d", weight=2, isolated_ok=True)
def _(c):
    return c.mk.mesh2d_delete_edge_by_index(c.id, c.rng.choice(c.vedges()))


@edit("mesh2d_merge_two_nodes", needs="mesh2d", weight=1.5)
def _(c):
    if c.rng.random() < 0.7 and c.vedges():
        a, b = c.edges[c.rng.choice(c.vedges())]
    else:
        a, b = c.rng.choice(c.vnodes()), c.rng.choice(c.vnodes())
    if bad(c):
        b = len(c.nodes) + 1
    return c.mk.mesh2d_merge_two_nodes(c.id, a, b)


@edit("mesh2d_merge_nodes", needs="mesh2d")
def _(c):
    return c.mk.mesh2d_merge_nodes(c.id, GL(c.rect_poly() if c.rng.random() < 0.7 else []))


@edit("mesh2d_merge_nodes_with_merging_distance", needs="mesh2d")
def _(c):
    return c.mk.mesh2d_merge_nodes_with_merging_distance(c.id, GL(c.rect_poly() if c.rng.random() < 0.7 else []), c.rng.choice([0.001, 3.0, 11.0]))


# ------------------------------------------------------------------ 2D mesh: area edits
@edit("mesh2d_delete", needs="mesh2d", weight=2)
def _(c):
    return c.mk.mesh2d_delete(c.id, GL(c.rect_poly()), c.rng.choice([0, 1, 2]), c.rng.choice([0, 1]))


@edit("mesh2d_delete_hanging_edges", needs="mesh2d")
def _(c):
    return c.mk.mesh2d_delete_hanging_edges(c.id)


@edit("mesh2d_delete_small_flow_edges_and_small_triangles", needs="tame", weight=0.7)
def _(c):
    return c.mk.mesh2d_delete_small_flow_edges_and_small_triangles(c.id, c.rng.choice([0.1, 1.0]), c.rng.choice([0.01, 0.3]))


@edit("mesh2d_remove_disconnected_regions", needs="mesh2d")
def _(c):
    return c.mk.mesh2d_remove_disconnected_regions(c.id)


@edit("mesh2d_snap_to_landboundary", needs="mesh2d", weight=0.7)
def _(c):
    b = c.bbox()
    s = c.span()
    land = [(b[0] - s, b[1] - 0.03 * s), (b[0] + s / 2, b[1] - 0.05 * s), (b[0] + 3 * s, b[1] - 0.02 * s)]
    return c.mk.mesh2d_snap_to_landboundary(c.id, GL([]), GL(land))


@edit("mesh2d_split_row", needs="tame", weight=1.2)
def _(c):
    a, b = c.edges[c.rng.choice(c.vedges())]
    if bad(c):
        b = a
    return c.mk.mesh2d_split_row(c.id, a, b)


@edit("mesh2d_translate", needs="mesh2d")
def _(c):
    return c.mk.mesh2d_translate(c.id, c.rng.choice([-7.5, 2.5, 10.0]), c.rng.choice([-2.5, 0.0, 5.0]))


@edit("mesh2d_rotate", needs="mesh2d")
def _(c):
    return c.mk.mesh2d_rotate(c.id, 5.0, 5.0, c.rng.choice([90.0, 30.0, -45.0, 180.0]))


@edit("mesh2d_flip_edges", needs="tame", weight=0.7)
def _(c):
    return c.mk.mesh2d_flip_edges(c.id, c.rng.choice([0, 1]), 0, GL(c.rect_poly() if c.rng.random() < 0.3 else []), GL([]))


@edit("mesh2d_compute_orthogonalization", needs="uniform", weight=0.7)
def _(c):
    return c.mk.mesh2d_compute_orthogonalization(c.id, 0, OrthogonalizationParameters(outer_iterations=1, boundary_iterations=2, inner_iterations=2),
                                                 GL(c.rect_poly() if c.rng.random() < 0.3 else []), GL([]))


@edit("mesh2d_orthogonalization_session", needs="uniform", weight=0.5)
def _(c):
    r = c.mk.mesh2d_initialize_orthogonalization(c.id, 0, OrthogonalizationParameters(outer_iterations=1, boundary_iterations=2, inner_iterations=2), GL([]), GL([]))
    if r[0] == 0:
        if c.mk.mesh2d_prepare_outer_iteration_orthogonalization(c.id)[0] == 0:
            for _ in range(2):
                c.mk.mesh2d_compute_inner_ortogonalization_iteration(c.id)
            c.mk.mesh2d_finalize_inner_ortogonalization_iteration(c.id)
        c.mk.mesh2d_delete_orthogonalization(c.id)
    return r


@edit("mesh2d_refine_based_on_polygon", needs="tame", weight=1.2)
def _(c):
    p = MeshRefinementParameters(max_num_refinement_iterations=1, refine_intersected=c.rng.choice([0, 1]), min_edge_size=c.rng.choice([0.5, 4.0, 6.0]),
                                 connect_hanging_nodes=c.rng.choice([0, 1]), smoothing_iterations=0)
    if bad(c):
        p.max_num_refinement_iterations = -3
    return c.mk.mesh2d_refine_based_on_polygon(c.id, GL(c.rect_poly() if c.rng.random() < 0.8 else []), p)


@edit("mesh2d_refine_based_on_samples", needs="tame", weight=0.8)
def _(c):
    b, s = c.bbox(), c.span()
    samples = [(b[0] + s * c.rng.random(), b[1] + s * c.rng.random(), c.rng.choice([0.1, 0.5, 1.0])) for _ in range(5)]
    p = MeshRefinementParameters(max_num_refinement_iterations=1, min_edge_size=4.0, refinement_type=c.rng.choice([1, 2]),
                                 connect_hanging_nodes=c.rng.choice([0, 1]), smoothing_iterations=0, max_courant_time=c.rng.choice([1.0, 120.0]))
    return c.mk.mesh2d_refine_based_on_samples(c.id, GL(samples), 1.0, 1, p)


def gridded(c):
    b, s = c.bbox(), c.span()
    n = 5
    g = GriddedSamples(num_x=n, num_y=n, x_origin=b[0] - 1.0, y_origin=b[1] - 1.0, cell_size=(s + 2.0) / (n - 1), value_type=1)
    vals = (C.c_float * (n * n))(*[c.rng.choice([-0.05, -2.0, -20.0, -100.0, 3.0]) for _ in range(n * n)])
    g.values = C.cast(vals, C.c_void_p)
    g._keep = vals
    return g


@edit("mesh2d_refine_based_on_gridded_samples", needs="tame", weight=0.7)
def _(c):
    p = MeshRefinementParameters(max_num_refinement_iterations=1, min_edge_size=4.0, refinement_type=1,
                                 connect_hanging_nodes=c.rng.choice([0, 1]), smoothing_iterations=0, max_courant_time=c.rng.choice([1.0, 5.0]))
    return c.mk.mesh2d_refine_based_on_gridded_samples(c.id, gridded(c), p, c.rng.random() < 0.5)


@edit("mesh2d_casulli_refinement", needs="compact", weight=0.8)
def _(c):
    return c.mk.mesh2d_casulli_refinement(c.id)


@edit("mesh2d_casulli_refinement_on_polygon", needs="compact", weight=0.8)
def _(c):
    return c.mk.mesh2d_casulli_refinement_on_polygon(c.id, GL(c.rect_poly()))


@edit("mesh2d_casulli_derefinement", needs="compact", weight=0.6)
def _(c):
    return c.mk.mesh2d_casulli_derefinement(c.id)


@edit("mesh2d_casulli_derefinement_on_polygon", needs="compact", weight=0.6)
def _(c):
    return c.mk.mesh2d_casulli_derefinement_on_polygon(c.id, GL(c.rect_poly()))


@edit("mesh2d_convert_to_curvilinear", needs="mesh2d", weight=0.8)
def _(c):
    b = c.bbox()
    return c.mk.mesh2d_convert_to_curvilinear(c.id, b[0] + 4.0, b[1] + 4.0)


# ------------------------------------------------------------------ curvilinear grid
@edit("curvilinear_compute_rectangular_grid", needs="nocurvi")
def _(c):
    return c.mk.curvilinear_compute_rectangular_grid(c.id, grid_params(c, num_columns=c.rng.randint(1, 5), num_rows=c.rng.randint(1, 5)))


@edit("curvilinear_compute_rectangular_grid_from_polygon", needs="nocurvi", weight=0.5)
def _(c):
    x, y = 10.0 * c.rng.randint(-3, 3), 10.0 * c.rng.randint(-3, 3)
    poly = [(x, y), (x + 42, y), (x + 42, y + 42), (x, y + 42), (x, y)]
    return c.mk.curvilinear_compute_rectangular_grid_from_polygon(c.id, grid_params(c), GL(poly))


@edit("curvilinear_compute_rectangular_grid_on_extension", needs="nocurvi", weight=0.5)
def _(c):
    return c.mk.curvilinear_compute_rectangular_grid_on_extension(c.id, MakeGridParameters(
        block_size_x=10.0, block_size_y=10.0, origin_x=0.0, origin_y=0.0, upper_right_x=10.0 * c.rng.randint(1, 4), upper_right_y=10.0 * c.rng.randint(1, 4)))


@edit("curvilinear_compute_circular_grid", needs="nocurvi", weight=0.6)
def _(c):
    return c.mk.curvilinear_compute_circular_grid(c.id, grid_params(c, num_columns=c.rng.randint(4, 6), num_rows=c.rng.randint(2, 4), radius_curvature=c.rng.choice([0.0, 20.0])))


@edit("curvilinear_compute_transfinite_from_polygon", weight=0.4)
def _(c):
    s = 10.0
    poly = [(s * i, 0) for i in range(3)] + [(2 * s, s * i) for i in range(1, 3)] + [(2 * s - s * i, 2 * s) for i in range(1, 3)] + [(0, 2 * s - s * i) for i in range(1, 3)]
    return c.mk.curvilinear_compute_transfinite_from_polygon(c.id, GL(poly), 0, 2, 4, c.rng.choice([0, 1]))


@edit("curvilinear_set", weight=0.7)
def _(c):
    n, m = c.rng.randint(2, 5), c.rng.randint(2, 5)
    ox, oy = 10.0 * c.rng.randint(-3, 3), 10.0 * c.rng.randint(-3, 3)
    rows = [[(ox + 10 * j + (2.5 if c.rng.random() < 0.2 else 0), oy + 10 * i) for j in range(m)] for i in range(n)]
    return c.mk.curvilinear_set(c.id, c.mk.mk_curvi(rows))


def leaves_dangling(c, gone):
    """would grid nodes that belong to no cell remain (the library keeps them until its next administration), or are there
    coinciding nodes, which cannot be told apart by position?"""
    g = c.cg
    n, m = g["n"], g["m"]
    pts = [p for p in g["nodes"] if valid(p)]
    if len(set(pts)) != len(pts):
        return True
    ok = [[valid(c.cnode(i, j)) and (i, j) not in gone for j in range(m)] for i in range(n)]
    return any(ok[i][j] and not any(0 <= a < n - 1 and 0 <= b < m - 1 and ok[a][b] and ok[a + 1][b] and ok[a][b + 1] and ok[a + 1][b + 1]
                                    for a in (i - 1, i) for b in (j - 1, j)) for i in range(n) for j in range(m))


def cpts(c, a, b):
    return (*c.cnode(*a), *c.cnode(*b))


@edit("curvilinear_refine", needs="curvifull", weight=1.2)
def _(c):
    a, b = c.cpair(same_line=None if bad(c) else True)
    return c.mk.curvilinear_refine(c.id, *cpts(c, a, b), c.rng.choice([2, 2, 3]))


@edit("curvilinear_full_refine", needs="curvifull", weight=0.6)
def _(c):
    return c.mk.curvilinear_full_refine(c.id, c.rng.choice([1, 2, -1]) if bad(c, 0.2) else 2, c.rng.choice([1, 2]))


@edit("curvilinear_derefine", needs="curvifull", weight=1.2)
def _(c):
    a, b = c.cpair()
    return c.mk.curvilinear_derefine(c.id, *cpts(c, a, b))


@edit("curvilinear_delete_interior", needs="curvifull")
def _(c):
    a, b = c.cpair()
    ok = lambda u, v, n: abs(u - v) <= 1 or (min(u, v) > 0 and max(u, v) < n - 1)
    if not (ok(a[0], b[0], c.cg["n"]) and ok(a[1], b[1], c.cg["m"])):
        return None     # would leave nodes on the grid's edge that belong to no face
    (n0, n1), (m0, m1) = sorted((a[0], b[0])), sorted((a[1], b[1]))
    if leaves_dangling(c, {(i, j) for i in range(n0 + 1, n1) for j in range(m0 + 1, m1)}):
        return None
    return c.mk.curvilinear_delete_interior(c.id, *cpts(c, a, b))


@edit("curvilinear_delete_exterior", needs="curvifull")
def _(c):
    a, b = c.cpair(False)
    (n0, n1), (m0, m1) = sorted((a[0], b[0])), sorted((a[1], b[1]))
    if leaves_dangling(c, {(i, j) for i in range(c.cg["n"]) for j in range(c.cg["m"]) if not (n0 <= i <= n1 and m0 <= j <= m1)}):
        return None
    return c.mk.curvilinear_delete_exterior(c.id, *cpts(c, a, b))


@edit("curvilinear_delete_node", needs="curvi", weight=1.2)
def _(c):
    return c.mk.curvilinear_delete_node(c.id, *c.cnode(*c.rng.choice(c.cvalid())))


@edit("curvilinear_move_node", needs="curvi", weight=1.2)
def _(c):
    p = c.cnode(*c.rng.choice(c.cvalid()))
    return c.mk.curvilinear_move_node(c.id, *p, p[0] + c.rng.choice([-2.5, 1.25]), p[1] + c.rng.choice([-2.5, 2.5]))


@edit("curvilinear_insert_face", needs="curvi", weight=1.2)
def _(c):
    g = c.cg
    side = c.rng.choice("btlr")
    if side in "bt":
        n, m = (0 if side == "b" else g["n"] - 1), c.rng.randrange(max(g["m"] - 1, 1))
        p, q = c.cnode(n, m), c.cnode(n, min(m + 1, g["m"] - 1))
    else:
        n, m = c.rng.randrange(max(g["n"] - 1, 1)), (0 if side == "l" else g["m"] - 1)
        p, q = c.cnode(n, m), c.cnode(min(n + 1, g["n"] - 1), m)
    if not valid(p) or not valid(q):
        return None
    return c.mk.curvilinear_insert_face(c.id, (p[0] + q[0]) / 2 + 0.1 * (c.rng.random() - .5), (p[1] + q[1]) / 2 + 0.1 * (c.rng.random() - .5))


@edit("curvilinear_line_mirror", needs="curvifull")
def _(c):
    g = c.cg
    side = c.rng.choice("btlr")
    a, b = {"b": ((0, 0), (0, g["m"] - 1)), "t": ((g["n"] - 1, 0), (g["n"] - 1, g["m"] - 1)),
            "l": ((0, 0), (g["n"] - 1, 0)), "r": ((0, g["m"] - 1), (g["n"] - 1, g["m"] - 1))}[side]
    if not valid(c.cnode(*a)) or not valid(c.cnode(*b)):
        return None
    return c.mk.curvilinear_line_mirror(c.id, c.rng.choice([1.0, 0.5, 1.2]) if not bad(c) else -1.0, *cpts(c, a, b))


@edit("curvilinear_line_attraction_repulsion", needs="curvi")
def _(c):
    a, b = c.cpair(True)
    d, e = c.cpair(False)
    return c.mk.curvilinear_line_attraction_repulsion(c.id, c.rng.choice([0.5, -0.5]), *cpts(c, a, b), *cpts(c, d, e))


@edit("curvilinear_smoothing", needs="curvi")
def _(c):
    return c.mk.curvilinear_smoothing(c.id, c.rng.randint(1, 3), *cpts(c, *c.cpair(False)))


@edit("curvilinear_smoothing_directional", needs="curvi")
def _(c):
    a, b = c.cpair(True)
    d, e = c.cpair(False)
    return c.mk.curvilinear_smoothing_directional(c.id, c.rng.randint(1, 3), *cpts(c, a, b), *cpts(c, d, e))


@edit("curvilinear_orthogonalize_session", needs="curvi", weight=0.7)
def _(c):
    r = c.mk.curvilinear_initialize_orthogonalize(c.id, OrthogonalizationParameters(outer_iterations=1, boundary_iterations=2, inner_iterations=2))
    if r[0]:
        return r
    r = c.mk.curvilinear_set_block_orthogonalize(c.id, *cpts(c, *c.cpair(False)))
    if r[0] == 0:
        r = c.mk.curvilinear_orthogonalize(c.id)
    c.mk.curvilinear_finalize_orthogonalize(c.id)
    return r


@edit("curvilinear_snap_to_landboundary", needs="curvi", weight=0.7)
def _(c):
    g = c.cg
    a, b = (0, 0), (0, g["m"] - 1)
    if not valid(c.cnode(*a)) or not valid(c.cnode(*b)):
        return None
    p, q = c.cnode(*a), c.cnode(*b)
    land = [(p[0] - 30, p[1] - 1.5), (q[0] + 30, q[1] - 0.5)]
    return c.mk.curvilinear_snap_to_landboundary(c.id, GL(land), *p, *q, MISSING, MISSING)


@edit("curvilinear_convert_to_mesh2d", needs="curvi", weight=0.8)
def _(c):
    return c.mk.curvilinear_convert_to_mesh2d(c.id)


def four_splines(c, x=0.0, y=0.0, s=10.0):
    return GL([(x - 1, y), (x + s + 1, y), None, (x + s, y + s + 1), (x + s, y - 1), None, (x + s + 1, y + s), (x - 1, y + s), None, (x, y + s + 1), (x, y - 1)])


@edit("curvilinear_compute_grid_from_splines", weight=0.4)
def _(c):
    return c.mk.curvilinear_compute_grid_from_splines(c.id, four_splines(c, 10.0 * c.rng.randint(-2, 2)), CurvilinearParameters(m_refinement=c.rng.randint(2, 5), n_refinement=c.rng.randint(2, 5)))


@edit("curvilinear_compute_transfinite_from_splines", weight=0.4)
def _(c):
    return c.mk.curvilinear_compute_transfinite_from_splines(c.id, four_splines(c, 10.0 * c.rng.randint(-2, 2)), CurvilinearParameters(m_refinement=c.rng.randint(2, 5), n_refinement=c.rng.randint(2, 5)))


@edit("curvilinear_compute_transfinite_from_triangle", weight=0.4)
def _(c):
    k = c.rng.randint(2, 3)
    a, b, d = (0.0, 0.0), (20.0, 0.0), (8.0, 18.0)
    side = lambda p, q: [(p[0] + (q[0] - p[0]) * i / (2 * k), p[1] + (q[1] - p[1]) * i / (2 * k)) for i in range(2 * k)]
    poly = side(a, b) + side(b, d) + side(d, a) + [a]
    return c.mk.curvilinear_compute_transfinite_from_triangle(c.id, GL(poly), 0, 2 * k, 4 * k)


@edit("curvilinear_line_shift_session", needs="curvifull", weight=0.7)
def _(c):
    g = c.cg
    if g["n"] < 3 or g["m"] < 3:
        return None
    j = c.rng.randrange(g["m"])
    a, b = (0, j), (g["n"] - 1, j)
    p = c.cnode(c.rng.randrange(g["n"]), j)
    mk, i = c.mk, c.id
    return [("curvilinear_initialize_line_shift", lambda: mk.curvilinear_initialize_line_shift(i)),
            ("curvilinear_set_line_line_shift", lambda: mk.curvilinear_set_line_line_shift(i, *cpts(c, a, b))),
            ("curvilinear_set_block_line_shift", lambda: mk.curvilinear_set_block_line_shift(i, *cpts(c, (0, 0), (g["n"] - 1, g["m"] - 1)))),
            ("curvilinear_move_node_line_shift", lambda: mk.curvilinear_move_node_line_shift(i, *p, p[0] + 1.25, p[1] + 0.5)),
            ("curvilinear_line_shift", lambda: mk.curvilinear_line_shift(i)),
            ("curvilinear_finalize_line_shift", lambda: mk.curvilinear_finalize_line_shift(i))]


@edit("curvilinear_snap_to_spline", needs="curvifull", weight=0.5)
def _(c):
    g = c.cg
    p, q = c.cnode(0, 0), c.cnode(0, g["m"] - 1)
    spl = [(p[0] - 5, p[1] - 1.5), ((p[0] + q[0]) / 2, (p[1] + q[1]) / 2 - 1.0), (q[0] + 5, q[1] - 0.5)]
    return c.mk.curvilinear_snap_to_spline(c.id, GL(spl), *p, *q, MISSING, MISSING)


# ------------------------------------------------------------------ 1D
@edit("mesh1d_set")
def _(c):
    n = c.rng.randint(2, 6)
    y = 2.5 + 10.0 * c.rng.randint(-3, 3)
    x0 = 1.0 + 10.0 * c.rng.randint(-3, 2)
    nodes = [(x0 + 7.0 * i, y + 3.0 * (i % 2)) for i in range(n)]
    return c.mk.mesh1d_set(c.id, c.mk.mk_mesh1d(nodes, [(i, i + 1) for i in range(n - 1)]))


@edit("mesh1d_add", needs="any", weight=0.7)
def _(c):
    y = 3.5 + 10.0 * c.rng.randint(-3, 3)
    nodes = [(9.0 * i, y) for i in range(3)]
    return c.mk.mesh1d_add(c.id, c.mk.mk_mesh1d(nodes, [(0, 1), (1, 2)]))


@edit("network1d_set", weight=0.7)
def _(c):
    x, y = 10.0 * c.rng.randint(-3, 3), 10.0 * c.rng.randint(-3, 3)
    return c.mk.network1d_set(c.id, GL([(x, y), (x + 20, y), (x + 20, y + 10), None, (x, y + 20), (x + 15, y + 20)]))


@edit("network1d_to_mesh1d", needs="network", weight=2.0)
def _(c):
    d = c.rng.choice([2.5, 5.0, 6.0])
    steps = [("network1d_compute_offsetted_chainages", lambda: c.mk.network1d_compute_offsetted_chainages(c.id, d))] if c.rng.random() < 0.6 else []
    return steps + [("network1d_to_mesh1d", lambda: c.mk.network1d_to_mesh1d(c.id, 0.01))]


@edit("network1d_compute_offsetted_chainages", needs="network", weight=2.0)
def _(c):
    return c.mk.network1d_compute_offsetted_chainages(c.id, c.rng.choice([2.5, 4.0, 9.0, 100.0]))


@edit("network1d_compute_fixed_chainages", needs="network", weight=2.0)
def _(c):
    a = sorted(c.rng.sample(range(2, 28), c.rng.randint(1, 3)))
    b = sorted(c.rng.sample(range(2, 13), c.rng.randint(1, 2)))
    v = [float(x) for x in a] + [-999.0] + [float(x) for x in b]
    return c.mk.network1d_compute_fixed_chainages(c.id, darr(v), len(v), 0.01, c.rng.choice([0.25, 0.5, 1.0]))


# ------------------------------------------------------------------ contacts
def mask(c):
    n = len(c.obs["mesh1d"]["nodes"])
    return iarr([c.rng.choice([0, 1, 1]) for _ in range(n)])


@edit("contacts_compute_single", needs="both")
def _(c):
    return c.mk.contacts_compute_single(c.id, mask(c), GL(c.rect_poly() if c.rng.random() < 0.4 else []), c.rng.choice([0.0, 5.0]))


@edit("contacts_compute_multiple", needs="both")
def _(c):
    return c.mk.contacts_compute_multiple(c.id, mask(c))


@edit("contacts_compute_with_polygons", needs="both", weight=0.7)
def _(c):
    return c.mk.contacts_compute_with_polygons(c.id, mask(c), GL(c.rect_poly()))


@edit("contacts_compute_with_points", needs="both", weight=0.7)
def _(c):
    b, s = c.bbox(), c.span()
    return c.mk.contacts_compute_with_points(c.id, mask(c), GL([(b[0] + s * c.rng.random(), b[1] + s * c.rng.random()) for _ in range(4)]))


@edit("contacts_compute_boundary", needs="both", weight=0.7)
def _(c):
    return c.mk.contacts_compute_boundary(c.id, mask(c), GL(c.rect_poly()), c.rng.choice([8.0, 25.0]))


@edit("contacts_set", needs="both", weight=2.0)
def _(c):
    k = c.rng.randint(1, 4)
    n = len(c.obs["mesh1d"]["nodes"])
    return c.mk.contacts_set(c.id, mk_contacts([(c.rng.randrange(n), c.rng.randrange(4)) for _ in range(k)]))


def unknown_node(c):
    """three nodes, three edges, one of them to a node that is not there"""
    nodes = [(100.0, 100.0), (110.0, 100.0), (100.0, 110.0)]
    e = [[0, 1], [1, 2], [2, 0]]
    e[c.rng.randrange(3)][c.rng.randrange(2)] = c.rng.choice([3, 4, 77, 100000])
    return nodes, [tuple(x) for x in e]


@wrong("mesh2d_set", weight=0.5)
def _(c):
    return c.mk.mesh2d_set(c.id, c.mk.mk_mesh2d(*unknown_node(c)))


@wrong("mesh2d_add", weight=0.5)
def _(c):
    return c.mk.mesh2d_add(c.id, c.mk.mk_mesh2d(*unknown_node(c)))


@wrong("mesh2d_set", weight=0.5)
def _(c):
    nodes = [(100.0, 100.0), (110.0, 100.0), (100.0, 110.0)]
    f = [0, 1, 2]
    f[c.rng.randrange(3)] = c.rng.choice([3, 4, 77, 100000])
    return c.mk.mesh2d_set(c.id, c.mk.mk_mesh2d(nodes, [(0, 1), (1, 2), (2, 0)], [f]))


@wrong("mesh1d_set", weight=0.5)
def _(c):
    return c.mk.mesh1d_set(c.id, c.mk.mk_mesh1d(*unknown_node(c)))


@wrong("mesh1d_add", weight=0.5)
def _(c):
    return c.mk.mesh1d_add(c.id, c.mk.mk_mesh1d(*unknown_node(c)))


@wrong("mesh2d_compute_orthogonalization", needs="mesh2d", weight=2.5)
def _(c):
    """also on meshes with deleted nodes and edges, loose edges and the like: it may refuse, it may not fall over"""
    return c.mk.mesh2d_compute_orthogonalization(c.id, c.rng.choice([0, 0, 1, 2, 3]), OrthogonalizationParameters(outer_iterations=1, boundary_iterations=2, inner_iterations=2), GL([]), GL([]))


@wrong("contacts_set", needs="both", weight=0.4)
def _(c):
    return c.mk.contacts_set(c.id, mk_contacts([]))


@edit("deallocate_state", weight=0.3)
def _(c):
    return c.mk.deallocate_state(c.id)


# ------------------------------------------------------------------ calls to be refused
def out_poly(c):
    return GL([(0, 0), (1, 0)])


@wrong("mesh2d_make_rectangular_mesh")
def _(c):
    p = grid_params(c)
    setattr(p, *c.rng.choice([("num_columns", -1), ("num_rows", -2), ("block_size_x", -1.0), ("block_size_y", 0.0), ("angle", 95.0), ("angle", -400.0)]))
    return c.mk.mesh2d_make_rectangular_mesh(c.id, p)


@wrong("mesh2d_make_rectangular_mesh_from_polygon")
def _(c):
    p = grid_params(c)
    setattr(p, *c.rng.choice([("block_size_x", -1.0), ("block_size_y", 0.0), ("angle", 95.0)]))
    return c.mk.mesh2d_make_rectangular_mesh_from_polygon(c.id, p, GL(c.rect_poly()))


@wrong("mesh2d_make_rectangular_mesh_on_extension")
def _(c):
    p = MakeGridParameters(block_size_x=10.0, block_size_y=10.0, origin_x=5.0, origin_y=5.0, upper_right_x=35.0, upper_right_y=25.0)
    setattr(p, *c.rng.choice([("upper_right_x", 5.0), ("upper_right_y", -8.0), ("block_size_x", 0.0), ("angle", 20.0)]))
    return c.mk.mesh2d_make_rectangular_mesh_on_extension(c.id, p)


@wrong("mesh2d_make_triangular_mesh_from_polygon")
def _(c):
    return c.mk.mesh2d_make_triangular_mesh_from_polygon(c.id, GL([(0, 0), (10, 0)] if c.rng.random() < .5 else [(0, 0), (10, 0), (5, 5)]))


@wrong("mesh2d_delete_node", needs="mesh2d", weight=2)
def _(c):
    gone = [i for i, p in enumerate(c.nodes) if not valid(p)]
    i = c.rng.choice([len(c.nodes), len(c.nodes) + 7, -1] + gone)
    return c.mk.mesh2d_delete_node(c.id, i)


@wrong("mesh2d_move_node", needs="mesh2d", weight=2)
def _(c):
    gone = [i for i, p in enumerate(c.nodes) if not valid(p)]
    return c.mk.mesh2d_move_node(c.id, 3.0, 4.0, c.rng.choice([len(c.nodes), len(c.nodes) + 7, -1] + gone))


@wrong("mesh2d_delete_edge_by_index", needs="mesh2d", weight=2)
def _(c):
    return c.mk.mesh2d_delete_edge_by_index(c.id, c.rng.choice([len(c.edges), len(c.edges) + 9, -1]))


@wrong("mesh2d_insert_edge", needs="mesh2d", weight=2)
def _(c):
    a, b = c.rng.choice(c.vnodes()), c.rng.choice([len(c.nodes), len(c.nodes) + 9, -1])
    return c.mk.mesh2d_insert_edge(c.id, *((a, b) if c.rng.random() < .5 else (b, a)))


@wrong("mesh2d_merge_two_nodes", needs="mesh2d")
def _(c):
    a = c.rng.choice(c.vnodes())
    b = c.rng.choice([len(c.nodes), len(c.nodes) + 5, -1])
    return c.mk.mesh2d_merge_two_nodes(c.id, *c.rng.choice([(a, b), (b, a)]))


@wrong("mesh2d_insert_edge_from_coordinates", needs="mesh2d")
def _(c):
    p = c.nodes[c.rng.choice(c.vnodes())]
    return c.mk.mesh2d_insert_edge_from_coordinates(c.id, p[0], p[1], p[0], p[1])


@wrong("mesh2d_delete", needs="mesh2d")
def _(c):
    return c.mk.mesh2d_delete(c.id, GL(c.rect_poly() if c.rng.random() < .5 else [(0, 0), (1, 0)]), c.rng.choice([0, 7, -1]), 0)


@wrong("mesh2d_delete", needs="any", weight=0.3)
def _(c):
    if c.vnodes():
        return None
    return c.mk.mesh2d_delete(c.id, GL([(0, 0), (1, 0), (1, 1), (0, 0)]), 0, 0)


@wrong("mesh2d_split_row", needs="tame")
def _(c):
    v = c.vnodes()
    a, b = c.rng.choice(v), c.rng.choice(v)
    e = {tuple(sorted(c.edges[i])) for i in c.vedges()}
    if tuple(sorted((a, b))) in e:
        return None
    return c.mk.mesh2d_split_row(c.id, a, b)


@wrong("mesh2d_refine_based_on_polygon", needs="tame")
def _(c):
    p = MeshRefinementParameters(max_num_refinement_iterations=1)
    setattr(p, *c.rng.choice([("max_num_refinement_iterations", -1), ("refine_intersected", 3), ("use_mass_center_when_refining", -1), ("min_edge_size", -1.0)]))
    return c.mk.mesh2d_refine_based_on_polygon(c.id, GL(c.rect_poly()), p)


@wrong("mesh2d_refine_based_on_samples", needs="tame")
def _(c):
    b, s = c.bbox(), c.span()
    p = MeshRefinementParameters(max_num_refinement_iterations=1)
    setattr(p, *c.rng.choice([("max_num_refinement_iterations", -1), ("refinement_type", 0), ("refinement_type", 9), ("min_edge_size", -1.0), ("account_for_samples_outside", 4),
                              ("connect_hanging_nodes", 5), ("smoothing_iterations", -1), ("max_courant_time", -2.0), ("directional_refinement", 7)]))
    return c.mk.mesh2d_refine_based_on_samples(c.id, GL([(b[0] + s / 2, b[1] + s / 2, 0.5)]), 1.0, 1, p)


@wrong("mesh2d_compute_orthogonalization", needs="uniform")
def _(c):
    p = OrthogonalizationParameters(outer_iterations=1, boundary_iterations=2, inner_iterations=2)
    setattr(p, *c.rng.choice([("outer_iterations", -1), ("boundary_iterations", 0), ("inner_iterations", 0), ("orthogonalization_to_smoothing_factor", 2.0),
                              ("orthogonalization_to_smoothing_factor_at_boundary", -1.0), ("areal_to_angle_smoothing_factor", 5.0)]))
    return c.mk.mesh2d_compute_orthogonalization(c.id, 0, p, GL([]), GL([]))


@wrong("mesh2d_convert_projection", needs="mesh2d")
def _(c):
    return c.mk.mesh2d_convert_projection(c.id, c.rng.choice([0, 2, 5, -1]), C.c_char_p(b"+proj=utm +lat_1=0.5 +lat_2=2 +n=0.5 +zone=31"))


@wrong("mesh2d_convert_to_curvilinear", needs="mesh2d")
def _(c):
    return c.mk.mesh2d_convert_to_curvilinear(c.id, 1e5, 1e5)


@wrong("mesh2d_connect_meshes", needs="compact")
def _(c):
    return c.mk.mesh2d_connect_meshes(c.id, c.mk.mk_mesh2d(*small_mesh(c)), c.rng.choice([-0.1, 1.5]))


@wrong("mesh2d_snap_to_landboundary", needs="mesh2d")
def _(c):
    return c.mk.mesh2d_snap_to_landboundary(c.id, GL([(0, 0), (1, 0)]), GL([(0, 0), (30, 0)]))


@wrong("curvilinear_compute_rectangular_grid", needs="any")
def _(c):
    p = grid_params(c)
    setattr(p, *c.rng.choice([("num_columns", -1), ("num_rows", -2), ("block_size_x", -1.0), ("block_size_y", 0.0), ("angle", 95.0)]))
    return c.mk.curvilinear_compute_rectangular_grid(c.id, p)


@wrong("curvilinear_compute_rectangular_grid_from_polygon", needs="any")
def _(c):
    return c.mk.curvilinear_compute_rectangular_grid_from_polygon(c.id, grid_params(c), GL(c.rng.choice([[(0, 0), (1, 0)], [(0, 0), (20, 0), (20, 20)]])))


@wrong("curvilinear_compute_circular_grid", needs="any")
def _(c):
    p = grid_params(c, radius_curvature=20.0)
    setattr(p, *c.rng.choice([("num_columns", -1), ("radius_curvature", -5.0), ("num_rows", -4), ("block_size_x", -4.0)]))
    return c.mk.curvilinear_compute_circular_grid(c.id, p)


@wrong("curvilinear_compute_transfinite_from_polygon", needs="any")
def _(c):
    poly = [(10.0 * i, 0) for i in range(3)] + [(20, 10), (20, 20), (10, 20), (0, 20), (0, 10), (0, 0)]
    return c.mk.curvilinear_compute_transfinite_from_polygon(c.id, GL(poly), *c.rng.choice([(0, 0, 4), (0, 2, 2), (0, 2, 5), (0, 3, 4)]), 0)


@wrong("curvilinear_compute_grid_from_splines", needs="any")
def _(c):
    return c.mk.curvilinear_compute_grid_from_splines(c.id, GL([(0, 0), (10, 0), None, (30, 30), (30, 50)]), CurvilinearParameters(m_refinement=3, n_refinement=3))


@wrong("curvilinear_compute_transfinite_from_splines", needs="any")
def _(c):
    return c.mk.curvilinear_compute_transfinite_from_splines(c.id, GL([(0, 0), (10, 0), None, (30, 30), (30, 50)]), CurvilinearParameters(m_refinement=3, n_refinement=3))


@wrong("curvilinear_iterate_orthogonal_grid_from_splines", needs="any", weight=0.3)
def _(c):
    return c.mk.curvilinear_iterate_orthogonal_grid_from_splines(c.id, 1)


@wrong("curvilinear_orthogonalize", needs="curvi")
def _(c):
    return c.mk.curvilinear_orthogonalize(c.id)


@wrong("curvilinear_line_shift", needs="curvi")
def _(c):
    # a step of the line shift without its initialisation
    mk, i = c.mk, c.id
    return c.rng.choice([lambda: mk.curvilinear_line_shift(i), lambda: mk.curvilinear_set_line_line_shift(i, 0.0, 0.0, 10.0, 0.0), lambda: mk.curvilinear_set_block_line_shift(i, 0.0, 0.0, 10.0, 10.0),
                         lambda: mk.curvilinear_move_node_line_shift(i, 0.0, 0.0, 1.0, 1.0)])()


@wrong("mesh2d_orthogonalization_step", needs="mesh2d")
def _(c):
    mk, i = c.mk, c.id
    return c.rng.choice([mk.mesh2d_prepare_outer_iteration_orthogonalization, mk.mesh2d_compute_inner_ortogonalization_iteration, mk.mesh2d_finalize_inner_ortogonalization_iteration])(i)


@wrong("curvilinear_orthogonalize_step", needs="curvi", weight=0.5)
def _(c):
    mk, i = c.mk, c.id
    return c.rng.choice([lambda: mk.curvilinear_set_block_orthogonalize(i, 0.0, 0.0, 10.0, 10.0), lambda: mk.curvilinear_set_frozen_lines_orthogonalize(i, 0.0, 0.0, 10.0, 10.0), lambda: mk.curvilinear_finalize_orthogonalize(i)])()


@wrong("curvilinear_refine", needs="curvifull", weight=2)
def _(c):
    a, b = c.cpair(False)
    if a[0] == b[0] or a[1] == b[1]:
        return None
    return c.mk.curvilinear_refine(c.id, *cpts(c, a, b), c.rng.choice([2, 3]))


@wrong("curvilinear_refine", needs="curvifull")
def _(c):
    a, b = c.cpair(True)
    return c.mk.curvilinear_refine(c.id, *cpts(c, a, b), 0)


@wrong("curvilinear_full_refine", needs="curvifull")
def _(c):
    return c.mk.curvilinear_full_refine(c.id, *c.rng.choice([(-1, 2), (2, -1), (0, 2), (0, 0)]))


@wrong("curvilinear_derefine", needs="curvifull")
def _(c):
    a = c.rng.choice(c.cvalid())
    return c.mk.curvilinear_derefine(c.id, *cpts(c, a, a))


@wrong("curvilinear_smoothing", needs="curvi")
def _(c):
    a = c.rng.choice(c.cvalid())
    return c.mk.curvilinear_smoothing(c.id, 2, *cpts(c, a, a))


@wrong("curvilinear_smoothing_directional", needs="curvi")
def _(c):
    a, b = c.cpair(False)
    d, e = c.cpair(True)
    return c.mk.curvilinear_smoothing_directional(c.id, 2, *cpts(c, a, b), *cpts(c, d, e))


@wrong("curvilinear_line_attraction_repulsion", needs="curvi")
def _(c):
    a, b = c.cpair(False)
    d, e = c.cpair(False)
    return c.mk.curvilinear_line_attraction_repulsion(c.id, 0.5, *cpts(c, a, b), *cpts(c, d, e))


@wrong("curvilinear_line_mirror", needs="curvifull")
def _(c):
    if c.rng.random() < .5:
        return c.mk.curvilinear_line_mirror(c.id, c.rng.choice([0.0, -1.0]), *cpts(c, *c.cpair(True)))
    return c.mk.curvilinear_line_mirror(c.id, 1.0, *cpts(c, *c.cpair(False)))


@wrong("curvilinear_insert_face", needs="curvifull")
def _(c):
    g = c.cg
    if g["n"] < 4 or g["m"] < 4:
        return None
    p, q = c.cnode(1, 1), c.cnode(1, 2)
    return c.mk.curvilinear_insert_face(c.id, (p[0] + q[0]) / 2, (p[1] + q[1]) / 2)


@wrong("curvilinear_operation_on_missing_grid", needs="nocurvi")
def _(c):
    mk, i = c.mk, c.id
    return c.rng.choice([
        lambda: mk.curvilinear_refine(i, 0.0, 0.0, 10.0, 0.0, 2), lambda: mk.curvilinear_full_refine(i, 2, 2), lambda: mk.curvilinear_delete_node(i, 0.0, 0.0),
        lambda: mk.curvilinear_smoothing(i, 2, 0.0, 0.0, 10.0, 10.0), lambda: mk.curvilinear_insert_face(i, 0.0, 0.0), lambda: mk.curvilinear_convert_to_mesh2d(i),
        lambda: mk.curvilinear_delete_exterior(i, 0.0, 0.0, 10.0, 10.0), lambda: mk.curvilinear_delete_interior(i, 0.0, 0.0, 10.0, 10.0),
        lambda: mk.curvilinear_line_mirror(i, 1.0, 0.0, 0.0, 10.0, 0.0), lambda: mk.curvilinear_initialize_line_shift(i)])()


@wrong("curvilinear_snap_to_landboundary", needs="curvi")
def _(c):
    g = c.cg
    p = c.cnode(*c.rng.choice(c.cvalid()))
    return c.mk.curvilinear_snap_to_landboundary(c.id, GL([]), *p, *p, MISSING, MISSING)


@wrong("curvilinear_snap_to_spline", needs="curvi")
def _(c):
    p = c.cnode(*c.rng.choice(c.cvalid()))
    return c.mk.curvilinear_snap_to_spline(c.id, GL([]), *p, *p, MISSING, MISSING)


@wrong("mesh2d_operation_on_empty_mesh")
def _(c):
    if c.vnodes():
        return None
    mk, i = c.mk, c.id
    return c.rng.choice([
        lambda: mk.mesh2d_refine_based_on_polygon(i, GL([]), MeshRefinementParameters()), lambda: mk.mesh2d_remove_disconnected_regions(i),
        lambda: mk.mesh2d_compute_orthogonalization(i, 0, OrthogonalizationParameters(), GL([]), GL([])),
        lambda: mk.mesh2d_snap_to_landboundary(i, GL([]), GL([(0, 0), (10, 0)])), *(() if c.nodes else (lambda: mk.mesh2d_delete_node(i, 0), lambda: mk.mesh2d_move_node(i, 1.0, 1.0, 0)))])()


@wrong("contacts_compute_with_points", needs="both", weight=0.7)
def _(c):
    m = mask(c)
    n = len(c.obs["mesh1d"]["nodes"])
    return c.mk.contacts_compute_with_points(c.id, m, GL([]))


@wrong("network1d_to_mesh1d", needs="any", weight=0.5)
def _(c):
    return c.mk.network1d_to_mesh1d(c.id, 0.01)


# ------------------------------------------------------------------ queries (must not change anything)
@query("mesh2d_get_dimensions", weight=2)
def _(c):
    return c.mk.mesh2d_get_dimensions(c.id, Mesh2D())


@query("mesh2d_get_data", weight=2)
def _(c):
    return c.mk.mesh2d_full(c.id)[0], []


@query("mesh2d_hanging_edges", needs="mesh2d")
def _(c):
    rc, (n,) = c.mk.mesh2d_count_hanging_edges(c.id)
    if rc == 0 and n > 0:
        return c.mk.mesh2d_get_hanging_edges(c.id, iarr([0] * n))
    return rc, []


@query("mesh2d_boundary_polygons", needs="mesh2d")
def _(c):
    rc, (n,) = c.mk.mesh2d_count_mesh_boundaries_as_polygons(c.id)
    if rc == 0 and n > 0:
        return c.mk.mesh2d_get_mesh_boundaries_as_polygons(c.id, GL(size=n))
    return rc, []


@query("mesh2d_face_polygons", needs="mesh2d")
def _(c):
    k = c.rng.choice([3, 4, 5])
    rc, (n,) = c.mk.mesh2d_get_face_polygons_dimension(c.id, k)
    if rc == 0 and n > 0:
        return c.mk.mesh2d_get_face_polygons(c.id, k, GL(size=n))
    return rc, []


@query("mesh2d_nodes_in_polygons", needs="mesh2d")
def _(c):
    p, ins = GL(c.rect_poly()), c.rng.choice([0, 1])
    rc, (n,) = c.mk.mesh2d_count_nodes_in_polygons(c.id, p, ins)
    if rc == 0 and n > 0:
        return c.mk.mesh2d_get_nodes_in_polygons(c.id, p, ins, iarr([0] * n))
    return rc, []


@query("mesh2d_get_node_index", needs="mesh2d", intrusive=False)
def _(c):
    return c.mk.mesh2d_get_node_index(c.id, *c.near(c.rng.choice(c.vnodes())), c.rng.choice([0.5, 5.0, 50.0]), *BIGBB)


@query("mesh2d_get_edge", needs="mesh2d", intrusive=False)
def _(c):
    return c.mk.mesh2d_get_edge(c.id, *c.near(c.rng.choice(c.vnodes())), *BIGBB)


@query("mesh2d_get_location_index", needs="mesh2d")
def _(c):
    return c.mk.mesh2d_get_location_index(c.id, *c.near(c.rng.choice(c.vnodes())), c.rng.choice([0, 1, 2]), BoundingBox())


@query("mesh2d_quality", needs="clean")
def _(c):
    ne = len(c.edges)
    c.mk.mesh2d_get_dimensions(c.id, Mesh2D())
    c.mk.mesh2d_get_orthogonality(c.id, GL(size=ne))
    return c.mk.mesh2d_get_smoothness(c.id, GL(size=ne))


@query("mesh2d_obtuse_triangles", needs="clean")
def _(c):
    rc, (n,) = c.mk.mesh2d_count_obtuse_triangles(c.id)
    if rc == 0 and n > 0:
        return c.mk.mesh2d_get_obtuse_triangles_mass_centers(c.id, GL(size=n))
    return rc, []


@query("mesh2d_small_flow_edges", needs="clean")
def _(c):
    rc, (n,) = c.mk.mesh2d_count_small_flow_edge_centers(c.id, 0.9)
    if rc == 0 and n > 0:
        return c.mk.mesh2d_get_small_flow_edge_centers(c.id, 0.9, GL(size=n))
    return rc, []


@query("mesh2d_averaging_interpolation", needs="clean")
def _(c):
    b, s = c.bbox(), c.span()
    samples = [(b[0] + s * c.rng.random(), b[1] + s * c.rng.random(), c.rng.random()) for _ in range(6)]
    loc = c.rng.choice([1, 2])
    rc, m = c.mk.mesh2d_dims(c.id)
    n = {0: m.num_faces, 1: m.num_nodes, 2: m.num_edges}[loc]
    return c.mk.mesh2d_averaging_interpolation(c.id, GL(samples), loc, 1, 1.01, 1, GL(size=max(n, 1)))


@query("mesh2d_intersections_from_polygon", needs="mesh2d", weight=0.7)
def _(c):
    ne = len(c.edges)
    n = 8 * ne + 8
    return c.mk.mesh2d_intersections_from_polygon(c.id, GL(c.rect_poly()), iarr([0] * 2 * n), iarr([0] * n), darr([0] * n), darr([0] * n),
                                                  iarr([0] * n), iarr([0] * n), iarr([0] * n), iarr([0] * n))


@query("curvilinear_get_dimensions", intrusive=False)
def _(c):
    return c.mk.curvilinear_get_dimensions(c.id, CurvilinearGrid())


@query("curvilinear_get_location_index", needs="curvi", intrusive=False)
def _(c):
    p = c.cnode(*c.rng.choice(c.cvalid()))
    return c.mk.curvilinear_get_location_index(c.id, p[0] + 0.3, p[1] - 0.2, c.rng.choice([0, 1, 2]), BoundingBox())


@query("curvilinear_boundaries", needs="curvi", intrusive=False)
def _(c):
    g = c.cg
    rc, (n,) = c.mk.curvilinear_count_boundaries_as_polygons(c.id, 0, 0, g["n"] - 1, g["m"] - 1)
    if rc == 0 and n > 0:
        return c.mk.curvilinear_get_boundaries_as_polygons(c.id, 0, 0, g["n"] - 1, g["m"] - 1, GL(size=n))
    return rc, []


@query("curvilinear_quality", needs="curvi", intrusive=False)
def _(c):
    n = c.cg["n"] * c.cg["m"]
    c.mk.curvilinear_compute_smoothness(c.id, c.rng.choice([0, 1]), darr([0] * n))
    return c.mk.curvilinear_compute_curvature(c.id, c.rng.choice([0, 1]), darr([0] * n))


@query("mesh1d_get_data", intrusive=False)
def _(c):
    return c.mk.mesh1d(c.id)[0], []


@query("contacts_get_data", intrusive=False)
def _(c):
    return c.mk.contacts(c.id)[0], []


@query("polygon_offset", intrusive=False)
def _(c):
    p = GL(c.rect_poly())
    rc, (n,) = c.mk.polygon_count_offset(c.id, p, 0, 1.0)
    if rc == 0 and n > 0:
        return c.mk.polygon_get_offset(c.id, p, 0, 1.0, GL(size=n))
    return rc, []


@query("polygon_refine", intrusive=False)
def _(c):
    p = GL(c.rect_poly())
    rc, (n,) = c.mk.polygon_count_refine(c.id, p, 0, 0, 3.0)
    if rc == 0 and n > 0:
        return c.mk.polygon_refine(c.id, p, 0, 0, 3.0, GL(size=n))
    return rc, []


@query("get_projection", intrusive=False)
def _(c):
    return c.mk.get_projection(c.id)
