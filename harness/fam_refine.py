"""Refinement of the 2D mesh: by polygons, by samples, Casulli, splitting a row."""
import ctypes as C
from mkapi import *
from lattice import *
from scen import *

STEP = 16
SC = 4


def whole(s):
    """the mesh with its faces, in units of 1/SC"""
    rc, d = s.mk.mesh2d_full(s.id)
    if rc:
        return rc, dict(n=[], e=[], f=[])
    return rc, dict(n=[pt(p, SC) for p in d["nodes"]], e=[[idx(a), idx(b)] for a, b in d["edges"]], f=[[idx(i) for i in f] for f in d["faces"]])


def make(s, plain=False, straight=False):
    rng = s.rng
    nx, ny = rng.randint(1, 5), rng.randint(1, 5)
    if plain:
        n, e = grid_mesh(rng, nx, ny, tri=0, hole=0, fuse=0, step=STEP)
    else:
        n, e = grid_mesh(rng, nx, ny, tri=rng.choice((0, 0, 0.3, 1)), hole=rng.choice((0, 0, 0.2)), fuse=0, step=STEP)
    k = 0 if straight else rng.choice((0, 0, 4, -8))
    q = rng.choice((1, 1, -1)) if k == 0 else 1
    n = [(x + k * y // STEP, q * y) for x, y in n]
    if rng.random() < 0.2:
        n = [(y, x) for x, y in n]
    if not e:
        return make(s, plain, straight)
    n, e = shuffle(rng, n, e)
    return s.mk.mesh2d_set(s.id, s.mk.mk_mesh2d(n, e))[0]


def ring(s):
    """rings of quadrilaterals around a polygon of three to eight corners, sometimes cut open, with triangles in a part of it"""
    rng = s.rng
    V = rng.choice(([(-2, -1), (2, -1), (0, 2)], [(-1, -1), (1, -1), (1, 1), (-1, 1)], [(0, -2), (2, 0), (1, 2), (-1, 2), (-2, 0)],
                    [(-1, -2), (1, -2), (2, 0), (1, 2), (-1, 2), (-2, 0)], [(-1, -2), (1, -2), (2, -1), (2, 1), (1, 2), (-1, 2), (-2, 1), (-2, -1)]))
    k, R = len(V), rng.randint(1, 3)
    n = [(16 * (r + 1) * x, 16 * (r + 1) * y) for r in range(R + 1) for x, y in V]
    at = lambda r, i: r * k + i % k
    e = {tuple(sorted((at(r, i), at(r, i + 1)))) for r in range(R + 1) for i in range(k)} | {(at(r, i), at(r + 1, i)) for r in range(R) for i in range(k)}
    if rng.random() < 0.4:          # a triangle pair somewhere
        r, i = rng.randrange(R), rng.randrange(k)
        e.add(tuple(sorted((at(r, i), at(r + 1, i + 1)))))
    elif k > 3 and rng.random() < 0.3:
        e.discard((at(0, 0), at(1, 0)))
    n, e = shuffle(rng, n, sorted(e))
    return s.mk.mesh2d_set(s.id, s.mk.mk_mesh2d(n, e))[0]


def box(m):
    xs, ys = [p[0] // SC for p in m["n"] if p], [p[1] // SC for p in m["n"] if p]
    return min(xs), min(ys), max(xs), max(ys)


def polygon(s, m):
    """one polygon, no corner on the lattice of the mesh; or none: the whole mesh"""
    rng = s.rng
    if rng.random() < 0.25:
        return [], GL([])
    x0, y0, x1, y1 = box(m)
    o = lambda a, b: rng.randint(a - 8, b + 8) * 2 + 1
    if rng.random() < 0.6:
        a, b = sorted((o(x0, x1), o(x0, x1)))
        c, d = sorted((o(y0, y1), o(y0, y1)))
        P = [[a, c], [b + 2, c], [b + 2, d + 2], [a, d + 2]]
    else:
        for _ in range(50):
            P = [[o(x0, x1), o(y0, y1)] for _ in range(3)]
            if abs(cross(P[0], P[1], P[2])) > 200:
                break
    if rng.random() < 0.5:
        P = P[::-1]
    pts = [(p[0] / 2.0, p[1] / 2.0) for p in P]
    return [[p[0] * SC // 2, p[1] * SC // 2] for p in P], GL(pts + pts[:1])


def op_polygon(s, M):
    rng = s.rng
    P, gl = polygon(s, M)
    par = MeshRefinementParameters(max_num_refinement_iterations=rng.choice((1, 1, 2)), refine_intersected=rng.choice((0, 1)), use_mass_center_when_refining=1,
                                   min_edge_size=rng.choice((0.5, 0.5, 3.0, 6.0)), connect_hanging_nodes=rng.choice((0, 1)), smoothing_iterations=0)
    rc, _ = s.mk.mesh2d_refine_based_on_polygon(s.id, gl, par)
    rc2, N = whole(s)
    s.emit("refpoly", rc=rc or rc2, M=M, N=N, P=P, it=par.max_num_refinement_iterations, hit=par.refine_intersected, size=int(par.min_edge_size * SC * 2), join=par.connect_hanging_nodes)


def op_samples(s, M):
    rng = s.rng
    x0, y0, x1, y1 = box(M)
    pts = [(rng.randint(x0 - 4, x1 + 4) + 0.25, rng.randint(y0 - 4, y1 + 4) + 0.25, float(rng.choice((1, 2, 3)))) for _ in range(rng.randint(1, 12))]
    sm = rng.choice((0, 0, 1, 2))
    twice = all(len(f) == 4 for f in M["f"]) and rng.random() < 0.5
    par = MeshRefinementParameters(max_num_refinement_iterations=1 + twice, min_edge_size=rng.choice((0.5, 3.0)), refinement_type=2, connect_hanging_nodes=0 if twice else rng.choice((0, 1)),
                                   use_mass_center_when_refining=1,
                                   account_for_samples_outside=0, smoothing_iterations=sm, directional_refinement=0)
    rc, _ = s.mk.mesh2d_refine_based_on_samples(s.id, GL(pts), 1.0, 1, par)
    rc2, N = whole(s)
    s.emit("refsam", rc=rc or rc2, M=M, N=N, S=[[round(p[0] * SC), round(p[1] * SC), int(p[2])] for p in pts], it=par.max_num_refinement_iterations, sm=sm, size=int(par.min_edge_size * SC * 2), join=par.connect_hanging_nodes)


def op_courant(s, M):
    rng = s.rng
    x0, y0, x1, y1 = box(M)
    par = MeshRefinementParameters(max_num_refinement_iterations=1, min_edge_size=rng.choice((0.5, 3.0)), refinement_type=1, connect_hanging_nodes=0, smoothing_iterations=rng.choice((0, 1)), max_courant_time=rng.choice((1.0, 5.0)))
    if rng.random() < 0.5:
        pts = [(rng.randint(x0 - 4, x1 + 4) + 0.25, rng.randint(y0 - 4, y1 + 4) + 0.25, rng.choice((-0.05, -2.0, -20.0, -100.0, 3.0))) for _ in range(rng.randint(1, 12))]
        rc, _ = s.mk.mesh2d_refine_based_on_samples(s.id, GL(pts), 1.0, 1, par)
    else:
        n = 5
        g = GriddedSamples(num_x=n, num_y=n, x_origin=x0 - 1.0, y_origin=y0 - 1.0, cell_size=(max(x1 - x0, y1 - y0) + 2.0) / (n - 1), value_type=1)
        vals = (C.c_float * (n * n))(*[rng.choice([-0.05, -2.0, -20.0, -100.0, 3.0]) for _ in range(n * n)])
        g.values = C.cast(vals, C.c_void_p)
        rc, _ = s.mk.mesh2d_refine_based_on_gridded_samples(s.id, g, par, rng.random() < 0.5)
    rc2, N = whole(s)
    s.emit("refcour", rc=rc or rc2, M=M, N=N, join=0)


def op_split(s, M):
    rng = s.rng
    E = [x for x in M["e"] if x and 0 not in x]
    a, b = rng.choice(E)
    rc, _ = s.mk.mesh2d_split_row(s.id, a - 1, b - 1)
    rc2, N = whole(s)
    s.emit("split", rc=rc or rc2, M=M, N=N, a=a, b=b)


def op_casulli(s, M):
    rng = s.rng
    if rng.random() < 0.5:
        rc, _ = s.mk.mesh2d_casulli_refinement(s.id)
        P = []
    else:
        P, gl = polygon(s, M)
        rc, _ = s.mk.mesh2d_casulli_refinement_on_polygon(s.id, gl)
    rc2, N = whole(s)
    s.emit("casulli", rc=rc or rc2, M=M, N=N, P=P)


def scenario(s):
    rng = s.rng
    s.open()
    s.emit("reset")
    op = dict(polygon=[op_polygon], samples=[op_samples, op_courant], split=[op_split], casulli=[op_casulli]).get(s.focus, [op_polygon, op_polygon, op_samples, op_courant, op_split, op_casulli])
    for _ in range(rng.randint(1, 2)):
        f = rng.choice(op)
        if f == op_split and rng.random() < 0.4:
            ring(s)
        else:
            make(s, f == op_casulli or (f == op_split and rng.random() < 0.5), f == op_casulli)
        rc, M = whole(s)
        if not M["f"]:
            continue
        f(s, M)
    s.mk.deallocate_state(s.id)
