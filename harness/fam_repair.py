"""Repairing and improving the 2D mesh: merging nodes, removing parts, flipping edges, orthogonalisation, small flow edges, joining meshes, snapping."""
from mkapi import *
from lattice import *
from scen import *
from fam_measure import tensor

STEP = 8
SC = 4


def whole(s, sc=SC):
    rc, d = s.mk.mesh2d_full(s.id)
    if rc:
        return rc, dict(n=[], e=[], f=[])
    return rc, dict(n=[pt(p, sc) for p in d["nodes"]], e=[[idx(a), idx(b)] for a, b in d["edges"]], f=[[idx(i) for i in f] for f in d["faces"]])


def put(s, n, e):
    return s.mk.mesh2d_set(s.id, s.mk.mk_mesh2d(n, e))[0]


def join(*parts):
    N, E = [], []
    for n, e in parts:
        o = len(N)
        N += n
        E += [(a + o, b + o) for a, b in e]
    return N, E


def polygon(s, N, none=0.25):
    """one polygon with corners off the lattice of the nodes, or none"""
    rng = s.rng
    if rng.random() < none:
        return [], GL([])
    xs, ys = [p[0] for p in N], [p[1] for p in N]
    ox = lambda: rng.randint(min(xs) - 4, max(xs) + 4) * 2 + 1
    oy = lambda: rng.randint(min(ys) - 4, max(ys) + 4) * 2 + 1
    if rng.random() < 0.6:
        a, b = sorted((ox(), ox()))
        c, d = sorted((oy(), oy()))
        P = [[a, c], [b + 2, c], [b + 2, d + 2], [a, d + 2]]
    else:
        for _ in range(50):
            P = [[ox(), oy()] for _ in range(3)]
            if abs(cross(P[0], P[1], P[2])) > 200:
                break
        else:
            return [], GL([])
    if rng.random() < 0.5:
        P = P[::-1]
    pts = [(p[0] / 2.0, p[1] / 2.0) for p in P]
    return [[p[0] * SC // 2, p[1] * SC // 2] for p in P], GL(pts + pts[:1])


def op_regions(s):
    rng = s.rng
    parts, x = [], 0
    for _ in range(rng.randint(1, 3)):
        nx = rng.randint(1, 3)
        parts.append(grid_mesh(rng, nx, rng.randint(1, 3), ox=x, oy=rng.choice((0, 8, -24)), jitter=rng.choice((0, 0, 2)), tri=rng.choice((0, 0.5, 1)), hole=rng.choice((0, 0.3, 0.5)), fuse=rng.choice((0, 0.1))))
        x += STEP * nx + 12
    n, e = join(*parts)
    if not e:
        return
    n, e = shuffle(rng, n, e)
    if put(s, n, e):
        return
    rc0, M = whole(s)
    if rc0 or not M["f"]:
        return
    rc, _ = s.mk.mesh2d_remove_disconnected_regions(s.id)
    rc2, N = whole(s)
    s.emit("regions", rc=rc or rc2, M=M, N=N)


def op_merge(s):
    """parts of which some nodes lie close to each other in pairs"""
    rng = s.rng
    nx, ny = rng.randint(1, 3), rng.randint(1, 3)
    a = grid_mesh(rng, nx, ny, tri=rng.choice((0, 0.4)), hole=0, fuse=0)
    d = rng.choice((0, 0, 1, -1))
    dy = rng.choice((0, 1)) if d else 0
    b = grid_mesh(rng, rng.randint(1, 2), rng.randint(1, 3), ox=STEP * nx + d, oy=dy + STEP * rng.choice((0, 0, 1, -1)), tri=rng.choice((0, 0.4)), hole=0, fuse=0)
    parts = [a, b]
    if rng.random() < 0.3:
        parts.append(grid_mesh(rng, 1, 1, ox=-STEP, oy=STEP * rng.randint(0, ny), tri=0, hole=0, fuse=0))
    n, e = join(*parts)
    n, e = shuffle(rng, n, e)
    if put(s, n, e):
        return
    rc0, M = whole(s)
    P, gl = polygon(s, n, 0.4)
    if rng.random() < 0.5:
        dist = 0
        rc, _ = s.mk.mesh2d_merge_nodes(s.id, gl)
    else:
        dist = rng.choice((0.5, 1.25, 2.0))
        rc, _ = s.mk.mesh2d_merge_nodes_with_merging_distance(s.id, gl, dist)
    rc2, N = whole(s)
    s.emit("merge", rc=rc or rc2, M=M, N=N, P=P, d2=round(16 * dist * dist))


def disc(rng):
    """a triangulation far from regular: points entered one by one, each joined to the corners of the triangle it lies in, then edges flipped at random"""
    w = 64
    n = [(0, 0), (w, 0), (w, w), (0, w)]
    tris = [(0, 1, 2), (0, 2, 3)]
    for _ in range(rng.randint(4, 14)):
        p = (rng.randint(4, w - 4), rng.randint(4, w - 4))
        for t in tris:
            a, b, c = (n[i] for i in t)
            if min(cross(a, b, p), cross(b, c, p), cross(c, a, p)) >= 40:
                k = len(n)
                n.append(p)
                tris.remove(t)
                tris += [(t[0], t[1], k), (t[1], t[2], k), (t[2], t[0], k)]
                break
    e = sorted({tuple(sorted(q)) for t in tris for q in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0]))})
    return n, e


def op_flip(s):
    rng = s.rng
    if rng.random() < 0.4:
        n, e = disc(rng)
    else:
        n, e = grid_mesh(rng, rng.randint(1, 5), rng.randint(1, 4), jitter=rng.choice((0, 0, 1)), tri=rng.choice((0, 0.3, 0.6, 1)), hole=rng.choice((0, 0, 0.2)), fuse=0)
    if not e:
        return
    n, e = shuffle(rng, n, e)
    if put(s, n, e):
        return
    rc0, M = whole(s)
    if not M["f"]:
        return
    tri = rng.choice((1, 1, 1, 0))
    rc, _ = s.mk.mesh2d_flip_edges(s.id, tri, 0, GL([]), GL([]))
    rc2, N = whole(s)
    s.emit("flip", rc=rc or rc2, M=M, N=N, tri=tri)


def op_ortho(s):
    rng = s.rng
    nx, ny = rng.randint(2, 5), rng.randint(2, 5)
    n, e = grid_mesh(rng, nx, ny, jitter=0, tri=0, hole=0, fuse=0)
    m = []
    even = 1 if rng.random() < 0.25 else 0
    for x, y in n if not even else ():      # inner nodes are moved
        inner = 0 < x < nx * STEP and 0 < y < ny * STEP
        m.append((x + rng.randint(-2, 2), y + rng.randint(-2, 2)) if inner else (x + (rng.randint(-1, 1) if 0 < x < nx * STEP else 0), y + (rng.randint(-1, 1) if 0 < y < ny * STEP else 0)))
    n, e = shuffle(rng, m or n, e)
    if put(s, n, e):
        return
    rc0, M = whole(s)
    P, gl = polygon(s, n, 0.4)
    par = OrthogonalizationParameters(outer_iterations=rng.randint(1, 2), boundary_iterations=rng.choice((1, 5, 25)), inner_iterations=rng.choice((1, 5, 25)),
                                      orthogonalization_to_smoothing_factor=rng.choice((0.0, 0.5, 0.975, 1.0)), orthogonalization_to_smoothing_factor_at_boundary=rng.choice((0.0, 0.975, 1.0)),
                                      areal_to_angle_smoothing_factor=rng.choice((0.5, 1.0)))
    if rng.random() < 0.6:
        rc, _ = s.mk.mesh2d_compute_orthogonalization(s.id, 0, par, gl, GL([]))
        how = "whole"
    else:
        how = "steps"
        rc, _ = s.mk.mesh2d_initialize_orthogonalization(s.id, 0, par, gl, GL([]))
        for _ in range(par.outer_iterations if not rc else 0):
            rc = rc or s.mk.mesh2d_prepare_outer_iteration_orthogonalization(s.id)[0]
            for _ in range(par.boundary_iterations):
                for _ in range(par.inner_iterations):
                    rc = rc or s.mk.mesh2d_compute_inner_ortogonalization_iteration(s.id)[0]
            rc = rc or s.mk.mesh2d_finalize_inner_ortogonalization_iteration(s.id)[0]
        rc = rc or s.mk.mesh2d_delete_orthogonalization(s.id)[0]
    rc2, d = s.mk.mesh2d_full(s.id)
    N = dict(n=[fpt(p, 100) for p in d["nodes"]], e=[[idx(a), idx(b)] for a, b in d["edges"]], f=[[idx(i) for i in f] for f in d["faces"]])
    s.emit("ortho", rc=rc or rc2, M=M, N=N, P=P, b=[0, 0, nx * STEP * 100, ny * STEP * 100], how=how, even=even)


def op_small(s):
    rng = s.rng
    n, e = tensor(rng)
    if put(s, n, e):
        return
    rc0, M = whole(s, 1)
    t = rng.choice((2, 5, 8, 9, 11))
    rc, _ = s.mk.mesh2d_delete_small_flow_edges_and_small_triangles(s.id, t / 10.0, 0.01)
    rc2, N = whole(s, 1)
    s.emit("small", rc=rc or rc2, M=M, N=N, t=t)


def op_connect(s):
    """two rectangles of rectangles side by side, one of them with smaller ones"""
    rng = s.rng
    r = rng.choice((1, 2, 3, 4, 5))
    h = 100 if r == 5 else 12
    ny = rng.randint(1, 3)
    a = grid_mesh(rng, rng.randint(1, 5), ny, ox=0, oy=0, tri=0, hole=0, fuse=0, step=h)
    x1 = max(p[0] for p in a[0])
    k0, k1 = sorted((rng.randint(-1, ny), rng.randint(-1, ny + 1)))
    if k1 <= 0 or k0 >= ny or k0 == k1:
        k0, k1 = 0, ny
    b = grid_mesh(rng, rng.randint(1, 3), (k1 - k0) * r, ox=0, oy=0, tri=0, hole=0, fuse=0, step=h // r)
    b = ([(x + x1, y + k0 * h) for x, y in b[0]], b[1])
    if rng.random() < 0.5:
        b = ([(x1 - x, y) for x, y in b[0]], b[1])
        mx = max(x for x, y in b[0])
        b = ([(x - mx, y) for x, y in b[0]], b[1])
    if rng.random() < 0.5:
        a, b = ([(y, x) for x, y in a[0]], a[1]), ([(y, x) for x, y in b[0]], b[1])
    if rng.random() < 0.5:
        a, b = b, a
    a, b = shuffle(rng, *a), shuffle(rng, *b)
    if put(s, *b):
        return
    rc0, B = whole(s)
    if put(s, *a):
        return
    rc1, A = whole(s)
    rc, _ = s.mk.mesh2d_connect_meshes(s.id, s.mk.mk_mesh2d(*b), 0.4)
    rc2, N = whole(s)
    s.emit("connect", rc=rc or rc2, M=A, B=B, N=N, r=r)


def op_deref(s):
    """a rectangle with its nodes row by row; first which faces go, then the mesh without them"""
    rng = s.rng
    n, e = grid_mesh(rng, rng.randint(2, 9), rng.randint(2, 9), tri=0, hole=0, fuse=0)
    k, q = rng.choice((0, 0, 2)), rng.choice((1, 1, -1))
    n = [(x + k * y // STEP, q * y) for x, y in n]
    e = sorted(e)
    if put(s, n, e):
        return
    rc0, M = whole(s)
    g = GL(size=len(M["f"]))
    rc1, _ = s.mk.mesh2d_casulli_derefinement_elements(s.id, g)
    D = [pt(p, SC) for p in g.pts(min(g.s.num_coordinates, len(M["f"])))]
    rc, _ = s.mk.mesh2d_casulli_derefinement(s.id)
    rc2, N = whole(s)
    s.emit("deref", rc=rc or rc1 or rc2, M=M, N=N, D=D)


def op_snap(s):
    rng = s.rng
    nx, ny = rng.randint(2, 5), rng.randint(2, 5)
    n, e = grid_mesh(rng, nx, ny, tri=rng.choice((0, 0.5)), hole=0, fuse=0)
    n, e = shuffle(rng, n, e)
    if put(s, n, e):
        return
    rc0, M = whole(s)
    P, gl = polygon(s, n, 0.6)
    d = rng.choice((1, 2, 3)) * rng.choice((1, -1))
    side = rng.randrange(4)
    lo, hi = -rng.randint(-8, 20), rng.randint(-8, 20)
    if side == 0:
        L = [(lo, d), (nx * STEP + hi, d)]
    elif side == 1:
        L = [(lo, ny * STEP + d), (nx * STEP + hi, ny * STEP + d)]
    elif side == 2:
        L = [(d, lo), (d, ny * STEP + hi)]
    else:
        L = [(nx * STEP + d, lo), (nx * STEP + d, ny * STEP + hi)]
    if L[0][0] >= L[1][0] and L[0][1] >= L[1][1]:
        return
    if rng.random() < 0.5:
        L = L[::-1]
    rc, _ = s.mk.mesh2d_snap_to_landboundary(s.id, gl, GL(L))
    rc2, N = whole(s)
    s.emit("snap", rc=rc or rc2, M=M, N=N, P=P, L=[[p[0] * SC, p[1] * SC] for p in L])


OPS = dict(regions=op_regions, merge=op_merge, flip=op_flip, ortho=op_ortho, small=op_small, connect=op_connect, deref=op_deref, snap=op_snap)


def scenario(s):
    s.open()
    s.emit("reset")
    f = OPS[s.focus] if s.focus else s.rng.choice([OPS[k] for k in ("regions", "merge", "flip", "ortho", "small", "connect", "snap", "deref")])
    for _ in range(s.rng.randint(1, 2)):
        f(s)
    s.mk.deallocate_state(s.id)
