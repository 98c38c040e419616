"""Splines, grids from splines, circles and triangles, measures of a grid, meshes on the globe and their projection."""
import math
import ctypes as C
from mkapi import *
from lattice import *
from scen import *

TURNS = [(1, 0, 1), (0, 1, 1), (0, -1, 1), (4, 3, 5), (3, -4, 5), (4, -3, 5), (3, 4, 5), (12, 5, 13)]     # between -90 and 90 degrees
STEPS = [(0, 1, 1), (3, 4, 5), (4, 3, 5), (12, 5, 13)]


def grid(s, sc, f=fpt, t=None):
    rc, g = s.mk.curvi(s.id if t is None else t)
    if rc:
        return rc, []
    return rc, [[f(g["nodes"][i * g["m"] + j], sc) for j in range(g["m"])] for i in range(g["n"])]


def op_measure(s):
    """smoothness and curvature of an irregular grid, with missing nodes"""
    rng = s.rng
    n, m = rng.randint(2, 5), rng.randint(2, 5)
    row = [(0, 0)]
    G = []
    for i in range(n):
        G.append([(4 * j + rng.randint(-1, 1), 4 * i + rng.randint(-1, 1)) if rng.random() < 0.7 else (4 * j, 4 * i) for j in range(m)])
    if rng.random() < 0.3:
        G = [[(3 * j, 3 * i) for j in range(m)] for i in range(n)]
        i, j = rng.randrange(n), rng.randrange(m)
        G[i][j] = (G[i][j][0] + rng.randint(-2, 2), G[i][j][1] + rng.randint(-2, 2))
    H = [[None if rng.random() < 0.08 else p for p in r] for r in G]
    rc, _ = s.mk.curvilinear_set(s.id, s.mk.mk_curvi([[(MISSING, MISSING) if p is None else (float(p[0]), float(p[1])) for p in r] for r in H]))
    rc2, G = grid(s, 1, pt)
    if rc or rc2 or not G:
        return
    for d in (0, 1):
        k = len(G) * len(G[0])
        a = darr([-5.0] * (k + 3))
        r1, _ = s.mk.curvilinear_compute_smoothness(s.id, d, a)
        b = darr([-5.0] * (k + 3))
        r2, _ = s.mk.curvilinear_compute_curvature(s.id, d, b)
        part = lambda v, f: [[-1 if v[i * len(G[0]) + j] == MISSING else f(v[i * len(G[0]) + j]) for j in range(len(G[0]))] for i in range(len(G))]
        s.emit("measure", rc=r1 or r2, G=G, d=d, S=part(a, lambda x: fix(x, 100)), R=part(b, lambda x: fix(1000.0 / x, 100) if x > 0 else 77777777),
               ok=all(x == -5.0 for x in list(a)[k:] + list(b)[k:]))


def op_circle(s):
    rng = s.rng
    ox, oy = rng.randint(-40, 40), rng.randint(-40, 40)
    c, si, h = rng.choice(TURNS)
    rows = rng.randint(1, 4)
    r0, dy = rng.randint(4, 30), rng.randint(1, 20)
    step = rng.choice(STEPS)
    full = rng.random() < 0.3
    cols = rng.randint(1, 5 if step[2] == 5 else 3)
    theta = math.atan2(step[1], step[0])
    if full:
        cols = 4
        step, theta = (0, 1, 1), 2.0 + rng.random() * 5
    par = MakeGridParameters(num_columns=cols, num_rows=rows, angle=math.degrees(math.atan2(si, c)), origin_x=ox, origin_y=oy, block_size_x=r0 * theta, block_size_y=dy,
                             radius_curvature=float(r0), uniform_columns_fraction=1.0, uniform_rows_fraction=1.0)
    if math.atan2(step[1], step[0]) * cols > 2 * math.pi - 0.01 and not full:
        return
    _, (t,) = s.mk.allocate_state(0)         # the call refuses to replace a grid
    rc, _ = s.mk.curvilinear_compute_circular_grid(t, par)
    rc2, G = grid(s, 100, t=t)
    s.mk.expunge_state(t)
    s.emit("circle", rc=rc or rc2, o=[100 * ox, 100 * oy], u=[-si, c, h], t=list(step), r=100 * r0, dy=100 * dy, cols=cols, rows=rows, G=G)


def op_graded(s):
    """the same call without a radius: columns of one size, or growing towards both ends"""
    rng = s.rng
    ox, oy = rng.randint(-40, 40), rng.randint(-40, 40)
    c, si, h = rng.choice(TURNS)
    cols, rows = rng.randint(3, 12), rng.randint(1, 4)
    bx, by = rng.randint(1, 10), rng.randint(1, 10)
    even = rng.random() < 0.4
    big = 1.0 if even and rng.random() < 0.5 else float(rng.choice((2, 3, 4)))
    frac = 1.0 if even and big != 1.0 else rng.choice((0.0, 0.2, 0.3, 0.5, 0.7))
    par = MakeGridParameters(num_columns=cols, num_rows=rows, angle=math.degrees(math.atan2(si, c)), origin_x=ox, origin_y=oy, block_size_x=bx, block_size_y=by,
                             radius_curvature=0.0, uniform_columns_fraction=frac, uniform_rows_fraction=1.0, maximum_uniform_size_columns=big)
    _, (t,) = s.mk.allocate_state(0)         # the call refuses to replace a grid
    rc, _ = s.mk.curvilinear_compute_circular_grid(t, par)
    rc2, G = grid(s, 100, t=t)
    s.mk.expunge_state(t)
    s.emit("graded", rc=rc or rc2, o=[100 * ox, 100 * oy], u=[c, si, h], bx=100 * bx, by=100 * by, cols=cols, rows=rows, even=1 if even else 0, big=round(big), G=G)


def op_cross(s):
    """straight splines, crossing, upright or oblique"""
    rng = s.rng
    k, l = rng.randint(2, 4), rng.randint(2, 4)
    m, n = rng.randint(1, 4), rng.randint(1, 4)
    o = (rng.randint(-30, 30), rng.randint(-30, 30))
    u, v = rng.choice([((1, 0), (0, 1))] * 3 + [((4, 3), (-3, 4)), ((2, 1), (0, 2)), ((3, 0), (1, 2))])
    cuts = lambda c: [0] + [sum(t[:i + 1]) for t in [[rng.randint(3, 6) * 3 for _ in range(c - 1)]] for i in range(c - 1)]
    X, Y = cuts(k), cuts(l)
    at = lambda i, j: (o[0] + i * u[0] + j * v[0], o[1] + i * u[1] + j * v[1])
    lines = [[at(-2, y), at(X[-1] + 2, y)] for y in Y] + [[at(x, -2), at(x, Y[-1] + 2)] for x in X]
    lines = [t[::-1] if rng.random() < 0.4 else t for t in lines]
    # splines with more points than two, all on the line
    lines = [[t[0], ((t[0][0] + t[1][0]) / 2.0, (t[0][1] + t[1][1]) / 2.0), t[1]] if rng.random() < 0.3 else t for t in lines]
    rng.shuffle(lines)
    pts = []
    for t in lines:
        pts += ([None] if pts else []) + t
    rc, _ = s.mk.curvilinear_compute_grid_from_splines(s.id, GL(pts), CurvilinearParameters(m_refinement=m, n_refinement=n))
    rc2, G = grid(s, 20)
    s.emit("cross", rc=rc or rc2, o=[20 * t for t in o], u=[20 * t for t in u], v=[20 * t for t in v], X=X, Y=Y, m=m, n=n, G=G)


def op_ortho(s):
    """a grid grown from a straight centre line, between the ends of lines that cross it at right angles"""
    rng = s.rng
    c, si, h = rng.choice([(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (4, 3, 5), (3, -4, 5), (-4, 3, 5)])
    o = (rng.randint(-40, 40), rng.randint(-40, 40))
    L = rng.randint(30, 120)
    w = rng.choice([x for x in range(5, 26) if L % x])
    a = rng.randint(2, 10)
    low, up = [rng.randint(8, 60) if rng.random() < 0.2 else a * w // 5 + rng.randint(1, 40) for _ in range(2)]
    at = lambda x, y: (o[0] + (c * x - si * y) / h, o[1] + (si * x + c * y) / h)
    k = rng.randint(3, 5)       # lines of two points cross, longer ones are centre lines
    centre = [at(L * i / (k - 1), 0) for i in range(k)]
    cuts = sorted(rng.sample(range(2, L - 1), rng.randint(2, 4)))
    lines = []
    for x in cuts:
        t = [at(x, -low), at(x, up)]
        lines.append(t if rng.random() < 0.6 else t[::-1])
    rng.shuffle(lines)
    lines.insert(rng.randint(0, len(lines)), centre)
    pts = []
    for t in lines:
        pts += ([None] if pts else []) + t
    m, n = rng.choice((3, 6, 40)), rng.choice((2, 6, 40))
    rc, (t,) = s.mk.allocate_state(0)
    rc, _ = s.mk.curvilinear_compute_orthogonal_grid_from_splines(t, GL(pts), CurvilinearParameters(m_refinement=m, n_refinement=n), SplinesToCurvilinearParameters(
        aspect_ratio=a / 10, average_width=float(w), curvature_adapted_grid_spacing=rng.choice((0, 1)), grow_grid_outside=rng.choice((0, 1)), maximum_num_faces_in_uniform_part=rng.choice((2, 5, 8)),
        check_front_collisions=0, remove_skinny_triangles=rng.choice((0, 1))))
    rc2, G = grid(s, 100, t=t)
    s.mk.expunge_state(t)
    s.emit("ortho", rc=rc or rc2, o=[100 * x for x in o], u=[c, si, h], L=100 * L, w=w, a=a, lo=100 * low, up=100 * up, m=m, n=n, c=k, G=G)


def op_points(s):
    """points of the cubic splines through two to four points"""
    rng = s.rng
    L = []
    for i in range(rng.randint(1, 3)):
        L.append([(rng.randint(-30, 30), rng.randint(-30, 30)) for _ in range(rng.randint(2, 4))])
        while any(a == b for a, b in zip(L[-1], L[-1][1:])):
            L[-1] = [(rng.randint(-30, 30), rng.randint(-30, 30)) for _ in L[-1]]
    k = rng.randint(0, 3)
    pts = []
    for t in L:
        pts += ([None] if pts else []) + t
    size = sum(len(t) + (len(t) - 1) * k for t in L) + len(L) - 1
    g = GL(size=size)
    rc, _ = s.mk.get_splines(GL(pts), g, k)
    Q, cur = [], []
    for p in g.pts():
        if p[0] == MISSING:
            Q.append(cur)
            cur = []
        else:
            cur.append(fpt(p, 100))
    Q.append(cur)
    s.emit("points", rc=rc, L=[[[100 * x, 100 * y] for x, y in t] for t in L], q=k, Q=Q, ok=g.intact())


def op_shore(s):
    """one spline of several is snapped to a straight land boundary"""
    rng = s.rng
    c, si, h = rng.choice([(1, 0, 1), (0, 1, 1), (-1, 0, 1), (4, 3, 5), (3, -4, 5)])
    o = (rng.randint(-40, 40), rng.randint(-40, 40))
    at = lambda x, y: (o[0] + (c * x - si * y) / h, o[1] + (si * x + c * y) / h)
    cut = sorted(rng.sample(range(-15, 150), rng.randint(0, 3)))
    land = [at(x, 0) for x in [-30] + cut + [160]]
    L = []
    for _ in range(rng.randint(1, 3)):
        k = rng.randint(3, 5)
        y = rng.randint(-4, 4)
        L.append([at(30 * i + rng.randint(0, 8), y + rng.randint(-3, 3)) for i in range(k)])
    q = rng.randrange(len(L))
    pts, off = [], []
    for t in L:
        pts += [None] if pts else []
        off.append(len(pts))
        pts += t
    g = GL(pts)
    rc, _ = s.mk.splines_snap_to_landboundary(s.id, GL(land), g, off[q], off[q] + len(L[q]) - 1)
    after = g.pts()
    Q = [[fpt(p, 100) for p in after[off[i]:off[i] + len(t)]] for i, t in enumerate(L)]
    s.emit("shore", rc=rc, o=[100 * x for x in o], u=[c, si, h], q=q + 1, L=[[fpt(p, 100) for p in t] for t in L], Q=Q,
           ok=g.intact() and all(after[i][0] == MISSING for i, p in enumerate(pts) if p is None))


def op_triangle(s):
    rng = s.rng
    while True:
        n = [rng.randint(1, 4) for _ in range(3)]
        sides = [n[0] + n[1], n[1] + n[2], n[2] + n[0]]      # between corners; each corner block is n[i] wide
        break
    q = 12
    P = [(0, 0), (q * rng.randint(3, 6), q * rng.randint(-1, 1)), (q * rng.randint(1, 3), q * rng.randint(3, 6))]
    if rng.random() < 0.5:
        P = [P[0], P[2], P[1]]
    o = (rng.randint(-30, 30), rng.randint(-30, 30))
    ring = []
    for i in range(3):
        a, b = P[i], P[(i + 1) % 3]
        k = sides[i]
        ring += [(o[0] + a[0] + (b[0] - a[0]) * j / k, o[1] + a[1] + (b[1] - a[1]) * j / k) for j in range(k)]
    corner = [0, sides[0], sides[0] + sides[1]]
    N = len(ring)
    k = rng.randrange(N)
    ring, corner = ring[k:] + ring[:k], [(c - k) % N for c in corner]
    r = rng.randrange(3)
    corner = corner[r:] + corner[:r]
    rc, _ = s.mk.curvilinear_compute_transfinite_from_triangle(s.id, GL(ring + ring[:1]), *corner)
    rc2, G = grid(s, 100)
    s.emit("triangle", rc=rc or rc2, T=[[100 * (o[0] + x), 100 * (o[1] + y)] for x, y in P], B=[fpt(p, 100) for p in ring], G=G)


def op_globe(s):
    rng = s.rng
    rc, (t,) = s.mk.allocate_state(rng.choice((1, 1, 2)))
    lon, lat = rng.choice(((6, 2), (8, 12), (9, 6), (10, 12), (12, 15), (15, 6), (16, 15), (18, 8), (24, 5)))
    lat = rng.randint(1, lat)
    rc, _ = s.mk.mesh2d_make_global(t, lon, lat)
    rc2, d = s.mk.mesh2d_full(t)
    ok = not (rc or rc2)
    s.emit("globe", rc=rc or rc2, lon=lon, lat=lat, N=[fpt(p, 1000) for p in d["nodes"]] if ok else [], E=[[idx(a), idx(b)] for a, b in d["edges"]] if ok else [])
    s.mk.expunge_state(t)


ZONE = b"+proj=utm +lat_1=0.5 +lat_2=2 +n=0.5 +zone=31"


def op_project(s):
    """from the plane to the globe and back"""
    rng = s.rng
    rc, (t,) = s.mk.allocate_state(0)
    n, e = grid_mesh(rng, rng.randint(1, 4), rng.randint(1, 4), ox=0, oy=0)
    n, e = shuffle(rng, n, e)
    k = rng.choice((10, 100, 500))
    base = (400000 + rng.randint(0, 200000), rng.choice((100000, 3000000, 5600000)))
    N = [(base[0] + k * x, base[1] + k * y) for x, y in n]
    rc, _ = s.mk.mesh2d_set(t, s.mk.mk_mesh2d(N, e))
    read = lambda: s.mk.raw_mesh2d(t)
    z = ZONE
    r0, N0, E0 = read()
    r1, _ = s.mk.mesh2d_convert_projection(t, 1, z)
    _, (p1,) = s.mk.get_projection(t)
    r2, N1, E1 = read()
    r3, _ = s.mk.mesh2d_convert_projection(t, 0, z)
    _, (p2,) = s.mk.get_projection(t)
    r4, N2, E2 = read()
    flat = lambda N: [[fix(x - base[0], 100), fix(y - base[1], 100)] for x, y in N]
    ok = not (rc or r1 or r2 or r3 or r4)
    s.emit("project", rc=rc or r1 or r2 or r3 or r4, p=[p1, p2], A=flat(N0) if ok else [], B=[[fix(x, 100000), fix(y, 100000)] for x, y in N1] if ok else [], C=flat(N2) if ok else [],
           E=[[[a, b] for a, b in E] for E in (E0, E1, E2)] if ok else [])
    s.mk.expunge_state(t)


def scenario(s):
    rng = s.rng
    s.open()
    s.emit("reset")
    ops = [op_measure, op_measure, op_circle, op_graded, op_cross, op_cross, op_ortho, op_ortho, op_points, op_shore, op_triangle, op_triangle, op_globe, op_project]
    pick = {f.__name__[3:]: [f] for f in ops}.get(s.focus, ops)
    for _ in range(rng.randint(1, 3)):
        rng.choice(pick)(s)
    s.mk.deallocate_state(s.id)
