"""Generation: rectangular meshes and grids, grids from polygons and splines, Delaunay meshes, 1D meshes from networks."""
import math
import ctypes as C
from mkapi import *
from lattice import *
from scen import *

TURNS = [(5, 0), (5, 0), (4, 3), (4, -3), (3, 4), (3, -4)]


def whole(s, sc):
    rc, d = s.mk.mesh2d_full(s.id)
    if rc:
        return rc, dict(n=[], e=[], f=[])
    return rc, dict(n=[pt(p, sc) for p in d["nodes"]], e=[[idx(a), idx(b)] for a, b in d["edges"]], f=[[idx(i) for i in f] for f in d["faces"]])


def grid(s, sc):
    rc, g = s.mk.curvi(s.id)
    if rc:
        return rc, []
    return rc, [[pt(g["nodes"][i * g["m"] + j], sc) for j in range(g["m"])] for i in range(g["n"])]


def maybe_mesh(s):
    """something that is there already and has to stay"""
    if s.rng.random() < 0.3:
        n, e = grid_mesh(s.rng, s.rng.randint(1, 2), 1, ox=-900, oy=-900, tri=0, hole=0, fuse=0)
        n, e = shuffle(s.rng, n, e)
        s.mk.mesh2d_set(s.id, s.mk.mk_mesh2d(n, e))


def produce(s, name, args, **info):
    """the mesh and the grid call of that name"""
    rng = s.rng
    sc = 10
    if rng.random() < 0.5:
        maybe_mesh(s)
        rc0, M = whole(s, sc)
        rc, _ = getattr(s.mk, "mesh2d_make_rectangular_mesh" + name)(s.id, *args)
        rc2, N = whole(s, sc)
        s.emit("rect", rc=rc or rc2, as_="mesh", M=M, N=N, **info)
    else:
        rc, _ = getattr(s.mk, "curvilinear_compute_rectangular_grid" + name)(s.id, *args)
        rc2, G = grid(s, sc)
        s.emit("rect", rc=rc or rc2, as_="grid", G=G, **info)


def op_rect(s):
    rng = s.rng
    c, si = rng.choice(TURNS)
    cols, rows = rng.randint(1, 6), rng.randint(1, 6)
    ox, oy = rng.randint(-60, 60), rng.randint(-60, 60)
    bx, by = rng.randint(1, 12), rng.randint(1, 12)
    par = MakeGridParameters(num_columns=cols, num_rows=rows, angle=math.degrees(math.atan2(si, c)), origin_x=ox, origin_y=oy, block_size_x=bx, block_size_y=by)
    produce(s, "", (par,), how="size", cols=cols, rows=rows, o=[10 * ox, 10 * oy], u=[2 * c * bx, 2 * si * bx], v=[-2 * si * by, 2 * c * by])


def op_ext(s):
    rng = s.rng
    ox, oy = rng.randint(-60, 60), rng.randint(-60, 60)
    bx, by = rng.randint(2, 12), rng.randint(2, 12)
    w, h = rng.randint(1, 40), rng.randint(by, 40)
    par = MakeGridParameters(num_columns=0, num_rows=0, angle=0.0, origin_x=ox, origin_y=oy, block_size_x=bx, block_size_y=by, upper_right_x=ox + w, upper_right_y=oy + h)
    produce(s, "_on_extension", (par,), how="extent", o=[10 * ox, 10 * oy], u=[10 * bx, 0], v=[0, 10 * by], w=10 * w, h=10 * h)


def op_poly(s):
    rng = s.rng
    c, si = rng.choice(TURNS)
    bx, by = rng.randint(2, 8), rng.randint(2, 8)
    w, h = rng.randint(12, 40), rng.randint(12, 40)
    ox, oy = rng.randint(-60, 60), rng.randint(-60, 60)
    if rng.random() < 0.5:
        P = [(0, 0), (w, 0), (w, h), (0, h)]
    elif rng.random() < 0.5:
        P = [(0, 0), (w, rng.randint(0, h)), (rng.randint(0, w), h)]
    else:
        P = [(0, 0), (w, 0), (w, h // 2), (w // 2, h // 2), (w // 2, h), (0, h)]
    if rng.random() < 0.5:
        P = P[::-1]
    P = [(x + ox + 0.1, y + oy + 0.3) for x, y in P]
    par = MakeGridParameters(num_columns=0, num_rows=0, angle=math.degrees(math.atan2(si, c)), block_size_x=bx, block_size_y=by)
    produce(s, "_from_polygon", (par, GL(P + P[:1])), how="polygon", P=[[round(10 * x), round(10 * y)] for x, y in P], u=[2 * c * bx, 2 * si * bx], v=[-2 * si * by, 2 * c * by])


def op_transfinite(s):
    rng = s.rng
    a, b = rng.randint(1, 5), rng.randint(1, 5)
    cuts = lambda k: [0] + [sum(t) for t in [[rng.randint(1, 4) for _ in range(k)]] for t in [t[:i + 1] for i in range(k)]]
    A, B = cuts(a), cuts(b)
    if rng.random() < 0.5:
        A, B = list(range(a + 1)), list(range(b + 1))
    u, v = rng.choice(((10, 0), (10, 0), (8, 4), (0, 6))), rng.choice(((0, 10), (3, 9), (-4, 8), (5, 8)))
    o = (rng.randint(-50, 50), rng.randint(-50, 50))
    at = lambda i, j: (o[0] + i * u[0] + j * v[0], o[1] + i * u[1] + j * v[1])
    ring = [at(i, 0) for i in A] + [at(A[-1], j) for j in B[1:]] + [at(i, B[-1]) for i in A[::-1][1:]] + [at(0, j) for j in B[::-1][1:-1]]
    corner = [0, a, a + b, 2 * a + b]
    n = len(ring)
    k = rng.randrange(n)
    ring, corner = ring[k:] + ring[:k], [(c - k) % n for c in corner]
    if rng.random() < 0.5:
        ring, corner = ring[::-1], [n - 1 - c for c in corner]
    q = rng.randrange(4)
    cs = [corner[(q + i) % 4] for i in range(3)] if rng.random() < 0.5 else [corner[(q - i) % 4] for i in range(3)]
    fourth = 1 if rng.random() < 0.6 or A != list(range(a + 1)) or B != list(range(b + 1)) else 0
    rc, _ = s.mk.curvilinear_compute_transfinite_from_polygon(s.id, GL(ring + ring[:1]), *cs, fourth)
    rc2, G = grid(s, 10)
    x = [c - 1 for c in cs]
    s.emit("transfinite", rc=rc or rc2, o=[10 * t for t in o], u=[10 * t for t in u], v=[10 * t for t in v], A=A, B=B, cs=cs, fourth=fourth, G=G, len=n)


def op_splines(s):
    rng = s.rng
    k, l = rng.randint(2, 3), rng.randint(2, 3)
    m, n = rng.randint(2, 4), rng.randint(2, 4)
    o = (rng.randint(-50, 50), rng.randint(-50, 50))
    cuts = lambda c, r: [0] + [sum(t[:i + 1]) for t in [[r * rng.randint(3, 6) for _ in range(c - 1)]] for i in range(c - 1)]
    X, Y = cuts(k, 4), cuts(l, 4)
    lines = [[(o[0] - 2, o[1] + y), (o[0] + X[-1] + 2, o[1] + y)] for y in Y] + [[(o[0] + x, o[1] - 2), (o[0] + x, o[1] + Y[-1] + 2)] for x in X]
    lines = [t[::-1] if rng.random() < 0.4 else t for t in lines]
    rng.shuffle(lines)
    pts = []
    for t in lines:
        pts += ([None] if pts else []) + t
    rc, _ = s.mk.curvilinear_compute_transfinite_from_splines(s.id, GL(pts), CurvilinearParameters(m_refinement=m, n_refinement=n))
    rc2, g = s.mk.curvi(s.id)
    G = [] if rc2 else [[fpt(g["nodes"][i * g["m"] + j], 100) for j in range(g["m"])] for i in range(g["n"])]
    s.emit("splines", rc=rc or rc2, X=[100 * (o[0] + x) for x in X], Y=[100 * (o[1] + y) for y in Y], m=m, n=n, G=G)


def op_delaunay(s):
    rng = s.rng
    k = rng.randint(3, 11)
    pts = list({(rng.randint(0, 64), rng.randint(0, 64)) for _ in range(k)})
    if len(pts) < 3 or all(cross(pts[0], pts[1], p) == 0 for p in pts):
        return
    maybe_mesh(s)
    rc0, M = whole(s, 1)
    rc, _ = s.mk.mesh2d_make_triangular_mesh_from_samples(s.id, GL(pts))
    rc2, N = whole(s, 1)
    s.emit("delaunay", rc=rc or rc2, S=[list(p) for p in pts], M=M, N=N)


def op_network(s):
    rng = s.rng
    lines, fixed = [], []
    s.far = getattr(s, "far", -1) + 1
    base = (rng.randint(-20, 20), rng.randint(-20, 20) + 300 * s.far)     # away from networks made before
    sc = 3360
    part = lambda d: dict(n=[pt(p, sc) for p in d["nodes"]], e=[[idx(a), idx(b)] for a, b in d["edges"]])
    _, d = s.mk.mesh1d(s.id)
    D0 = part(d)
    hub = base
    off = rng.choice((0.5, 1.0))
    close = rng.random() < 0.4
    face = rng.choice((1.0, 2.0)) if close else 0.4
    longest = 0
    for i in range(rng.choice((1, 2, 3, 4))):
        # polylines leave a common node in different quadrants, or lie apart
        if rng.random() < 0.5 or i >= 4:
            p = (base[0] + 100 * (i + 1), base[1])
            d = rng.choice(((1, 1), (1, -1), (-1, 1), (-1, -1)))
        else:
            p, d = hub, ((1, 1), (-1, 1), (-1, -1), (1, -1))[i]
        t = [p]
        for j in range(rng.randint(1, 3)):
            # alternating steps: east-west then north-south (in its quadrant the line never returns)
            h = (j + (0 if i % 2 else 1)) % 2
            k = rng.randint(6, 16)
            p = (p[0] + d[0] * k, p[1]) if h == 0 else (p[0], p[1] + d[1] * k)
            t.append(p)
        if rng.random() < 0.3:
            t = t[::-1]
        lines.append(t)
        L = sum(abs(a[0] - b[0]) + abs(a[1] - b[1]) for a, b in zip(t, t[1:]))
        longest = max(longest, L)
        f, at = [], rng.choice((0, 3, 4, 7))
        while at <= L and len(f) < 3:
            if at == L or at < L - 3:
                f.append(at)
            at += rng.randint(1 if close else 4, 9)
        if not f:
            f = [0]
        fixed.append(f)
    pts = []
    for t in lines:
        pts += ([None] if pts else []) + t
    rc, _ = s.mk.network1d_set(s.id, GL(pts))
    use = rng.choice((0, 1, 1))
    if use:
        arr = []
        for f in fixed:
            arr += ([MISSING] if arr else []) + [float(x) for x in f]
        r, _ = s.mk.network1d_compute_fixed_chainages(s.id, darr(arr), len(arr), face, off)
        rc = rc or r
    step = rng.choice((0, max(3, -(-longest // 8)), max(3, -(-longest // 8)) + 2, max(8, -(-longest // 8))))
    if step:
        r, _ = s.mk.network1d_compute_offsetted_chainages(s.id, float(step))
        rc = rc or r
    r, _ = s.mk.network1d_to_mesh1d(s.id, 0.4)
    rc = rc or r
    rc2, d = s.mk.mesh1d(s.id)
    D = part(d)
    s.emit("network", rc=rc or rc2, L=[[[sc * x, sc * y] for x, y in t] for t in lines], F=[[sc * x for x in f] for f in fixed] if use else [], off=int(off * sc), face=round(face * sc), step=step * sc, D0=D0, D=D)


def scenario(s):
    rng = s.rng
    s.open()
    s.emit("reset")
    ops = [op_rect, op_ext, op_poly, op_transfinite, op_splines, op_delaunay, op_network]
    pick = {f.__name__[3:]: [f] for f in ops}.get(s.focus, ops)
    for _ in range(rng.randint(1, 3)):
        rng.choice(pick)(s)
    s.mk.deallocate_state(s.id)
