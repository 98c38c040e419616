"""Operations on polygons: refinement, offset, snapping to a land boundary, triangulation."""
from mkapi import *
from scen import *

HOLE = (-998.0, -998.0)


def ring(rng, straight=False, extra=True):
    """a closed simple ring with sides of whole length"""
    k = rng.choice((1, 1, 2, 3))
    a, b = rng.randint(6, 20), rng.randint(6, 20)
    c = rng.choice("rrLtdp") if not straight else rng.choice("rrL")
    if c == "r":
        P = [(0, 0), (a, 0), (a, b), (0, b)]
    elif c == "L":
        x, y = rng.randint(2, a - 2), rng.randint(2, b - 2)
        P = [(0, 0), (a, 0), (a, y), (x, y), (x, b), (0, b)]
    elif c == "t":
        P = [(0, 0), (4 * k, 0), (0, 3 * k)] if rng.random() < 0.5 else [(0, 0), (8 * k, 0), (4 * k, 3 * k)]
        P = [(2 * x, 2 * y) for x, y in P]
    elif c == "d":
        P = [(0, 0), (4 * k, -3 * k), (8 * k, 0), (4 * k, 3 * k)]
    else:
        P = [(0, 0), (a, 0), (a + 4 * k, 3 * k), (a + 4 * k, 3 * k + b), (0, 3 * k + b)]
    # nodes along straight sides
    Q = []
    for p, q in zip(P, P[1:] + P[:1]):
        Q.append(p)
        dx, dy = q[0] - p[0], q[1] - p[1]
        if (dx == 0 or dy == 0) and extra and rng.random() < 0.4:
            m = max(abs(dx), abs(dy))
            for t in sorted(rng.sample(range(1, m), min(m - 1, rng.randint(1, 2)))):
                Q.append((p[0] + dx * t // m, p[1] + dy * t // m))
    if rng.random() < 0.4:
        Q = Q[::-1]
    i = rng.randrange(len(Q))
    Q = Q[i:] + Q[:i]
    return Q


def shift(P, dx, dy):
    return [(x + dx, y + dy) for x, y in P]


def polygons(s, straight=False, holes=False):
    rng = s.rng
    R = []
    for i in range(rng.choice((1, 1, 2, 3))):
        R.append((shift(ring(rng, straight), 60 * i + rng.randint(-9, 9), rng.randint(-9, 9)), False))
    if holes and rng.random() < 0.6:
        # a polygon with one to three holes in it, before, after or between the others
        H = [(shift([(0, 0), (40, 0), (40, 24), (0, 24)][::rng.choice((1, -1))], -80, 0), False)]
        for i in range(rng.randint(1, 3)):
            w, h = rng.randint(4, 7), rng.randint(4, 12)
            k = rng.randrange(4)
            P = [(0, 0), (w, 0), (w, h), (0, h)]
            P = (P[k:] + P[:k])[::rng.choice((1, -1))]
            H.append((shift(P, -77 + 12 * i, rng.randint(3, 8)), True))
        if rng.random() < 0.3:
            H[1:] = H[:0:-1]
        k = rng.randint(0, len(R))
        R[k:k] = H
    return R


def flat(R):
    pts = []
    for P, hole in R:
        if pts:
            pts.append(HOLE if hole else None)
        pts += P + P[:1]
    return pts


def rec(R, sc):
    return [[[sc * x, sc * y] for x, y in P] for P, _ in R]


def part(pts, f, sc):
    """rings and the separators before them"""
    out, seps, cur = [], [], []
    for p in pts:
        if p[0] in (MISSING, -998.0):
            out.append(cur)
            seps.append(1 if p[0] == -998.0 else 0)
            cur = []
        else:
            cur.append(f(p, sc))
    out.append(cur)
    return out, seps


def op_refine(s):
    rng = s.rng
    R = polygons(s)
    r = rng.randrange(len(R))
    base = sum(len(R[q][0]) + 2 for q in range(r))
    n = len(R[r][0]) + 1
    i, j = rng.randrange(n), rng.randrange(n)
    if i == j and (r > 0 or i > 0):
        j = (i + 1) % n
    if rng.random() < 0.2 and r == 0:
        i = j = 0
    d = rng.choice((4.3, 5.3, 7.1, 8.7, 11.9, 3.7))
    rc, (k,) = s.mk.polygon_count_refine(s.id, GL(flat(R)), base + i, base + j, d)
    g = GL(size=max(k, 0))
    rc2, _ = s.mk.polygon_refine(s.id, GL(flat(R)), base + i, base + j, d, g)
    s.emit("refine", rc=rc or rc2, P=rec(R, 840)[r], i=i + 1, j=j + 1, d=round(840 * d), Q=[fpt(p, 840) for p in g.pts()], ok=g.intact())


def op_linear(s):
    rng = s.rng
    P = shift(ring(rng, True), rng.randint(-9, 9), rng.randint(-9, 9))
    n = len(P) + 1
    i, j = rng.randrange(n), rng.randrange(n)
    if (i, j) in ((0, n - 1), (n - 1, 0)) or abs(i - j) < 1:
        return
    rc, (k,) = s.mk.polygon_count_linear_refine(s.id, GL(P + P[:1]), i, j)
    g = GL(size=max(k, 0))
    rc2, _ = s.mk.polygon_linear_refine(s.id, GL(P + P[:1]), i, j, g)
    s.emit("linear", rc=rc or rc2, P=[[1000 * x, 1000 * y] for x, y in P], i=i + 1, j=j + 1, Q=[fpt(p, 1000) for p in g.pts()], ok=g.intact())


def op_offset(s):
    rng = s.rng
    R = polygons(s, holes=True)
    d = rng.choice((0.5, 1.0, 1.5, -0.5, -1.0))
    both = rng.randrange(2)
    rc, (k,) = s.mk.polygon_count_offset(s.id, GL(flat(R)), both, d)
    g = GL(size=max(k, 0))
    rc2, _ = s.mk.polygon_get_offset(s.id, GL(flat(R)), both, d, g)
    Q, seps = part(g.pts(), fpt, 100)
    s.emit("offset", rc=rc or rc2, P=rec(R, 100), H=[1 if h else 0 for _, h in R][1:], d=round(100 * d), both=both, Q=Q, seps=seps, ok=g.intact())


def op_snap(s):
    rng = s.rng
    R = polygons(s)
    r = rng.randrange(len(R))
    base = sum(len(R[q][0]) + 2 for q in range(r))
    n = len(R[r][0]) + 1
    i, j = rng.randrange(n), rng.randrange(n)
    if i > j and (r > 0 or rng.random() < 0.5):
        i, j = j, i
    if i == j == 0 and r > 0:
        j = 1
    land = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        p = (rng.randint(-20, 60), rng.randint(-20, 40))
        t = [p]
        h = rng.randrange(2)
        for _ in range(rng.randint(1, 4)):
            m = rng.choice((-1, 1)) * rng.randint(3, 30)
            p = (p[0] + m, p[1]) if h else (p[0], p[1] + m)
            h = 1 - h
            t.append(p)
        land.append(t)
    L = []
    for t in land:
        L += ([None] if L else []) + t
    F = flat(R)
    g = GL(F)
    rc, _ = s.mk.polygon_snap_to_landboundary(s.id, GL(L), g, base + i, base + j)
    Q, seps = part(g.pts(), pt, 1)
    s.emit("snap", rc=rc, P=rec(R, 1), r=r + 1, i=i + 1, j=j + 1 if (i or j) else n, L=[[list(p) for p in t] for t in land], Q=Q)


def op_tri(s):
    rng = s.rng
    while True:
        P = ring(rng, extra=False)
        if len(P) <= 4:
            break
    P = shift(P, rng.randint(-9, 9), rng.randint(-9, 9))
    d = rng.choice((2.1, 2.7, 3.3))
    rc, (k,) = s.mk.polygon_count_refine(s.id, GL(P + P[:1]), 0, 0, d)
    g = GL(size=max(k, 0))
    rc2, _ = s.mk.polygon_refine(s.id, GL(P + P[:1]), 0, 0, d, g)
    ring_ = g.pts()
    rc3, _ = s.mk.mesh2d_make_triangular_mesh_from_polygon(s.id, GL(ring_))
    rc4, m = s.mk.mesh2d_full(s.id)
    sc = 840
    s.emit("tri", rc=rc or rc2 or rc3 or rc4, P=[fpt(p, sc) for p in ring_[:-1]], n=[fpt(p, sc) for p in m["nodes"]], e=[[idx(a), idx(b)] for a, b in m["edges"]], f=[[idx(i) for i in f] for f in m["faces"]])
    s.mk.mesh2d_set(s.id, s.mk.mk_mesh2d([], []))


def scenario(s):
    rng = s.rng
    s.open()
    s.emit("reset")
    ops = [op_refine, op_linear, op_offset, op_snap, op_tri]
    pick = {f.__name__[3:]: [f] for f in ops}.get(s.focus, ops)
    for _ in range(rng.randint(2, 5)):
        rng.choice(pick)(s)
    s.mk.deallocate_state(s.id)
