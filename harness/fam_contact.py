"""Contacts between a 1D mesh and a 2D mesh of equal rectangles: every way of computing them.  Everything is recorded in half units."""
import ctypes as C
from mkapi import *
from lattice import *
from scen import *

SC = 2


def whole(s):
    rc, d = s.mk.mesh2d_full(s.id)
    if rc:
        return rc, dict(n=[], e=[], f=[])
    return rc, dict(n=[pt(p, SC) for p in d["nodes"]], e=[[idx(a), idx(b)] for a, b in d["edges"]], f=[[idx(i) for i in f] for f in d["faces"]])


def make2d(s):
    rng = s.rng
    while True:
        n, e = grid_mesh(rng, rng.randint(1, 5), rng.randint(1, 5), tri=0, hole=rng.choice((0, 0, 0.2, 0.4)), fuse=0, step=1)
        if e:
            break
    w, h = rng.choice((4, 4, 8)), rng.choice((4, 4, 8))
    n = [(w * x, h * y) for x, y in n]
    n, e = shuffle(rng, n, e)
    return s.mk.mesh2d_set(s.id, s.mk.mk_mesh2d(n, e))[0]


def make1d(s, box):
    rng = s.rng
    x0, y0, x1, y1 = box
    n, e = [], []
    odd = lambda a, b: rng.randint((a - 5) // 2, (b + 5) // 2) * 2 + 1
    for part in range(rng.choice((1, 1, 1, 2))):
        first = len(n)
        k = rng.randint(2, 7)
        style = rng.random()
        p = (odd(x0, x1), odd(y0, y1))
        d = rng.choice(((2, 0), (0, 2), (4, 2), (2, -4), (4, 4), (-2, 2)))
        for i in range(k):
            if p in n:
                continue
            n.append(p)
            if len(n) - 1 > first:
                a = len(n) - 2 if rng.random() < 0.9 else rng.randint(first, len(n) - 2)
                e.append((a, len(n) - 1))
            p = (p[0] + d[0], p[1] + d[1]) if style < 0.5 else (odd(x0, x1), odd(y0, y1))
        if len(n) - first == 1:
            n.pop()
    if not e:
        return make1d(s, box)
    n, e = shuffle(rng, n, e)
    assert s.mk.mesh1d_set(s.id, s.mk.mk_mesh1d(n, e))[0] == 0
    return n, e


def ring(rng, x0, y0, x1, y1):
    """a ring with corners at half coordinates (odd in half units)"""
    o = lambda a, b: rng.randint(a - 4, b + 4) * 2 + 1
    if rng.random() < 0.6:
        a, b = sorted((o(x0, x1), o(x0, x1)))
        c, d = sorted((o(y0, y1), o(y0, y1)))
        P = [[a, c], [b + 2, c], [b + 2, d + 2], [a, d + 2]]
    else:
        for _ in range(60):
            P = [[o(x0, x1), o(y0, y1)] for _ in range(3)]
            if cross(*P):
                break
        else:
            return ring(rng, x0, y0, x1, y1)
    if rng.random() < 0.5:
        P = P[::-1]
    k = rng.randrange(len(P))
    return P[k:] + P[:k]


def gl(R):
    pts = []
    for P in R:
        if pts:
            pts.append(None)
        q = [(p[0] / 2.0, p[1] / 2.0) for p in P]
        pts += q + q[:1]
    return GL(pts)


def area(s, box):
    rng = s.rng
    if rng.random() < 0.35:
        return []
    return [ring(rng, *box)]


def scenario(s):
    rng = s.rng
    s.open()
    s.emit("reset")
    make2d(s)
    rc, M = whole(s)
    xs, ys = [p[0] // SC for p in M["n"]], [p[1] // SC for p in M["n"]]
    box = min(xs), min(ys), max(xs), max(ys)
    n, e = make1d(s, box)
    D = dict(n=[[SC * x, SC * y] for x, y in n], e=[[a + 1, b + 1] for a, b in e])
    for _ in range(rng.randint(1, 4)):
        mask = [1] * len(n) if rng.random() < 0.4 else [int(rng.random() < 0.7) for _ in n]
        mk = iarr(mask)
        how = rng.choice(("single", "multiple", "points", "polygons", "boundary"))
        P, fac, r2, pts = [], 0, -1, []
        if how == "single":
            P, fac = area(s, box), rng.choice((1, 2, 5))
            rc, _ = s.mk.contacts_compute_single(s.id, mk, gl(P), float(fac))
        elif how == "multiple":
            rc, _ = s.mk.contacts_compute_multiple(s.id, mk)
        elif how == "points":
            pts = [(rng.randint((box[0] - 4) // 2, (box[2] + 4) // 2) * 2 + 1, rng.randint((box[1] - 4) // 2, (box[3] + 4) // 2) * 2 + 1) for _ in range(rng.randint(1, 6))]
            pts = list(dict.fromkeys(pts))
            rc, _ = s.mk.contacts_compute_with_points(s.id, mk, GL(pts))
            pts = [[SC * x, SC * y] for x, y in pts]
        elif how == "polygons":
            k = rng.randint(1, 3)
            w = box[2] - box[0]
            P = [ring(rng, box[0] - 2 + (w + 4) * i // k + 5, box[1], max(box[0] - 2 + (w + 4) * (i + 1) // k - 6, box[0] - 2 + (w + 4) * i // k + 6), box[3]) for i in range(k)]
            hi = -10 ** 6
            Q = []
            for R in P:             # rings apart from one another
                if min(p[0] for p in R) > hi:
                    Q.append(R)
                    hi = max(p[0] for p in R)
            P = Q
            rng.shuffle(P)
            rc, _ = s.mk.contacts_compute_with_polygons(s.id, mk, gl(P))
        else:
            P = area(s, box)
            r = rng.choice((None, 2.25, 3.75, 6.25, 20.25))
            rc, _ = s.mk.contacts_compute_boundary(s.id, mk, gl(P), MISSING if r is None else r)
            r2 = -1 if r is None else int((SC * r) ** 2)
        rc2, c = s.mk.contacts(s.id)
        s.emit("contact", how=how, rc=rc or rc2, M=M, D=D, mask=mask, P=P, fac=fac, r2=r2, pts=pts, C=[[idx(a), idx(b)] for a, b in c])
    s.mk.deallocate_state(s.id)
