"""Measures of a 2D mesh: orthogonality, smoothness, edge lengths, obtuse triangles, small flow edges, crossings with polygons."""
from mkapi import *
from lattice import *
from scen import *

SC = 2          # polygon corners lie on half places


def tensor(rng):
    """rectangles of different widths and heights; also flat ones, which make short links between faces"""
    nx, ny = rng.randint(1, 4), rng.randint(1, 4)
    xs, ys = [rng.randint(-9, 9)], [rng.randint(-9, 9)]
    for _ in range(nx):
        xs.append(xs[-1] + rng.choice((2, 4, 8, 12)))
    for _ in range(ny):
        ys.append(ys[-1] + rng.choice((2, 4, 8, 12)))
    N = [(x, y) for y in ys for x in xs]
    at = lambda i, j: j * (nx + 1) + i
    E = [(at(i, j), at(i + 1, j)) for j in range(ny + 1) for i in range(nx)] + [(at(i, j), at(i, j + 1)) for j in range(ny) for i in range(nx + 1)]
    return shuffle(rng, N, E)


def acute(rng):
    """rows of isosceles triangles, all angles below ninety degrees"""
    nx, ny = rng.randint(2, 5), rng.randint(1, 3)
    w, h = rng.choice(((8, 6), (8, 8), (10, 7), (6, 4)))
    N, I = [], {}
    for j in range(ny + 1):
        for i in range(nx + 1):
            I[i, j] = len(N)
            N.append((i * w + (j % 2) * w // 2, j * h))
    E = []
    for j in range(ny + 1):
        for i in range(nx + 1):
            if i < nx:
                E.append((I[i, j], I[i + 1, j]))
            if j < ny:
                if j % 2:
                    E.append((I[i, j], I[i, j + 1]))
                    if i < nx:
                        E.append((I[i, j], I[i + 1, j + 1]))
                else:
                    E.append((I[i, j], I[i, j + 1]))
                    if i > 0:
                        E.append((I[i, j], I[i - 1, j + 1]))
    return shuffle(rng, N, E)


def state(s):
    rc, m = s.mk.mesh2d_full(s.id)
    s.m = m
    return dict(rc0=rc, n=[pt(p) for p in m["nodes"]], e=[[idx(a), idx(b)] for a, b in m["edges"]], f=[[idx(i) for i in f] for f in m["faces"]])


def val(v):
    return -1 if v == MISSING else fix(v, 10000) if abs(v) < 1e4 else 88888888


def op_metrics(s):
    mk, ne = s.mk, len(s.m["edges"])
    o, m, l, p = GL(size=ne), GL(size=ne), GL(size=ne), GL(size=ne)
    rc1, _ = mk.mesh2d_get_orthogonality(s.id, o)
    rc2, _ = mk.mesh2d_get_smoothness(s.id, m)
    t1 = mk.mesh2d_get_orthogonality_property_type()[1][0]
    t2 = 1      # edge lengths
    rc3, (n1,) = mk.mesh2d_get_property_dimension(s.id, t1)
    rc4, (n2,) = mk.mesh2d_get_property_dimension(s.id, t2)
    rc5, _ = mk.mesh2d_get_property(s.id, t1, p)
    rc6, _ = mk.mesh2d_get_property(s.id, t2, l)
    s.emit("metrics", rc=rc1 or rc2 or rc3 or rc4 or rc5 or rc6, kind=s.kind, o=[val(v) for v in o.vals()], m=[val(v) for v in m.vals()],
           l=[fix(v, 1000) if abs(v) < 1e4 else 88888888 for v in l.vals()], same=1 if o.vals() == p.vals() else 0, dims=[n1, n2], ok=all(g.intact() for g in (o, m, l, p)), **state(s))


def op_filter(s):
    mk, rng, ne = s.mk, s.rng, len(s.m["edges"])
    o = GL(size=ne)
    rc1, _ = mk.mesh2d_get_orthogonality(s.id, o)
    lo, hi = rng.choice(((-1000.0, 0.00005), (0.0, 1.0), (-0.5, 0.00005), (0.2, 0.9), (-1000.0, 0.3), (0.00005, 1.0), (-1000.0, 0.1), (-1000.0, 2.0)))
    t = mk.mesh2d_get_orthogonality_property_type()[1][0]
    rc2, (n,) = mk.mesh2d_get_filtered_face_polygons_dimension(s.id, t, lo, hi)
    n = n if 0 <= n < 100000 else 0
    g = GL(size=n)
    rc3, _ = mk.mesh2d_get_filtered_face_polygons(s.id, t, lo, hi, g) if n else (0, 0)
    pol, cur = [], []
    for p in g.pts():
        if p[0] == MISSING:
            pol.append(cur)
            cur = []
        else:
            cur.append(pt(p))
    if n:
        pol.append(cur)
    s.emit("filter", rc=rc1 or rc2 or rc3, inr=[1 if lo <= v <= hi else 0 for v in o.vals()], P=pol, size=n, ok=g.intact(), **state(s))


def op_obtuse(s):
    rc1, (n,) = s.mk.mesh2d_count_obtuse_triangles(s.id)
    g = GL(size=max(n, 0))
    rc2, _ = s.mk.mesh2d_get_obtuse_triangles_mass_centers(s.id, g) if n > 0 else (0, 0)
    s.emit("obtuse", rc=rc1 or rc2, C=[pt(p, 3) for p in g.pts()], ok=g.intact(), **state(s))


def op_flow(s):
    t = s.rng.choice((5, 8, 11, 15, 30))
    rc1, (n,) = s.mk.mesh2d_count_small_flow_edge_centers(s.id, t / 10)
    g = GL(size=max(n, 0))
    rc2, _ = s.mk.mesh2d_get_small_flow_edge_centers(s.id, t / 10, g) if n > 0 else (0, 0)
    s.emit("flow", rc=rc1 or rc2, t=t, C=[pt(p, 4) for p in g.pts()], ok=g.intact(), **state(s))


def op_cross(s):
    rng, N = s.rng, s.m["nodes"]
    x0, x1 = min(p[0] for p in N) - 6, max(p[0] for p in N) + 6
    y0, y1 = min(p[1] for p in N) - 6, max(p[1] for p in N) + 6
    rings = []
    for _ in range(rng.choice((1, 1, 1, 2))):
        k = rng.randint(3, 7)
        r = []
        while len(r) < k:
            p = (rng.randint(int(2 * x0), int(2 * x1)) / 2, rng.randint(int(2 * y0), int(2 * y1)) / 2)
            if p not in r:
                r.append(p)
        rings.append(r)
    G = []
    for i, r in enumerate(rings):
        G += ([None] if i else []) + r + [r[0]]
    ne, nf = len(s.m["edges"]), len(s.m["faces"])
    big = 4 * ne + 40
    en, ei, fi, fn, fe, si = (iarr([-777] * big) for _ in range(6))
    ed, sd = darr([CANARY] * big), darr([CANARY] * big)
    rc, _ = s.mk.mesh2d_intersections_from_polygon(s.id, GL(G), en, ei, ed, sd, si, fi, fn, fe)
    cut = lambda a: list(a)[:list(a).index(-777)]
    E, F = cut(ei), cut(fe)
    X = [dict(e=idx(E[i]), a=idx(en[2 * i]), b=idx(en[2 * i + 1]), t=fix(ed[i], 1000) if abs(ed[i]) < 1e5 else 88888888, g=si[i] + 1, u=fix(sd[i], 1000) if abs(sd[i]) < 1e5 else 88888888) for i in range(len(E))]
    s.emit("cross", rc=rc, R=[[[round(SC * x), round(SC * y)] for x, y in r] for r in rings], X=X, F=[[idx(fi[i]), idx(F[i])] for i in range(len(F))], per=cut(fn), **state(s))


OPS = dict(metrics=op_metrics, filter=op_filter, obtuse=op_obtuse, flow=op_flow, cross=op_cross)


def scenario(s):
    rng = s.rng
    s.open()
    s.emit("reset")
    n = e = None
    s.kind = rng.choice(("free", "free", "tensor", "acute"))
    if s.focus == "flow":
        s.kind = "tensor"
    if s.focus == "obtuse" or (s.kind == "free" and rng.random() < 0.4):
        s.kind = "free"
        n, e = shuffle(rng, *grid_mesh(rng, rng.randint(1, 4), rng.randint(1, 4), jitter=3, tri=0.8, hole=0.1, fuse=0))
    if not s.kind == "free" or not e:
        n, e = dict(free=random_mesh, tensor=tensor, acute=acute)[s.kind](rng)
    s.mk.mesh2d_set(s.id, s.mk.mk_mesh2d(n, e))
    state(s)
    for _ in range(rng.randint(2, 4)):
        k = s.focus or rng.choice(sorted(OPS))
        if k == "flow" and s.kind != "tensor":
            k = "metrics"
        OPS[k](s)
    s.mk.deallocate_state(s.id)
