"""Interpolation of samples to nodes, edges and faces of a mesh."""
from mkapi import *
from lattice import *
from scen import *


def mesh(s):
    """a rectangular mesh of nx by ny equal cells, numbered at random"""
    rng = s.rng
    nx, ny = rng.randint(1, 4), rng.randint(1, 4)
    w, h = rng.choice((4, 6, 8)), rng.choice((4, 6, 8))
    ox, oy = rng.randint(-5, 5), rng.randint(-5, 5)
    N = [(ox + w * i, oy + h * j) for j in range(ny + 1) for i in range(nx + 1)]
    at = lambda i, j: j * (nx + 1) + i
    E = [(at(i, j), at(i + 1, j)) for j in range(ny + 1) for i in range(nx)] + [(at(i, j), at(i, j + 1)) for j in range(ny) for i in range(nx + 1)]
    N, E = shuffle(rng, N, E)
    rc, _ = s.mk.mesh2d_set(s.id, s.mk.mk_mesh2d(N, E))
    s.box = (ox, oy, ox + nx * w, oy + ny * h)
    s.w, s.h = w, h


def free(s):
    """an irregular mesh: jittered, stretched or sheared, triangles and quadrilaterals mixed; values at faces are judged on it"""
    rng = s.rng
    n, e = grid_mesh(rng, rng.randint(1, 3), rng.randint(1, 3), jitter=rng.choice((0, 1, 2)), tri=rng.choice((0, 0.5, 1)), hole=rng.choice((0, 0.2)), fuse=rng.choice((0, 0.15)))
    a, b, c = rng.choice(((1, 0, 1), (3, 0, 1), (1, 0, 2), (1, 2, 1), (2, -1, 1), (3, 2, 1)))
    n = [(a * x + b * y, c * y) for x, y in n]
    if not e:
        return False
    n, e = shuffle(rng, n, e)
    rc, _ = s.mk.mesh2d_set(s.id, s.mk.mk_mesh2d(n, e))
    s.box = (min(p[0] for p in n), min(p[1] for p in n), max(p[0] for p in n), max(p[1] for p in n))
    s.w = s.h = 0
    return True


def samples(s, k, odd):
    rng = s.rng
    x0, y0, x1, y1 = s.box
    out = {}
    for _ in range(k):
        x, y = rng.randint(x0 - 4, x1 + 4), rng.randint(y0 - 4, y1 + 4)
        if odd:
            # off every line through nodes, and half way between them
            x, y = x + 0.5, y + 0.5
        out[(x, y)] = rng.randint(-50, 50)
    return [(x, y, v) for (x, y), v in out.items()]


LOC = ["faces", "nodes", "edges"]


def observe(s, rc, call, loc, S, **a):
    rc2, m = s.mk.mesh2d_full(s.id)
    n = len({"faces": m["faces"], "nodes": m["nodes"], "edges": m["edges"]}[LOC[loc]])
    g = GL(size=n)
    rc3, _ = call(g)
    val = lambda v: 999999 if v == MISSING else fix(v, 100) if abs(v) < 1e6 else 888888
    s.emit(a.pop("k"), rc=rc or rc2 or rc3, n=[pt(p, 4) for p in m["nodes"]], e=[[idx(x), idx(y)] for x, y in m["edges"]], f=[[idx(i) for i in f] for f in m["faces"]], w=4 * s.w, h=4 * s.h,
           free=s.free, loc=LOC[loc], S=[[4 * x, 4 * y, v] for x, y, v in S], at=[(fpt if s.free else pt)(p, 4) for p in g.pts()], v=[val(v) for v in g.vals()], ok=g.intact(), **a)


def types(s):
    return [s.mk.get_faces_location_type()[1][0], s.mk.get_nodes_location_type()[1][0], s.mk.get_edges_location_type()[1][0]]


METHODS = ["simple_averaging", "closest_point", "max", "min", "inverse_distance_weighting", "min_absolute_value"]


def op_average(s):
    rng = s.rng
    S = samples(s, rng.choice((3, 10, 30, 50)), True)
    if rng.random() < 0.2:
        S.append((s.box[0] + 0.5, s.box[1] + 1.5, MISSING))
    loc = 0 if s.free else rng.randrange(3)
    m = rng.choice(METHODS)
    rc, (code,) = getattr(s.mk, "get_averaging_method_" + m)()
    few = rng.choice((1, 1, 2, 3))
    r = rng.choice((1.0, 1.0, 1.0, 1.5))
    t = types(s)[loc]
    T = [x for x in S if x[2] != MISSING]
    observe(s, rc, lambda g: s.mk.mesh2d_averaging_interpolation(s.id, GL(S), t, code, r, few, g), loc, T, k="average", how=m, few=few, r=round(r * 10))


def op_triangulate(s):
    rng = s.rng
    S = samples(s, rng.randint(4, 9), False)
    if len(S) < 3 or all(cross(S[0], S[1], p) == 0 for p in S):
        return
    if rng.random() < 0.3:
        a, b, c = rng.randint(-3, 3), rng.randint(-3, 3), rng.randint(-9, 9)
        S = [(x, y, a * x + b * y + c) for x, y, _ in S]
    loc = rng.randrange(3)
    t = types(s)[loc]
    observe(s, 0, lambda g: s.mk.mesh2d_triangulation_interpolation(s.id, GL(S), t, g), loc, S, k="triangulate")


def scenario(s):
    rng = s.rng
    s.open()
    s.emit("reset")
    s.free = 1 if s.focus != "triangulate" and rng.random() < 0.3 and free(s) else 0
    if not s.free:
        mesh(s)
    for _ in range(rng.randint(1, 3)):
        ops = (op_average,) if s.free else (op_average, op_triangulate)
        {"average": op_average, "triangulate": op_triangulate}.get(s.focus, rng.choice(ops))(s)
    s.mk.deallocate_state(s.id)
