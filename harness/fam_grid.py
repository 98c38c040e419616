"""Histories on a curvilinear grid: exact edits, answers about the grid, conversion to and from a mesh, local deformations."""
import math
from mkapi import *
from scen import *

STEP = 24


def raw(s):
    rc, g = s.mk.curvi(s.id)
    if rc or not g["m"] or not g["n"]:
        return None
    return [[g["nodes"][i * g["m"] + j] for j in range(g["m"])] for i in range(g["n"])]


def grid(s, rows=None):
    """rows (n) of nodes (m), integers; missing nodes empty"""
    rows = raw(s) if rows is None else rows
    return [[pt(p, s.scale) for p in r] for r in rows] if rows else []


def on_faces(g):
    return sorted({(n + i, m + j) for n, m in faces(g) for i in (0, 1) for j in (0, 1)})


def valid(g):
    return [(n, m) for n, r in enumerate(g) for m, p in enumerate(r) if p]


def emit(s, k, rc, **a):
    s.emit(k, rc=rc, g=grid(s), **a)


def make(s):
    rng = s.rng
    N, M = rng.randint(2, 6), rng.randint(2, 6)
    kind = rng.random()
    a, b = [(0, STEP), (STEP, 0)] if kind < 0.5 else [(rng.choice((-12, 0, 12)), STEP), (STEP, rng.choice((-12, 0, 12)))] if kind < 0.7 else [(STEP, 0), (0, STEP)]
    o = (rng.randint(-30, 30), rng.randint(-30, 30))
    jit = rng.choice((0, 0, 3)) if s.focus != "local" else rng.choice((0, 3, 5))
    rows = [[[o[0] + n * a[0] + m * b[0] + (rng.randint(-jit, jit) if jit else 0), o[1] + n * a[1] + m * b[1] + (rng.randint(-jit, jit) if jit else 0)] for m in range(M)] for n in range(N)]
    if rng.random() < 0.4 and s.focus != "mirror":
        for _ in range(rng.randint(1, 3)):
            rows[rng.randrange(N)][rng.randrange(M)] = []
    c = [[tuple(map(float, p)) if p else (MISSING, MISSING) for p in r] for r in rows]
    rc, _ = s.mk.curvilinear_set(s.id, s.mk.mk_curvi(c))
    emit(s, "set", rc, a=rows)


def node_at(s, g):
    return s.rng.choice(valid(g))


def near_node(s, g):
    n, m = node_at(s, g)
    p = g[n][m]
    return [p[0] + s.rng.randint(-3, 3), p[1] + s.rng.randint(-3, 3)]


def op_delnode(s, g):
    p = near_node(s, g)
    rc, _ = s.mk.curvilinear_delete_node(s.id, float(p[0]), float(p[1]))
    emit(s, "delnode", rc, p=p)


def op_move(s, g):
    n, m = node_at(s, g)
    p = [g[n][m][0] + s.rng.randint(-2, 2), g[n][m][1] + s.rng.randint(-2, 2)]
    for _ in range(20):
        q = [g[n][m][0] + s.rng.randint(-5, 5), g[n][m][1] + s.rng.randint(-5, 5)]
        if all(q != x for r in g for x in r):
            break
    rc, _ = s.mk.curvilinear_move_node(s.id, float(p[0]), float(p[1]), float(q[0]), float(q[1]))
    emit(s, "move", rc, p=p, q=q)


def faces(g):
    return [(n, m) for n in range(len(g) - 1) for m in range(len(g[0]) - 1) if g[n][m] and g[n + 1][m] and g[n][m + 1] and g[n + 1][m + 1]]


def op_insert(s, g):
    F = set(faces(g))
    cand = []
    for n in range(len(g)):
        for m in range(len(g[0])):
            for k in (0, 1):
                n2, m2 = n + (k == 0), m + (k == 1)
                if n2 >= len(g) or m2 >= len(g[0]) or not g[n][m] or not g[n2][m2]:
                    continue
                cand.append((n, m, n2, m2))
    if not cand:
        return
    n, m, n2, m2 = s.rng.choice(cand)
    p = [(g[n][m][0] + g[n2][m2][0]) // 2 + s.rng.randint(-2, 2), (g[n][m][1] + g[n2][m2][1]) // 2 + s.rng.randint(-2, 2)]
    rc, _ = s.mk.curvilinear_insert_face(s.id, float(p[0]), float(p[1]))
    emit(s, "insert", rc, p=p)


def two(s, g):
    """two points, each near a node"""
    p, q = near_node(s, g), near_node(s, g)
    return p, q, (float(p[0]), float(p[1]), float(q[0]), float(q[1]))


def op_interior(s, g):
    p, q, a = two(s, g)
    rc, _ = s.mk.curvilinear_delete_interior(s.id, *a)
    emit(s, "interior", rc, p=p, q=q)


def op_exterior(s, g):
    p, q, a = two(s, g)
    rc, _ = s.mk.curvilinear_delete_exterior(s.id, *a)
    emit(s, "exterior", rc, p=p, q=q)


def on_line(s, g, faces_only=False):
    """two different nodes on one grid line, as indices"""
    v = on_faces(g) if faces_only else valid(g)
    for _ in range(50):
        n, m = s.rng.choice(v)
        w = [x for x in v if x != (n, m) and (x[0] == n or x[1] == m)]
        if w:
            return (n, m), s.rng.choice(w)
    return v[0], v[-1]


def at(g, x):
    return [float(g[x[0]][x[1]][0]), float(g[x[0]][x[1]][1])]


def even(a, b, c):
    return not a or not b or not c or all(a[k] + c[k] == 2 * b[k] for k in (0, 1))


def affine(g):
    N, M = len(g), len(g[0])
    return all(even(g[n][m], g[n + 1][m], g[n + 2][m]) for n in range(N - 2) for m in range(M)) and \
        all(even(g[n][m], g[n][m + 1], g[n][m + 2]) for n in range(N) for m in range(M - 2)) and \
        all(g[n][m][k] + g[n + 1][m + 1][k] == g[n + 1][m][k] + g[n][m + 1][k] for n, m in faces(g) for k in (0, 1))


def divisor(s, g, among):
    """a refinement factor that keeps an affine grid on the lattice"""
    d = [abs(a[k] - b[k]) for r in g for a, b in zip(r, r[1:]) if a and b for k in (0, 1)]
    d += [abs(a[k] - b[k]) for r, q in zip(g, g[1:]) for a, b in zip(r, q) if a and b for k in (0, 1)]
    jag = not affine(g)
    ok = [f for f in among if all(x % f == 0 for x in d)]
    if not ok or jag and s.rng.random() < 0.5:
        ok = list(among) if jag else ok          # an uneven grid: only the existing nodes are judged
    return s.rng.choice(ok) if ok else 0


def op_refine(s, g):
    x, y = on_line(s, g) if s.rng.random() < 0.9 else (node_at(s, g), node_at(s, g))
    f = divisor(s, g, (2, 3, 4))
    if not f:
        return
    rc, _ = s.mk.curvilinear_refine(s.id, *at(g, x), *at(g, y), f)
    emit(s, "refine", rc, p=g[x[0]][x[1]], q=g[y[0]][y[1]], f=f)


def op_fullrefine(s, g):
    fm, fn = divisor(s, g, (1, 2, 3, 4)), divisor(s, g, (1, 2, 3, 4))
    if not fm or not fn:
        return
    rc, _ = s.mk.curvilinear_full_refine(s.id, fm, fn)
    emit(s, "fullrefine", rc, fm=fm, fn=fn)


def op_derefine(s, g):
    p, q, a = two(s, g)
    rc, _ = s.mk.curvilinear_derefine(s.id, *a)
    emit(s, "derefine", rc, p=p, q=q)


def op_mirror(s, g):
    """along a side of a grid without missing nodes"""
    if any(not p for r in g for p in r):
        return
    N, M = len(g), len(g[0])
    side = s.rng.randrange(4)
    if side < 2:
        n = 0 if side == 0 else N - 1
        i, j = s.rng.sample(range(M), 2)
        x, y = (n, i), (n, j)
    else:
        m = 0 if side == 2 else M - 1
        i, j = s.rng.sample(range(N), 2)
        x, y = (i, m), (j, m)
    f = s.rng.choice((1, 2, 3))
    rc, _ = s.mk.curvilinear_line_mirror(s.id, float(f), *at(g, x), *at(g, y))
    emit(s, "mirror", rc, p=g[x[0]][x[1]], q=g[y[0]][y[1]], f=f)


def op_undo(s, g):
    rc, (d, i) = s.mk.undo_state()
    emit(s, "take", rc)


def op_redo(s, g):
    rc, (d, i) = s.mk.redo_state()
    emit(s, "take", rc)


# ------------------------------------------------------------------------------------------------ answers
def q_where(s, g):
    rng = s.rng
    xs = [p[0] for r in g for p in r if p]
    ys = [p[1] for r in g for p in r if p]
    p = [rng.randint(2 * min(xs) - 20, 2 * max(xs) + 20), rng.randint(2 * min(ys) - 20, 2 * max(ys) + 20)]
    out = []
    for t, name in ((1, "node"), (2, "edge"), (0, "face")):
        if s.steady or rng.random() < 0.6:
            bb = [-4000, -4000, 4000, 4000]
        else:
            x0, x1 = sorted(rng.sample(range(2 * min(xs) - 9, 2 * max(xs) + 10), 2))
            y0, y1 = sorted(rng.sample(range(2 * min(ys) - 9, 2 * max(ys) + 10), 2))
            bb = [x0, y0, x1, y1]
        b = BoundingBox() if s.steady else BoundingBox(xLowerLeft=bb[0] / 2.0, yLowerLeft=bb[1] / 2.0, xUpperRight=bb[2] / 2.0, yUpperRight=bb[3] / 2.0)
        rc, (i,) = s.mk.curvilinear_get_location_index(s.id, p[0] / 2.0, p[1] / 2.0, t, b)
        out.append([rc, idx(i), name, bb])
    emit(s, "where", 0, p=p, out=out)


def q_bound(s, g):
    rng = s.rng
    N, M = len(g), len(g[0])
    n1, n2 = rng.randrange(N), rng.randrange(N)
    m1, m2 = rng.randrange(M), rng.randrange(M)
    if rng.random() < 0.5:
        n1, m1, n2, m2 = 0, 0, N - 1, M - 1
    rc, (k,) = s.mk.curvilinear_count_boundaries_as_polygons(s.id, n1, m1, n2, m2)
    P = []
    if rc == 0 and k > 0:
        gl = GL(size=k)
        rc, _ = s.mk.curvilinear_get_boundaries_as_polygons(s.id, n1, m1, n2, m2, gl)
        cur = []
        for p in gl.pts():
            if p[0] == MISSING:
                P.append(cur)
                cur = []
            else:
                cur.append(pt(p))
        P.append(cur)
    emit(s, "bound", rc, lo=[min(n1, n2) + 1, min(m1, m2) + 1], hi=[max(n1, n2) + 1, max(m1, m2) + 1], P=P)


def segs(s):
    rc, n, e = s.mk.raw_mesh2d(s.id)
    v = [i for i, p in enumerate(n) if p[0] != MISSING]
    return dict(n=[pt(p) for p in n], e=[[a + 1, b + 1] if 0 <= a < len(n) and 0 <= b < len(n) else [] for a, b in e])


def turn(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def convex_quads(M):
    """strictly convex cycles of four edges, without a diagonal and with no other node inside: counter-clockwise node numbers"""
    P = M["n"]
    nb = {}
    for x in M["e"]:
        if x:
            nb.setdefault(x[0], set()).add(x[1])
            nb.setdefault(x[1], set()).add(x[0])
    res = []
    for a in nb:
        for b in nb[a]:
            for c in nb[b]:
                if c == a or c in nb[a]:
                    continue
                for d in nb[c] & nb[a]:
                    q = (a, b, c, d)
                    if a != min(q) or b == d or d in nb[b]:
                        continue
                    X = [P[i - 1] for i in q]
                    if all(turn(X[i], X[(i + 1) % 4], X[(i + 2) % 4]) > 0 for i in range(4)) and \
                       not any(j not in q and all(turn(X[i], X[(i + 1) % 4], P[j - 1]) >= 0 for i in range(4)) for j in nb):
                        res.append(q)
    return res


def irregular(s):
    """the mesh loses its regularity: nodes merged or taken out, edges added or taken out; then back to a grid from one of the cells left"""
    rng, mk = s.rng, s.mk
    for _ in range(rng.randint(1, 3)):
        mk.mesh2d_dims(s.id)                    # connectivity is brought up to date by administration only
        M = segs(s)
        Q = convex_quads(M)
        if len(Q) < 2:
            break
        c = rng.choice(Q)
        k = rng.randrange(4)
        op = rng.choice(("collapse", "collapse", "collapse", "shrink", "diag", "edge", "node"))
        if op == "collapse":                    # opposite corners become one: a cell less, nodes of three and more than four edges
            mk.mesh2d_merge_two_nodes(s.id, c[k] - 1, c[(k + 2) % 4] - 1)
        elif op == "shrink":
            mk.mesh2d_merge_two_nodes(s.id, c[k] - 1, c[(k + 1) % 4] - 1)
        elif op == "diag":
            mk.mesh2d_insert_edge(s.id, c[k] - 1, c[(k + 2) % 4] - 1)
        elif op == "edge":
            a, b = M["n"][c[k] - 1], M["n"][c[(k + 1) % 4] - 1]
            mk.mesh2d_delete_edge(s.id, (a[0] + b[0]) / 2.0, (a[1] + b[1]) / 2.0, -1e6, -1e6, 1e6, 1e6)
        else:
            mk.mesh2d_delete_node(s.id, c[k] - 1)
    mk.mesh2d_dims(s.id)
    M = segs(s)
    Q = convex_quads(M)
    if not Q:
        return
    c = [M["n"][i - 1] for i in rng.choice(Q)]
    rc, _ = mk.mesh2d_convert_to_curvilinear(s.id, sum(p[0] for p in c) / 4.0, sum(p[1] for p in c) / 4.0)
    emit(s, "irregular", rc, f=c, m=M, after=segs(s))


def op_convert(s, g):
    """to a mesh, and possibly back from it"""
    rng = s.rng
    was = segs(s)
    rc, _ = s.mk.curvilinear_convert_to_mesh2d(s.id)
    emit(s, "tomesh", rc, was=was, m=segs(s))
    if rc:
        return
    if rng.random() < 0.3:
        rc, (d, i) = s.mk.undo_state()
        emit(s, "take", rc)
        return
    F = faces(g)
    if F and not was["n"] and rng.random() < 0.5:
        return irregular(s)
    if F and not was["n"]:
        n, m = rng.choice(F)
        c = [g[n][m], g[n + 1][m], g[n][m + 1], g[n + 1][m + 1]]
        p = [sum(x[0] for x in c) / 4.0, sum(x[1] for x in c) / 4.0]
        rc, _ = s.mk.mesh2d_convert_to_curvilinear(s.id, p[0], p[1])
        emit(s, "fromMesh", rc, f=[n + 1, m + 1], m=segs(s))


# ------------------------------------------------------------------------------------------------ local deformations
def line(s, g):
    for _ in range(60):
        x, y = on_line(s, g, True)
        lo, hi = (min(x[0], y[0]), min(x[1], y[1])), (max(x[0], y[0]), max(x[1], y[1]))
        if all(g[n][m] for n in range(lo[0], hi[0] + 1) for m in range(lo[1], hi[1] + 1)):
            return lo, hi
    return None


def local(s, g):
    """one deformation; records which nodes changed at all"""
    rng, mk = s.rng, s.mk
    before = raw(s)
    v = on_faces(g)
    x, y = rng.choice(v), rng.choice(v)
    lo, hi = [min(x[0], y[0]), min(x[1], y[1])], [max(x[0], y[0]), max(x[1], y[1])]
    # the block is given by two nodes, which have to exist
    blk = at(g, x) + at(g, y)
    op = rng.choice(("smooth", "smoothdir", "attract", "shift", "ortho", "snapland", "snapspline"))
    L = None
    extra = []
    crook = 0
    if op == "smooth":
        rc, _ = mk.curvilinear_smoothing(s.id, rng.randint(1, 8), *blk)
    else:
        ln = line(s, g)
        if ln is None:
            return
        L = [list(ln[0]), list(ln[1])]
        a, b = (ln[0], ln[1]) if rng.random() < 0.5 else (ln[1], ln[0])
        lp = at(g, a) + at(g, b)
        slant = [] if rng.random() < 0.85 else [(p, q) for p in v for q in v if p[0] != q[0] and p[1] != q[1]]
        if slant:
            # two nodes on no common grid line make no line; also not a second one beside a proper one
            crook = 1
            p, q = rng.choice(slant)
            sl = at(g, p) + at(g, q)
            op = rng.choice(("smoothdir", "attract", "shift", "ortho"))
            if op == "smoothdir":
                rc, _ = mk.curvilinear_smoothing_directional(s.id, 1, *sl, *blk)
            elif op == "attract":
                rc, _ = mk.curvilinear_line_attraction_repulsion(s.id, 0.3, *sl, *blk)
            elif op == "shift":
                rc, _ = mk.curvilinear_initialize_line_shift(s.id)
                rc = rc or mk.curvilinear_set_line_line_shift(s.id, *sl)[0]
                mk.curvilinear_finalize_line_shift(s.id)
            else:
                rc, _ = mk.curvilinear_initialize_orthogonalize(s.id, OrthogonalizationParameters())
                rc = rc or mk.curvilinear_set_block_orthogonalize(s.id, *blk)[0]
                if rng.random() < 0.5:
                    rc = rc or mk.curvilinear_set_frozen_lines_orthogonalize(s.id, *lp)[0]
                rc = rc or mk.curvilinear_set_frozen_lines_orthogonalize(s.id, *sl)[0]
                mk.curvilinear_finalize_orthogonalize(s.id)
            L = None
        elif op == "smoothdir":
            rc, _ = mk.curvilinear_smoothing_directional(s.id, rng.randint(1, 8), *lp, *blk)
        elif op == "attract":
            rc, _ = mk.curvilinear_line_attraction_repulsion(s.id, rng.choice((-0.5, -0.2, 0.3, 0.5)), *lp, *blk)
        elif op == "shift":
            if any(not p for r in g for p in r):
                return
            rc, _ = mk.curvilinear_initialize_line_shift(s.id)
            rc = rc or mk.curvilinear_set_line_line_shift(s.id, *lp)[0]
            rc = rc or mk.curvilinear_set_block_line_shift(s.id, *blk)[0]
            if rc == 0:
                n, m = rng.choice([(n, m) for n in range(ln[0][0], ln[1][0] + 1) for m in range(ln[0][1], ln[1][1] + 1)])
                p = g[n][m]
                q = [p[0] + rng.randint(-5, 5), p[1] + rng.randint(-5, 5)]
                rc, _ = mk.curvilinear_move_node_line_shift(s.id, float(p[0]), float(p[1]), float(q[0]), float(q[1]))
                rc = rc or mk.curvilinear_line_shift(s.id)[0]
                mk.curvilinear_finalize_line_shift(s.id)
                extra = [n + 1, m + 1] + q
        elif op == "ortho":
            par = OrthogonalizationParameters(outer_iterations=rng.randint(1, 2), boundary_iterations=rng.randint(1, 5))
            rc, _ = mk.curvilinear_initialize_orthogonalize(s.id, par)
            rc = rc or mk.curvilinear_set_block_orthogonalize(s.id, *blk)[0]
            if rng.random() < 0.6:
                rc = rc or mk.curvilinear_set_frozen_lines_orthogonalize(s.id, *lp)[0]
            else:
                L = None
            rc = rc or mk.curvilinear_orthogonalize(s.id)[0]
            mk.curvilinear_finalize_orthogonalize(s.id)
        else:
            ys = [p[1] for r in g for p in r if p]
            xs = [p[0] for r in g for p in r if p]
            pts = [(float(xx), float(rng.randint(min(ys) - 10, max(ys) + 10))) for xx in sorted(rng.sample(range(min(xs) - 20, max(xs) + 20), 4))]
            z = rng.choice(v)
            f = mk.curvilinear_snap_to_landboundary if op == "snapland" else mk.curvilinear_snap_to_spline
            if rng.random() < 0.7:
                rc, _ = f(s.id, GL(pts), *lp, *at(g, z))
                lo, hi = [min(ln[0][0], z[0]), min(ln[0][1], z[1])], [max(ln[1][0], z[0]), max(ln[1][1], z[1])]
            else:
                return
    after = raw(s)
    same = after is not None and len(after) == len(before) and len(after[0]) == len(before[0])
    moved = [[n + 1, m + 1] for n in range(len(before)) for m in range(len(before[0])) if after[n][m] != before[n][m]] if same else []
    gone = [[n + 1, m + 1] for n in range(len(before)) for m in range(len(before[0])) if (after[n][m][0] == MISSING) != (before[n][m][0] == MISSING)] if same else []
    born = [[n + 1, m + 1] for n in range(len(before)) for m in range(len(before[0])) if before[n][m][0] == MISSING != after[n][m][0]] if same else []
    nan = 1 if same and any(c != c or abs(c) > 1e6 for r in after for p in r for c in p) else 0
    one = lambda q: [q[0] + 1, q[1] + 1]
    at4 = [fpt(after[extra[0] - 1][extra[1] - 1], 1000)] if extra and rc == 0 else []
    s.emit("local", rc=rc, op=op, lo=one(lo), hi=one(hi), L=[one(q) for q in L] if L else [], dims=1 if same else 0, moved=moved, gone=gone, born=born, crook=crook, nan=nan, extra=extra, at=at4)
    if rng.random() < 0.5:
        mk.undo_state()
        back = raw(s)
        if grid(s, back) == g:
            return True
    return False


EDIT = [op_delnode, op_delnode, op_move, op_insert, op_insert, op_insert, op_interior, op_exterior, op_refine, op_derefine, op_mirror, op_mirror, op_undo, op_redo, op_fullrefine]


def on_lattice(g):
    return all(not p or max(abs(p[0]), abs(p[1])) < 4000 for r in g for p in r)


def scenario(s):
    rng = s.rng
    s.open()
    s.emit("reset")
    s.steady = rng.random() < 0.6          # the same region in every lookup: search trees live on
    make(s)
    for _ in range(rng.randint(2, 7)):
        g = grid(s)
        if not g or not on_lattice(g) or len(faces(g)) < 1 or len(g) > 14 or len(g[0]) > 14:
            make(s)
            g = grid(s)
            if not faces(g):
                continue
        if s.focus == "local":
            if not local(s, g):
                make(s)
            continue
        if s.focus == "answer" and rng.random() < (0.5 if s.steady else 0.7) or rng.random() < 0.3:
            rng.choice((q_where, q_where, q_bound, q_where if s.steady else op_convert))(s, g)
            if not raw(s):
                make(s)
            continue
        rng.choice(EDIT)(s, g)
    s.mk.deallocate_state(s.id)


def replay(s, sched):
    """a behaviour of GridMC.tla, step by step; questions in between"""
    rng, mk = s.rng, s.mk
    s.open()
    s.emit("reset")
    s.steady = rng.random() < 0.6          # the same region in every lookup: search trees live on
    for op, a, b, c, d, f in sched:
        if op == "set":
            rows = [[[24 * n, 24 * m] for m in range(1, b + 1)] for n in range(1, a + 1)]
            rc, _ = mk.curvilinear_set(s.id, mk.mk_curvi([[tuple(map(float, p)) for p in r] for r in rows]))
            emit(s, "set", rc, a=rows)
            continue
        g = grid(s)
        at_ = lambda n, m: g[n - 1][m - 1] if 0 < n <= len(g) and 0 < m <= len(g[0]) else []
        p, q = at_(a, b), at_(c, d)
        xy = lambda *ps: [float(v) for w in ps for v in w]
        if op == "undo":
            op_undo(s, g)
        elif op == "redo":
            op_redo(s, g)
        elif op == "delnode" and p:
            emit(s, op, mk.curvilinear_delete_node(s.id, *xy(p))[0], p=p)
        elif op == "insert" and p and q:
            r = [(p[0] + q[0]) // 2, (p[1] + q[1]) // 2]
            emit(s, op, mk.curvilinear_insert_face(s.id, *xy(r))[0], p=r)
        elif op == "mirror" and p and q and all(x for r in g for x in r) and (a == c and a in (1, len(g)) or b == d and b in (1, len(g[0]))):
            emit(s, op, mk.curvilinear_line_mirror(s.id, float(f), *xy(p, q))[0], p=p, q=q, f=f)
        elif op == "interior" and p and q:
            emit(s, op, mk.curvilinear_delete_interior(s.id, *xy(p, q))[0], p=p, q=q)
        elif op == "exterior" and p and q:
            emit(s, op, mk.curvilinear_delete_exterior(s.id, *xy(p, q))[0], p=p, q=q)
        elif op == "derefine" and p and q:
            emit(s, op, mk.curvilinear_derefine(s.id, *xy(p, q))[0], p=p, q=q)
        g = grid(s)
        if g and faces(g) and on_lattice(g) and rng.random() < (0.6 if s.focus == "answer" else 0.2):
            rng.choice((q_where, q_bound))(s, g)
    mk.deallocate_state(s.id)
