"""Histories of elementary edits of the 2D mesh, with connectivity, selection and lookup queries in between."""
import ctypes as C
import sys
from mkapi import *
from lattice import *
from scen import *

FSC = 64


def ev(s, k, call, **a):
    rc, out = call
    s.emit(k, rc=rc, m=s.mesh(), **a)
    return rc, out


def setm(s, n, e):
    mk = s.mk
    m = mk.mk_mesh2d(n, e)
    rc, _ = mk.mesh2d_set(s.id, m)
    s.emit("set", rc=rc, a=dict(n=[[int(x), int(y)] for x, y in n], e=[[a + 1, b + 1] for a, b in e]), m=s.mesh())


def adm(s):
    rc, _ = s.mk.mesh2d_dims(s.id)
    s.emit("adm", rc=rc, m=s.mesh())


def valid_nodes(m):
    return [i for i, p in enumerate(m["n"]) if p]


def valid_edges(m):
    return [i for i, p in enumerate(m["e"]) if p]


def free_point(s, m):
    rng = s.rng
    for _ in range(30):
        p = [rng.randint(-8, 48), rng.randint(-8, 48)]
        if p not in m["n"]:
            return p
    return [101, 101]


def op_node(s):
    m = s.mesh()
    p = free_point(s, m)
    rc, (i,) = s.mk.mesh2d_insert_node(s.id, float(p[0]), float(p[1]))
    s.emit("node", rc=rc, p=p, out=idx(i), m=s.mesh())
    if s.rng.random() < 0.8 and rc == 0:
        for _ in range(s.rng.randint(1, 3)):
            op_edge(s, i)


def op_edge(s, a=None):
    m = s.mesh()
    v = valid_nodes(m)
    if len(v) < 2:
        return
    a = s.rng.choice(v) if a is None else a
    b = s.rng.choice([i for i in v if i != a])
    rc, (e,) = s.mk.mesh2d_insert_edge(s.id, a, b)
    s.emit("edge", rc=rc, a=a + 1, b=b + 1, out=idx(e), m=s.mesh())
    adm_soon(s)


def adm_soon(s):
    # connectivity is only brought up to date by administration: ask for it before anything relies on it
    adm(s)


def op_edgexy(s):
    m = s.mesh()
    v = valid_nodes(m)

    def end():
        return m["n"][s.rng.choice(v)] if v and s.rng.random() < 0.5 else free_point(s, m)
    p, q = end(), end()
    if p == q:
        return
    rc, (i, j, e) = s.mk.mesh2d_insert_edge_from_coordinates(s.id, float(p[0]), float(p[1]), float(q[0]), float(q[1]))
    s.emit("edgexy", rc=rc, p=p, q=q, out=[idx(i), idx(j), idx(e)], m=s.mesh())
    adm_soon(s)


def op_delnode(s):
    adm(s)
    v = valid_nodes(s.mesh())
    if v:
        i = s.rng.choice(v)
        ev(s, "delnode", s.mk.mesh2d_delete_node(s.id, i), a=i + 1)


def op_deledge(s):
    v = valid_edges(s.mesh())
    if v:
        i = s.rng.choice(v)
        ev(s, "deledge", s.mk.mesh2d_delete_edge_by_index(s.id, i), a=i + 1)


def op_deledgexy(s):
    adm(s)
    m = s.mesh()
    v = valid_edges(m)
    if v:
        p = [s.rng.randint(-8, 48), s.rng.randint(-8, 48)]
        ev(s, "deledgexy", s.mk.mesh2d_delete_edge(s.id, float(p[0]), float(p[1]), -1e6, -1e6, 1e6, 1e6), p=p)


def op_merge2(s):
    adm(s)
    m = s.mesh()
    v = valid_nodes(m)
    if len(v) >= 2:
        if s.rng.random() < 0.5:
            e = [x for x in m["e"] if x]
            a, b = [i - 1 for i in s.rng.choice(e)]
            if s.rng.random() < 0.5:
                a, b = b, a
        else:
            a, b = s.rng.choice(v), s.rng.choice(v)
        ev(s, "merge2", s.mk.mesh2d_merge_two_nodes(s.id, a, b), a=a + 1, b=b + 1)


def op_hang(s):
    adm(s)
    mk = s.mk
    rc, (n,) = mk.mesh2d_count_hanging_edges(s.id)
    a = iarr([-777] * (n + 1))
    if n:
        rc, _ = mk.mesh2d_get_hanging_edges(s.id, a)
    s.emit("hanging", rc=rc, out=[idx(a[i]) for i in range(n)], tail=1 if a[n] == -777 else 0, m=s.mesh())
    if s.rng.random() < 0.5:
        ev(s, "delhang", mk.mesh2d_delete_hanging_edges(s.id))


def op_translate(s):
    d = [s.rng.randint(-20, 20), s.rng.randint(-20, 20)]
    ev(s, "translate", s.mk.mesh2d_translate(s.id, float(d[0]), float(d[1])), d=d)


def op_turn(s):
    q = s.rng.randint(0, 3)
    c = [s.rng.randint(-8, 24), s.rng.randint(-8, 24)]
    ev(s, "turn", s.mk.mesh2d_rotate(s.id, float(c[0]), float(c[1]), 90.0 * (q if s.rng.random() < 0.7 else q - 4)), c=c, q=q)


def op_add(s):
    adm(s)
    n, e = grid_mesh(s.rng, s.rng.randint(1, 2), s.rng.randint(1, 2), ox=-40, oy=-40, tri=0.4)
    n, e = shuffle(s.rng, n, e)
    if not e:
        return
    m = s.mk.mk_mesh2d(n, e)
    rc, _ = s.mk.mesh2d_add(s.id, m)
    s.emit("add", rc=rc, a=dict(n=[list(p) for p in n], e=[[a + 1, b + 1] for a, b in e]), m=s.mesh())


def op_set(s):
    n, e = random_mesh(s.rng)
    setm(s, n, e)


def op_setfaces(s):
    """a mesh given with its faces, in any order and from any corner on; read back as it is"""
    rng = s.rng
    n, e = random_mesh(rng)
    setm(s, n, e)
    rc, dims = s.mk.mesh2d_dims(s.id)
    rc, d = s.mk.mesh2d_full(s.id)
    if rc or not d["faces"]:
        return
    F = []
    for f in d["faces"]:
        k = rng.randrange(len(f))
        F.append(f[k:] + f[:k])
    rng.shuffle(F)
    rc, _ = s.mk.mesh2d_set(s.id, s.mk.mk_mesh2d(n, e, F))
    s.emit("set", rc=rc, a=dict(n=[[int(x), int(y)] for x, y in n], e=[[a + 1, b + 1] for a, b in e]), m=s.mesh())
    get(s, dims)


def op_undo(s):
    rc, (d, i) = s.mk.undo_state()
    # the content is judged by the session properties; here the mesh is only taken over
    s.emit("take", rc=rc, m=s.mesh())
    adm(s)


def op_redo(s):
    rc, (d, i) = s.mk.redo_state()
    m = s.mesh()
    s.emit("take", rc=rc, m=m if not off(m) else {"n": [], "e": []})
    if off(m):
        op_undo(s)
    else:
        adm(s)


def op_other(s, land=False):
    """an operation judged elsewhere: the mesh is taken over when it stays on the lattice, and the operation undone otherwise"""
    rng, mk, i = s.rng, s.mk, s.id
    adm(s)
    m = s.mesh()
    c = rng.choice(("flip", "merge", "refine", "tri") + (("land",) * 4 if land else ()))
    if c == "land":
        xs, ys = [m["n"][k][0] for k in valid_nodes(m)], [m["n"][k][1] for k in valid_nodes(m)]
        if not xs:
            return
        x, y = rng.choice((min(xs) - 2, max(xs) + 2, rng.choice(xs) + 1)), rng.choice((min(ys) - 2, max(ys) + 2, rng.choice(ys) + 1))
        L = [(float(x), min(ys) - 40.0), (float(x), max(ys) + 40.0)] if rng.random() < 0.5 else [(min(xs) - 40.0, float(y)), (max(xs) + 40.0, float(y))]
        rc, _ = mk.mesh2d_snap_to_landboundary(i, GL([]), GL(L))
    elif c == "flip":
        rc, _ = mk.mesh2d_flip_edges(i, 0, 0, GL([]), GL([]))
    elif c == "tri":
        rc, _ = mk.mesh2d_flip_edges(i, 1, 0, GL([]), GL([]))
    elif c == "merge":
        rc, _ = mk.mesh2d_merge_nodes(i, GL([]))
    else:
        x, y = rng.randint(0, 20) + 0.5, rng.randint(0, 20) + 0.5
        rc, _ = mk.mesh2d_refine_based_on_polygon(i, GL([(x, y), (x + 12, y), (x + 12, y + 12), (x, y + 12), (x, y)]), MeshRefinementParameters(max_num_refinement_iterations=1, min_edge_size=1.0, connect_hanging_nodes=1, smoothing_iterations=0))
    m = s.mesh()
    s.emit("take", rc=rc, m=m if not off(m) else {"n": [], "e": []})
    if off(m) or len(m["n"]) > 70:
        op_undo(s)
        if off(s.mesh()) or not valid_edges(s.mesh()):
            setm(s, *random_mesh(rng))
    else:
        adm(s)


def op_land(s):
    op_other(s, land=True)


def off(m):
    """off the lattice, or with nodes at the same place (distances are then measured in edges of no length)"""
    P = [tuple(p) for p in m["n"] if p]
    return any(abs(c) > 60000000 for p in P for c in p) or len(set(P)) < len(P)


def op_movenode(s):
    """last: leaves the lattice"""
    m = s.mesh()
    v = valid_nodes(m)
    if not v:
        return
    i = s.rng.choice(v)
    p = [m["n"][i][0] + s.rng.randint(-12, 12), m["n"][i][1] + s.rng.randint(-12, 12)]
    if p == m["n"][i]:
        return
    rc, _ = s.mk.mesh2d_move_node(s.id, float(p[0]), float(p[1]), i)
    r2, n, e = s.mk.raw_mesh2d(s.id)
    s.emit("move", rc=rc, a=i + 1, p=p, f=[fpt(q, FSC) for q in n], e=[[a + 1, b + 1] if a >= 0 and b >= 0 and a < len(n) and b < len(n) else [] for a, b in e], sc=FSC)
    return True


def op_shift(s):
    """a node moved by less than the distance to any other one: it alone moves"""
    m = s.mesh()
    v = valid_nodes(m)
    if not v:
        return
    i = s.rng.choice(v)
    a = m["n"][i]
    r2 = min([(a[0] - m["n"][j][0]) ** 2 + (a[1] - m["n"][j][1]) ** 2 for j in v if j != i] + [400])
    for _ in range(20):
        d = (s.rng.randint(-20, 20), s.rng.randint(-20, 20))
        p = [a[0] + d[0], a[1] + d[1]]
        if 0 < d[0] ** 2 + d[1] ** 2 <= r2 and p not in m["n"]:
            ev(s, "shift", s.mk.mesh2d_move_node(s.id, float(p[0]), float(p[1]), i), a=i + 1, p=p)
            return


# ------------------------------------------------------------------------------------------------ queries
def q_get(s):
    adm(s)
    get(s)


def get(s, dims=None):
    rc, d = s.mk.mesh2d_full(s.id, dims)
    if rc:
        s.emit("get", rc=rc, m=s.mesh())
        return
    s.emit("get", rc=0, m=s.mesh(), N=[pt(p) for p in d["nodes"]], E=[[idx(a), idx(b)] for a, b in d["edges"]],
           F=[[idx(i) for i in f] for f in d["faces"]], FE=[[idx(i) for i in f] for f in d["face_edges"]],
           EF=[[idx(i) for i in f] for f in d["edge_faces"]], EX=[pt(p, 2) for p in d["edge_xy"]], FX=[fpt(p, 64) for p in d["face_xy"]],
           c=[d["num_valid_nodes"], d["num_valid_edges"], d["num_face_nodes"]])


def polygons(g, n):
    """splits a geometry list answer at its separators"""
    out, cur = [], []
    for i in range(n):
        if g.x[i] in (MISSING, -998.0):
            out.append(cur)
            cur = []
        else:
            cur.append(pt((g.x[i], g.y[i])))
    out.append(cur)
    return out


def q_boundary(s):
    adm(s)
    mk = s.mk
    rc, (n,) = mk.mesh2d_count_mesh_boundaries_as_polygons(s.id)
    if rc or n < 0:
        s.emit("bound", rc=rc or 99, m=s.mesh())
        return
    g = GL(size=n)
    rc, _ = mk.mesh2d_get_mesh_boundaries_as_polygons(s.id, g)
    s.emit("bound", rc=rc, P=[p for p in polygons(g, n)] if n else [], m=s.mesh())


def q_facepolys(s):
    adm(s)
    mk = s.mk
    k = s.rng.randint(3, 6)
    rc, (n,) = mk.mesh2d_get_face_polygons_dimension(s.id, k)
    g = GL(size=max(n, 0))
    if rc == 0 and n > 0:
        rc, _ = mk.mesh2d_get_face_polygons(s.id, k, g)
    s.emit("facepolys", rc=rc, n=n, q=k, P=polygons(g, n) if n > 0 else [], m=s.mesh())


def odd_polygon(s, m):
    """a simple polygon whose corners are at odd multiples of 1/2 units... kept off the lattice lines: coordinates are doubled
    in the events (unit 1/2) and odd here, so that no corner lies on a node; passing exactly through nodes is judged as 'on'"""
    rng = s.rng
    kind = rng.randrange(4)
    if kind == 0:
        x0, x1 = sorted(rng.sample(range(-9, 80, 2), 2))
        y0, y1 = sorted(rng.sample(range(-9, 80, 2), 2))
        P = [[x0, y0], [x1, y0], [x1, y1], [x0, y1]]
    elif kind == 1:
        while True:
            P = [[rng.randrange(-9, 80, 2), rng.randrange(-9, 80, 2)] for _ in range(3)]
            if cross(*P) != 0:
                break
    else:
        # star-shaped polygon around a centre
        import math
        cx, cy = rng.randrange(10, 50), rng.randrange(10, 50)
        k = rng.randint(4, 7)
        while True:
            ang = sorted(rng.uniform(0, 2 * math.pi) for _ in range(k))
            if max((ang[(i + 1) % k] - ang[i]) % (2 * math.pi) for i in range(k)) < 3:
                break
        P = []
        for a in ang:
            r = rng.uniform(8, 40)
            x, y = int(round(cx + r * math.cos(a))), int(round(cy + r * math.sin(a)))
            P.append([x | 1, y | 1])
        if not simple(P):
            return odd_polygon(s, m)
    if rng.random() < 0.5:
        P.reverse()
    return P


def seg_meet(a, b, c, d):
    def on(p, a, b):
        return cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])
    def sg(x):
        return (x > 0) - (x < 0)
    if sg(cross(a, b, c)) * sg(cross(a, b, d)) < 0 and sg(cross(c, d, a)) * sg(cross(c, d, b)) < 0:
        return True
    return on(a, c, d) or on(b, c, d) or on(c, a, b) or on(d, a, b)


def simple(P):
    n = len(P)
    if len({tuple(p) for p in P}) < n:
        return False
    for i in range(n):
        for j in range(i + 1, n):
            a, b, c, d = P[i], P[(i + 1) % n], P[j], P[(j + 1) % n]
            if j == i + 1 or (i == 0 and j == n - 1):
                sh = b if j == i + 1 else a
                o1, o2 = (a, d) if j == i + 1 else (b, c)
                if cross(sh, o1, o2) == 0:
                    return False
                continue
            if seg_meet(a, b, c, d):
                return False
    return True


def rings(s, m, apart=True):
    """rings bounding an area, and the geometry list for it: one polygon, one with a hole, or two polygons apart"""
    rng = s.rng
    kind = rng.random()
    def rect(x0, y0, x1, y1):
        P = [[x0, y0], [x1, y0], [x1, y1], [x0, y1]]
        k = rng.randrange(4)
        P = P[k:] + P[:k]
        return P[::-1] if rng.random() < 0.5 else P
    if kind < 0.6:
        R, sep = [odd_polygon(s, m)], []
    elif kind < 0.8 or not apart:
        x0, y0 = rng.randrange(-9, 30, 2), rng.randrange(-9, 30, 2)
        x1, y1 = x0 + rng.randrange(16, 60, 2), y0 + rng.randrange(16, 60, 2)
        a, b = sorted(rng.sample(range(x0 + 2, x1 - 1, 2), 2))
        c, d = sorted(rng.sample(range(y0 + 2, y1 - 1, 2), 2))
        R, sep = [rect(x0, y0, x1, y1), rect(a, c, b, d)], [-998.0]
        if x1 - b >= 8 and rng.random() < 0.6:
            # a second hole, beside the first
            a, b = sorted(rng.sample(range(b + 2, x1 - 1, 2), 2))
            c, d = sorted(rng.sample(range(y0 + 2, y1 - 1, 2), 2))
            R.append(rect(a, c, b, d))
            sep.append(-998.0)
            if rng.random() < 0.3:
                R[1:] = R[:0:-1]
        if apart and rng.random() < 0.4:
            # and a polygon beside it, before or after it
            x2, x3 = sorted(rng.sample(range(x1 + 2, x1 + 40, 2), 2))
            c, d = sorted(rng.sample(range(-9, 80, 2), 2))
            if rng.random() < 0.5:
                R, sep = [rect(x2, c, x3, d)] + R, [-999.0] + sep
            else:
                R, sep = R + [rect(x2, c, x3, d)], sep + [-999.0]
    else:
        x0, x1, x2, x3 = sorted(rng.sample(range(-9, 80, 2), 4))
        ys = [sorted(rng.sample(range(-9, 80, 2), 2)) for _ in range(2)]
        R, sep = [rect(x0, ys[0][0], x1, ys[0][1]), rect(x2, ys[1][0], x3, ys[1][1])], [-999.0]
    pts = []
    for k, P in enumerate(R):
        if k:
            pts.append((sep[k - 1], sep[k - 1]))
        c = [(p[0] / 2.0, p[1] / 2.0) for p in P]
        pts += c + [c[0]]
    return R, GL(pts)


def op_cut(s):
    adm(s)
    m = s.mesh()
    P, g = rings(s, m)
    opt, inv = s.rng.randint(0, 1), s.rng.randint(0, 1)
    rc, _ = s.mk.mesh2d_delete(s.id, g, opt, inv)
    s.emit("cut", rc=rc, P=P, opt=opt, inv=inv, m=s.mesh())


def op_cutfaces(s):
    adm(s)
    m = s.mesh()
    rc, d = s.mk.mesh2d_full(s.id)
    P, g = rings(s, m)
    inv = s.rng.randint(0, 1)
    rc, _ = s.mk.mesh2d_delete(s.id, g, 2, inv)
    s.emit("cutfaces", rc=rc, P=P, inv=inv, m=s.mesh())


def q_nodesin(s):
    adm(s)
    mk = s.mk
    P, g = rings(s, s.mesh())
    inside = s.rng.randint(0, 1)
    rc, (n,) = mk.mesh2d_count_nodes_in_polygons(s.id, g, inside)
    a = iarr([-777] * (max(n, 0) + 1))
    if rc == 0:
        rc, _ = mk.mesh2d_get_nodes_in_polygons(s.id, g, inside, a)
    s.emit("nodesin", rc=rc, P=P, inside=inside, out=[idx(a[i]) for i in range(max(n, 0))], tail=1 if a[max(n, 0)] == -777 else 0, m=s.mesh())


def q_points(s):
    P, g = rings(s, s.mesh(), apart=False)
    pts = [[s.rng.randint(-9, 80), s.rng.randint(-9, 80)] for _ in range(12)] + [list(s.rng.choice(P[0]))]
    if s.rng.random() < 0.2:
        pts.insert(3, pts[3])
    q = GL([(x / 2.0, y / 2.0) for x, y in pts])
    o = GL(size=len(pts))
    rc, _ = s.mk.polygon_get_included_points(s.id, g, q, o)
    s.emit("points", rc=rc, P=P, Q=pts, out=[int(v) for v in o.vals()], m=s.mesh())


EVERYWHERE = BoundingBox(xLowerLeft=-sys.float_info.max, yLowerLeft=-sys.float_info.max, xUpperRight=sys.float_info.max, yUpperRight=sys.float_info.max)


def q_near(s):
    adm(s)
    mk, rng = s.mk, s.rng
    p = [rng.randint(-16, 96), rng.randint(-16, 96)]
    x, y = p[0] / 2.0, p[1] / 2.0
    B = (-1e6, -1e6, 1e6, 1e6)
    r2 = rng.choice((1, 4, 16, 64, 256, 1024, 40000))      # squared radius, doubled units
    r = (r2 ** 0.5) / 2.0
    rc, (i,) = mk.mesh2d_get_node_index(s.id, x, y, r, *B)
    rc2, (cx, cy) = mk.mesh2d_get_closest_node(s.id, x, y, r, *B) if rc == 0 and i >= 0 else (0, (MISSING, MISSING))
    rc3, (e,) = mk.mesh2d_get_edge(s.id, x, y, *B)
    locs = []
    box = None
    for t in (0, 1, 2):
        if s.steady or rng.random() < 0.5:
            bb = [-4000, -4000, 4000, 4000]
        else:
            x0, x1 = sorted(rng.sample(range(-9, 100, 2), 2))
            y0, y1 = sorted(rng.sample(range(-9, 100, 2), 2))
            bb = [x0, y0, x1, y1]
        b = EVERYWHERE if s.steady else BoundingBox(xLowerLeft=bb[0] / 2.0, yLowerLeft=bb[1] / 2.0, xUpperRight=bb[2] / 2.0, yUpperRight=bb[3] / 2.0)
        rl, (li,) = mk.mesh2d_get_location_index(s.id, x, y, [1, 2, 0][t], b)
        locs.append([rl, idx(li), bb, t])
    s.emit("near", p=p, r2=r2, node=[rc, idx(i)], closest=[rc2, pt((cx, cy), 2)], edge=[rc3, idx(e)], locs=locs, m=s.mesh())


EDIT = [op_node, op_edge, op_edgexy, op_delnode, op_deledge, op_deledgexy, op_merge2, op_hang, op_translate, op_turn, op_shift, op_add, op_set, op_setfaces, op_undo, op_cut, op_cutfaces]
QUERY = {"connectivity": [q_get], "boundary": [q_boundary, q_facepolys], "edit": [q_get], "select": [q_nodesin, q_points], "lookup": [q_near], "": [q_get, q_boundary, q_facepolys, q_nodesin, q_points, q_near]}
WEIGHT = {"connectivity": [op_setfaces] * 2 + [op_other] * 2, "select": [op_cut] * 8 + [op_cutfaces] * 4, "edit": [op_redo, op_other], "lookup": [op_undo] * 4 + [op_redo] * 3 + [op_land] * 4 + [op_translate, op_shift, op_shift, op_shift]}


def scenario(s):
    rng = s.rng
    s.open()
    s.emit("reset")
    s.steady = rng.random() < 0.6          # the same region in every lookup: search trees live on
    setm(s, *random_mesh(rng, big=rng.random() < 0.4))
    ops = EDIT + WEIGHT.get(s.focus, [])
    qs = QUERY.get(s.focus, QUERY[""])
    for _ in range(rng.randint(2, 8)):
        if rng.random() < (0.9 if s.steady else 0.6):
            rng.choice(qs)(s)
        op = rng.choice(ops)
        op(s)
        m = s.mesh()
        if len(m["n"]) > 70 or not valid_edges(m):
            setm(s, *random_mesh(rng))
    rng.choice(qs)(s)
    if rng.random() < 0.3:
        op_movenode(s)
    s.mk.deallocate_state(s.id)


def replay(s, sched):
    """a behaviour of MeshMC.tla, step by step; queries in between"""
    rng, mk = s.rng, s.mk
    s.open()
    s.emit("reset")
    s.steady = rng.random() < 0.6
    qs = QUERY.get(s.focus, QUERY[""])
    for op, a, b in sched:
        m = s.mesh()
        ok = lambda i: 0 < i <= len(m["n"]) and m["n"][i - 1]
        if op == "node":
            rc, (i,) = mk.mesh2d_insert_node(s.id, float(a), float(b))
            s.emit("node", rc=rc, p=[a, b], out=idx(i), m=s.mesh())
        elif op == "edge":
            if not (ok(a) and ok(b)):
                continue
            if any(x and set(x) == {a, b} for x in m["e"]):
                adm(s)
            rc, (e,) = mk.mesh2d_insert_edge(s.id, a - 1, b - 1)
            s.emit("edge", rc=rc, a=a, b=b, out=idx(e), m=s.mesh())
        elif op == "delnode":
            adm(s)
            m = s.mesh()
            if ok(a):
                ev(s, "delnode", mk.mesh2d_delete_node(s.id, a - 1), a=a)
        elif op == "deledge":
            if a <= len(m["e"]) and m["e"][a - 1]:
                ev(s, "deledge", mk.mesh2d_delete_edge_by_index(s.id, a - 1), a=a)
        elif op == "merge2":
            adm(s)
            m = s.mesh()
            if ok(a) and ok(b):
                ev(s, "merge2", mk.mesh2d_merge_two_nodes(s.id, a - 1, b - 1), a=a, b=b)
        elif op == "delhang":
            adm(s)
            ev(s, "delhang", mk.mesh2d_delete_hanging_edges(s.id))
        elif op == "turn":
            ev(s, "turn", mk.mesh2d_rotate(s.id, 8.0, 8.0, 90.0 * a), c=[8, 8], q=a)
        elif op == "translate":
            ev(s, "translate", mk.mesh2d_translate(s.id, float(a), 0.0), d=[a, 0])
        if len(valid_edges(s.mesh())) >= 3 and rng.random() < 0.3:
            rng.choice(qs)(s)
    if valid_edges(s.mesh()):
        rng.choice(qs)(s)
    mk.deallocate_state(s.id)
