"""Random planar meshes on an integer lattice: quads, triangles, pentagons, hexagons, holes, loose edges, several parts."""
STEP = 8


def grid_mesh(rng, nx, ny, ox=0, oy=0, jitter=0, tri=0.3, hole=0.1, fuse=0.1, step=STEP):
    """returns (nodes, edges); nodes integer points; cells of a grid, some split, some removed, some fused"""
    pid = {}
    pts = []
    for j in range(ny + 1):
        for i in range(nx + 1):
            pid[i, j] = len(pts)
            pts.append([ox + step * i + (rng.randint(-jitter, jitter) if jitter else 0), oy + step * j + (rng.randint(-jitter, jitter) if jitter else 0)])
    edges = set()
    for j in range(ny):
        for i in range(nx):
            if rng.random() < hole:
                continue
            c = [pid[i, j], pid[i + 1, j], pid[i + 1, j + 1], pid[i, j + 1]]
            for k in range(4):
                edges.add(tuple(sorted((c[k], c[(k + 1) % 4]))))
            if rng.random() < tri:
                k = rng.randrange(2)
                # a diagonal that stays inside the (possibly non-convex) cell
                a, b, p, q = c[k], c[k + 2], c[(k + 1) % 4], c[(k + 3) % 4]
                if cross(pts[a], pts[b], pts[p]) * cross(pts[a], pts[b], pts[q]) < 0 and quad_ok(pts, c):
                    edges.add(tuple(sorted((a, b))))
    edges = list(edges)
    rng.shuffle(edges)
    if fuse:
        deg = {}
        for a, b in edges:
            deg[a] = deg.get(a, 0) + 1
            deg[b] = deg.get(b, 0) + 1
        keep = []
        for a, b in edges:
            if rng.random() < fuse and deg[a] > 2 and deg[b] > 2:
                deg[a] -= 1
                deg[b] -= 1
            else:
                keep.append((a, b))
        edges = keep
    return [tuple(p) for p in pts], edges


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def quad_ok(pts, c):
    return all(cross(pts[c[i]], pts[c[(i + 1) % 4]], pts[c[(i + 2) % 4]]) > 0 for i in range(4))


def shuffle(rng, nodes, edges):
    """random numbering and edge directions; nodes without an edge are dropped"""
    used = sorted({i for e in edges for i in e})
    rng.shuffle(used)
    new = {o: k for k, o in enumerate(used)}
    n = [nodes[o] for o in used]
    e = [(new[a], new[b]) if rng.random() < 0.5 else (new[b], new[a]) for a, b in edges]
    rng.shuffle(e)
    return n, e


RIM = [(12, 0), (12, 4), (12, 8), (12, 12), (8, 12), (4, 12), (0, 12), (-4, 12), (-8, 12), (-12, 12), (-12, 8), (-12, 4),
       (-12, 0), (-12, -4), (-12, -8), (-12, -12), (-8, -12), (-4, -12), (0, -12), (4, -12), (8, -12), (12, -12), (12, -8), (12, -4)]


def wheel(rng):
    """triangles around a node with many edges, all around or not, some missing"""
    k = rng.randint(5, 14)
    i0 = rng.randrange(24)
    R = [RIM[(i0 + i) % 24] for i in sorted(rng.sample(range(24 if k > 10 or rng.random() < 0.5 else 13), k))]
    n = [(16, 16)] + [(16 + x, 16 + y) for x, y in R]
    e = [(0, i) for i in range(1, k + 1)]
    for i in range(1, k + 1):
        j = i % k + 1
        if cross(n[0], n[i], n[j]) > 0 and rng.random() < 0.9:
            e.append((i, j))
    return shuffle(rng, n, e)


def random_mesh(rng, big=False):
    if rng.random() < 0.08:
        return wheel(rng)
    hi = 5 if big else 3
    nx, ny = rng.randint(1, hi), rng.randint(1, hi)
    n, e = grid_mesh(rng, nx, ny, jitter=rng.choice((0, 0, 1, 2)), tri=rng.choice((0, 0.3, 0.6, 1)), hole=rng.choice((0, 0, 0.15, 0.3)), fuse=rng.choice((0, 0, 0.1, 0.25)))
    if rng.random() < 0.25:        # a second part
        n2, e2 = grid_mesh(rng, rng.randint(1, 2), rng.randint(1, 2), ox=STEP * (nx + 1) + rng.choice((0, 4)), oy=rng.choice((0, 4)), tri=0.5)
        o = len(n)
        n, e = n + n2, e + [(a + o, b + o) for a, b in e2]
    if e and rng.random() < 0.25:  # loose edges sticking out
        for _ in range(rng.randint(1, 3)):
            a = rng.choice(sorted({i for x in e for i in x}))
            p = (n[a][0] - 3 - rng.randrange(3) if n[a][0] <= 2 else n[a][0] + 1, n[a][1] - 3)
            if n[a][1] <= 2 and p not in n:
                n.append(p)
                e.append((a, len(n) - 1))
    if not e:
        return random_mesh(rng, big)
    return shuffle(rng, n, e)
