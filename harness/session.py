"""Session driver: replays abstract schedules (from TLC's simulation of Session.tla, or drawn at random) against the real
library and records, after every call, what an API user can observe of every live instance.  It judges nothing.

One ndjson event per call:
  k    kind: reset alloc edit query undo redo setmax clear clearfor expunge clearstate unknown crash
  n    name of the call,  id  instance,  rc  exit code,  msg  1 when an error text is available
  obs  [[id, token], ...] for every live instance; a token stands for the whole observable content of the instance
  cnt  [committed, restored],  per [[id, committed, restored], ...]
"""
import hashlib
import json
import pickle
import os
import random
import signal
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkapi import *
import ops


class Interner:
    def __init__(self):
        self.t, self.rev = {}, []

    def __call__(self, key):
        if key not in self.t:
            self.t[key] = len(self.rev)
            self.rev.append(key)
        return self.t[key]


def fl(v):
    return float(v).hex()


def observe(mk, mid):
    """Everything observable of one instance, without altering it."""
    o = {}
    rc, nodes, edges = mk.raw_mesh2d(mid)
    o["mesh2d_rc"] = rc
    o["nodes"], o["edges"] = nodes or [], edges or []
    rc, g = mk.curvi(mid)
    o["curvi"] = g or dict(m=0, n=0, nodes=[])
    rc, m1 = mk.mesh1d(mid)
    o["mesh1d"] = m1 or dict(nodes=[], edges=[])
    rc, c = mk.contacts(mid)
    o["contacts"] = c or []
    rc, (p,) = mk.get_projection(mid)
    o["projection"] = p
    return o


def canon(o):
    """Canonical content: valid nodes and edges under the indices the user addresses them by."""
    N = o["nodes"]
    vn = [(i, fl(p[0]), fl(p[1])) for i, p in enumerate(N) if ops.valid(p)]
    ok = {v[0] for v in vn}
    ve = [(i, e[0], e[1]) for i, e in enumerate(o["edges"]) if e[0] in ok and e[1] in ok]
    M = o["mesh1d"]["nodes"]
    v1 = [(i, fl(p[0]), fl(p[1])) for i, p in enumerate(M) if ops.valid(p)]
    ok1 = {v[0] for v in v1}
    e1 = [(i, e[0], e[1]) for i, e in enumerate(o["mesh1d"]["edges"]) if e[0] in ok1 and e[1] in ok1]
    g = o["curvi"]
    gn = [(fl(p[0]), fl(p[1])) if ops.valid(p) else 0 for p in g["nodes"]]
    if not any(gn):
        g, gn = dict(m=0, n=0), []
    return (tuple(vn), tuple(ve), tuple(v1), tuple(e1), g["m"], g["n"], tuple(gn), tuple(o["contacts"]), o["projection"], o.get("net"))


def in_child(fn):
    """(what fn returns,) when run in a child process, on a copy of everything; None when it does not finish"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(20)
            out = (fn(),)
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def probe_network(mk, mid):
    """The 1D network of an instance cannot be read back; what it looks like shows in the 1D mesh made from it.  Returns the
    nodes of that mesh, None when there is no network."""
    def look():
        old = mk.mesh1d(mid)[1] or dict(nodes=[])
        if mk.network1d_to_mesh1d(mid, 0.01)[0]:
            return None
        new = (mk.mesh1d(mid)[1] or dict(nodes=[]))["nodes"][len(old["nodes"]):]
        new = [p for p in new if ops.valid(p)]
        if not new:
            return None
        return tuple(sorted((round(p[0], 3), round(p[1], 3)) for p in new))
    return in_child(look)


def probe_shift(mk, mid):
    """an interactive line shift is under way when the instance is emptied: are its further steps refused?"""
    def look():
        if mk.curvilinear_initialize_line_shift(mid)[0] or mk.deallocate_state(mid)[0]:
            return 1
        rc = [mk.curvilinear_line_shift(mid)[0], mk.curvilinear_set_line_line_shift(mid, 0.0, 0.0, 10.0, 0.0)[0], mk.curvilinear_move_node_line_shift(mid, 0.0, 0.0, 1.0, 1.0)[0]]
        return int(all(rc))
    return (in_child(look) or (1,))[0]


def has_isolated(o):
    N = o["nodes"]
    con = set()
    for a, b in o["edges"]:
        if a >= 0 and b >= 0 and a < len(N) and b < len(N) and ops.valid(N[a]) and ops.valid(N[b]):
            con.add(a); con.add(b)
    return any(ops.valid(p) and i not in con for i, p in enumerate(N))


def has_dangling(o):
    """curvilinear nodes that belong to no valid face: the next curvilinear operation may drop them"""
    g = o["curvi"]
    n, m, N = g["n"], g["m"], g["nodes"]
    if not N:
        return False
    ok = [[ops.valid(N[i * m + j]) for j in range(m)] for i in range(n)]
    for i in range(n):
        for j in range(m):
            if ok[i][j] and not any(0 <= a < n - 1 and 0 <= b < m - 1 and ok[a][b] and ok[a + 1][b] and ok[a][b + 1] and ok[a + 1][b + 1]
                                    for a in (i - 1, i) for b in (j - 1, j)):
                return True
    return False


class Session:
    def __init__(self, mk, rng, emit, begin, only=None):
        self.mk, self.rng, self.emit_, self.begin = mk, rng, emit, begin
        self.tok = Interner()
        self.live, self.obs, self.net, self.had_net, self.nets = [], {}, set(), set(), {}
        self.seen = 0
        self.only = only
        self.bad_ids = []
        self.twins = os.environ.get("FOCUS") == "twin"

    def emit(self, **ev):
        mk = self.mk
        for i in self.live:
            self.obs[i] = observe(mk, i)
            if i in self.had_net:
                self.seen += 1
                if ev["id"] == i and ev["n"] in ("network1d_set", "network1d_compute_offsetted_chainages", "network1d_compute_fixed_chainages", "network1d_to_mesh1d", "deallocate_state", "undo_state", "redo_state") or self.seen % 12 == 0:
                    net = probe_network(mk, i)
                    self.nets[i] = net[0] if net else self.nets.get(i)
                self.obs[i]["net"] = self.nets.get(i)
        ev["obs"] = [[i, self.tok(canon(self.obs[i]))] for i in self.live]
        _, c = mk.undo_state_count()
        ev["cnt"] = c
        ev["per"] = [[i, *mk.undo_state_count_for_id(i)[1]] for i in self.live]
        ids = sorted(set(self.live) | set(self.bad_ids) | {(max(self.live) if self.live else 0) + 1})
        ev["valid"] = [[i, int(mk.is_valid_state(i)[1][0])] for i in ids]
        self.emit_(ev)

    def call(self, kind, name, mid, fn, more=None):
        self.begin(kind, name, mid)
        r = fn()
        if r is None:
            return False
        if isinstance(r, list):         # an operation made of several calls, each recorded on its own
            for n, f in r:
                self.call(kind, n, mid, f)
            return True
        rc = r[0]
        msg = 1 if rc == 0 or len(self.mk.error()) > 0 else 0
        self.emit(k=kind, n=name, id=mid, rc=rc, msg=msg, **(more(rc) if more else {}))
        return True

    def answer(self, fn):
        """run a call; returns its result and a digest of everything it returned"""
        self.mk.digest = hashlib.sha1()
        try:
            r = fn()
            return r, self.mk.digest.hexdigest()
        finally:
            self.mk.digest = None

    def twin(self, table, n, mid):
        """The same call on a new instance that holds the same content, in a child process.  Returns (return code, content
        afterwards, digest of the answer), or None when the content cannot be loaded as it is into a new instance."""
        o = self.obs[mid]
        if o["curvi"]["nodes"] and not any(ops.valid(p) for p in o["curvi"]["nodes"]):
            return None         # a grid without valid nodes is not the same as no grid
        if has_isolated(o) or o["contacts"] or mid in self.net or any(p[0] != p[0] for p in o["curvi"]["nodes"]):
            return None
        ok1 = all(ops.valid(p) for p in o["nodes"]) and all(e[0] >= 0 and e[1] >= 0 for e in o["edges"])
        ok2 = all(ops.valid(p) for p in o["mesh1d"]["nodes"]) and all(e[0] >= 0 and e[1] >= 0 for e in o["mesh1d"]["edges"])
        if not (ok1 and ok2):
            return None
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                mk = self.mk
                os.close(r)
                mk.clear_state()
                mk.__dict__["_szcache"] = {}
                _, (t,) = mk.allocate_state(o["projection"])
                rc = [0, 0, 0]
                if o["nodes"]:
                    rc[0] = mk.mesh2d_set(t, mk.mk_mesh2d(o["nodes"], o["edges"]))[0]
                if o["mesh1d"]["nodes"]:
                    rc[1] = mk.mesh1d_set(t, mk.mk_mesh1d(o["mesh1d"]["nodes"], o["mesh1d"]["edges"]))[0]
                g = o["curvi"]
                if any(ops.valid(p) for p in g["nodes"]):
                    rc[2] = mk.curvilinear_set(t, mk.mk_curvi([g["nodes"][i * g["m"]:(i + 1) * g["m"]] for i in range(g["n"])]))[0]
                out = None
                if not any(rc) and canon(observe(mk, t)) == canon(o):
                    if table[n]["needs"] in ("mesh2d", "both", "clean", "tame", "compact", "uniform"):
                        mk.mesh2d_get_dimensions(t, Mesh2D())
                    res, h = self.answer(lambda: table[n]["fn"](ops.Ctx(mk, t, self.rng, o)))
                    if isinstance(res, list):
                        out = None
                    elif res is not None:
                        out = (res[0], canon(observe(mk, t)), h)
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        return pickle.loads(data) if st == 0 and data else None

    # ---- state predicates for applicability
    def applicable(self, d, mid):
        o, need = self.obs[mid], d["needs"]
        if o["mesh2d_rc"] != 0:
            return need == "any"
        v = any(ops.valid(p) for p in o["nodes"])
        hv = bool(ops.Ctx(self.mk, mid, self.rng, o).vedges())
        if need in ("compact", "uniform"):
            if need == "uniform" and len({len(f) for f in self.mk.mesh2d_full(mid)[1]["faces"]}) != 1:
                return False
            return v and hv and all(ops.valid(p) for p in o["nodes"]) and all(e[0] >= 0 and e[1] >= 0 for e in o["edges"]) and self.is_tame(mid)
        if need == "tame":
            return v and hv and self.is_tame(mid)
        if need == "clean":
            return v and hv and self.is_clean(mid)
        if need == "mesh2d":
            return v and hv
        if need.startswith("curvi") and any(p[0] != p[0] or p[1] != p[1] for p in o["curvi"]["nodes"]):
            return False        # smoothing a folded grid may yield undefined coordinates
        if need == "curvi":
            return sum(ops.valid(p) for p in o["curvi"]["nodes"]) >= 4 and o["curvi"]["m"] >= 2 and o["curvi"]["n"] >= 2
        if need == "curvifull":
            return len(o["curvi"]["nodes"]) >= 4 and o["curvi"]["m"] >= 2 and o["curvi"]["n"] >= 2 and all(ops.valid(p) for p in o["curvi"]["nodes"])
        if need == "nocurvi":
            return not any(ops.valid(p) for p in o["curvi"]["nodes"])
        if need == "network":
            return mid in self.net
        if need == "both":
            return v and hv and len(o["mesh1d"]["nodes"]) > 0
        return True

    def is_clean(self, mid):
        """every edge bounds a face (what the smoothing and refinement algorithms are meant for)"""
        if has_isolated(self.obs[mid]):
            return False
        rc, m = self.mk.mesh2d_full(mid)
        if rc:
            return False
        ok = {i for i, p in enumerate(m["nodes"]) if ops.valid(p)}
        return len(m["faces"]) > 0 and all(m["edge_faces"][i][0] >= 0 for i, e in enumerate(m["edges"]) if e[0] in ok and e[1] in ok)

    def is_tame(self, mid):
        """a proper planar mesh: convex triangles and quadrilaterals with positive area, and a manifold boundary (what the
        smoothing, splitting and refinement algorithms are meant for)"""
        if not self.is_clean(mid):
            return False
        rc, m = self.mk.mesh2d_full(mid)
        N, ok = m["nodes"], {i for i, p in enumerate(m["nodes"]) if ops.valid(p)}
        for f in m["faces"]:
            k = len(f)
            if k not in (3, 4):
                return False
            for i in range(k):
                a, b, c = N[f[i]], N[f[(i + 1) % k]], N[f[(i + 2) % k]]
                cr = (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])
                if cr <= 0.02 * ((b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2 + (c[0] - b[0]) ** 2 + (c[1] - b[1]) ** 2):
                    return False
        bnd = {}
        for i, e in enumerate(m["edges"]):
            if e[0] in ok and e[1] in ok and m["edge_faces"][i][1] < 0:
                for n in e:
                    bnd[n] = bnd.get(n, 0) + 1
        return all(v == 2 for v in bnd.values())

    def size_ok(self, mid, name):
        return not (len(self.obs[mid]["nodes"]) > 250 and ("refine" in name or "add" in name or "connect" in name))

    def pick(self, table, mid, quiet):
        o = self.obs[mid]
        iso = has_isolated(o)
        names, w = [], []
        for n, d in table.items():
            if self.only and n not in self.only:
                continue
            if iso and not (d.get("isolated_ok") or d.get("intrusive") is False):
                continue
            if d["needs"] == "curvi" and has_dangling(o):
                continue
            if iso and n == "mesh2d_insert_node" and self.rng.random() < 0.7:
                continue
            if not self.applicable(d, mid) or not self.size_ok(mid, n):
                continue
            names.append(n); w.append(d["weight"])
        if not names:
            return None
        return self.rng.choices(names, w)[0]

    def refresh(self, mid, d):
        """users read the mesh back before running an algorithm on it; several algorithms rely on that administration"""
        if d["needs"] in ("mesh2d", "both", "clean", "tame", "compact", "uniform") and not d.get("isolated_ok") and d.get("intrusive") is not False:
            self.call("query", "mesh2d_get_dimensions", mid, lambda: self.mk.mesh2d_get_dimensions(mid, Mesh2D()))

    def do_edit(self, mid, name=None):
        for _ in range(5):
            n = name or self.pick(ops.EDITS, mid, False)
            if n is None:
                return False
            self.refresh(mid, ops.EDITS[n])
            c = ops.Ctx(self.mk, mid, self.rng, self.obs[mid])
            if n == "network1d_set":
                self.net.add(mid)
                self.had_net.add(mid)
            if n == "deallocate_state":
                self.net.discard(mid)
            st = self.rng.getstate()
            tw = self.twin(ops.EDITS, n, mid) if self.twins else None
            self.rng.setstate(st)
            shift = 1
            if n == "deallocate_state" and self.applicable(dict(needs="curvifull"), mid):
                shift = probe_shift(self.mk, mid)

            def more(rc):
                d = {}
                if tw is not None:
                    d["tw"] = [rc, self.tok(canon(observe(self.mk, mid))), tw[0], self.tok(tw[1])]
                if n == "deallocate_state":
                    o = observe(self.mk, mid)
                    d["empty"] = int(not (o["nodes"] or o["edges"] or o["curvi"]["nodes"] or o["mesh1d"]["nodes"] or o["contacts"])) & shift
                return d
            if self.call("edit", n, mid, lambda: ops.EDITS[n]["fn"](c), more):
                return True
        return False

    def do_wrong(self, mid):
        for _ in range(6):
            n = self.pick(ops.BADS, mid, False)
            if n is None:
                return False
            self.refresh(mid, ops.BADS[n])
            c = ops.Ctx(self.mk, mid, self.rng, self.obs[mid])
            if self.call("edit", n.split("#")[0], mid, lambda: ops.BADS[n]["fn"](c)):
                return True
        return False

    def do_query(self, mid):
        for _ in range(5):
            n = self.pick(ops.QUERIES, mid, True)
            if n is None:
                return False
            self.refresh(mid, ops.QUERIES[n])
            c = ops.Ctx(self.mk, mid, self.rng, self.obs[mid])
            st = self.rng.getstate()
            tw = self.twin(ops.QUERIES, n, mid) if self.twins else None
            ans = []

            def ask():
                self.rng.setstate(st)
                r, h = self.answer(lambda: ops.QUERIES[n]["fn"](c))
                ans.append(h)
                return r

            def more(rc):
                d = {"same": [ans[0], ans[1]]} if len(ans) > 1 else {}
                if tw is not None:
                    d["tw"] = [rc, self.tok(ans[0]), tw[0], self.tok(tw[2])]
                return d

            def twice():
                r = ask()
                return ask() if r is not None and self.rng.random() < 0.5 else r
            if self.call("query", n, mid, twice, more):
                return True
        return False

    def do_unknown(self):
        """any call of the catalogue, addressed to an instance that does not exist"""
        if not self.live:
            return False
        src = self.rng.choice(self.live)
        table = self.rng.choice([ops.EDITS, ops.QUERIES])
        n = self.pick(table, src, False)
        if n is None:
            return False
        if n == "curvilinear_line_shift_session":
            return False
        bogus = self.rng.choice(self.bad_ids + [max(self.live) + 5, -1, 1000])
        c = ops.Ctx(self.mk, bogus, self.rng, self.obs[src])
        return self.call("unknown", n, bogus, lambda: table[n]["fn"](c))

    def run(self, schedule):
        mk, rng = self.mk, self.rng
        mk.clear_state()
        mk.__dict__["_szcache"] = {}
        mk.set_undo_size(50)
        self.emit(k="reset", n="clear_state", id=-1, rc=0, msg=1)
        for a in schedule:
            k = a[0]
            if k == "alloc":
                self.begin("alloc", "allocate_state", -1)
                proj = 0 if len(a) < 2 else a[1]
                rc, (mid,) = mk.allocate_state(proj)
                if rc == 0:
                    self.live.append(mid)
                    self.net.discard(mid)
                    self.had_net.discard(mid)
                    if mid in self.bad_ids:
                        self.bad_ids.remove(mid)
                    self.obs[mid] = None
                o = observe(mk, mid) if rc == 0 else None
                fresh = rc == 0 and o["projection"] == proj and not (o["nodes"] or o["edges"] or o["curvi"]["nodes"] or o["mesh1d"]["nodes"] or o["contacts"])
                self.emit(k="alloc", n="allocate_state", id=mid, rc=rc, msg=1, v=1 if fresh else (7 if proj > 2 and rc != 0 else 0))
            elif k in ("edit", "query", "badedit"):
                if not self.live:
                    continue
                mid = self.live[a[1] % len(self.live)]
                {"edit": self.do_edit, "query": self.do_query, "badedit": self.do_wrong}[k](mid)
            elif k == "named":
                if self.live:
                    mid = self.live[a[1] % len(self.live)]
                    for n in a[2]:
                        if self.applicable(ops.EDITS[n], mid) and self.size_ok(mid, n) and not (has_isolated(self.obs[mid]) and not ops.EDITS[n].get("isolated_ok")):
                            self.do_edit(mid, n)
            elif k == "unknown":
                self.do_unknown()
            elif k in ("undo", "redo"):
                self.begin(k, k + "_state", -1)
                rc, (flag, mid) = getattr(mk, k + "_state")()
                self.emit(k=k, n=k + "_state", id=mid, rc=rc, msg=1, flag=int(flag))
            elif k == "setmax":
                self.begin(k, "set_undo_size", -1)
                rc, _ = mk.set_undo_size(a[1])
                self.emit(k="setmax", n="set_undo_size", id=-1, rc=rc, msg=1, v=a[1])
            elif k == "clear":
                self.begin(k, "clear_undo_state", -1)
                rc, _ = mk.clear_undo_state()
                self.emit(k="clear", n="clear_undo_state", id=-1, rc=rc, msg=1)
            elif k == "clearfor":
                if self.live:
                    mid = self.live[a[1] % len(self.live)]
                    self.begin(k, "clear_undo_state_for_id", mid)
                    rc, _ = mk.clear_undo_state_for_id(mid)
                    self.emit(k="clearfor", n="clear_undo_state_for_id", id=mid, rc=rc, msg=1)
            elif k == "expunge":
                if self.live:
                    mid = self.live[a[1] % len(self.live)]
                    self.begin(k, "expunge_state", mid)
                    rc, _ = mk.expunge_state(mid)
                    if rc == 0:
                        self.live.remove(mid)
                        self.bad_ids.append(mid)
                    self.emit(k="expunge", n="expunge_state", id=mid, rc=rc, msg=1)
            elif k == "clearstate":
                self.begin(k, "clear_state", -1)
                rc, _ = mk.clear_state()
                self.bad_ids = self.live[:3]
                self.live = []
                self.net, self.had_net = set(), set()
                self.emit(k="clearstate", n="clear_state", id=-1, rc=rc, msg=1)


def random_schedule(rng, n, focus=""):
    s = [("alloc",), ("edit", 0)]
    if rng.random() < 0.6 or focus == "multi":
        s += [("alloc",), ("edit", 1)]
    if focus == "multi":
        s += [("alloc",), ("edit", 2), ("edit", 0), ("edit", 1)]
    for _ in range(n):
        x = rng.random()
        i = rng.randrange(3)
        if rng.random() < 0.012:
            # everything an instance can hold, then something that touches all of it
            s.append(("named", i, ["mesh2d_make_rectangular_mesh", "mesh1d_set", "network1d_set", "network1d_set", "curvilinear_compute_rectangular_grid", "contacts_compute_single", "contacts_compute_multiple"]))
            s.append(("named", i, [rng.choice(["deallocate_state", "deallocate_state", "mesh2d_set", "mesh1d_set", "curvilinear_convert_to_mesh2d"])]))
            s += [("undo",)] * rng.choice([1, 1, 2, 4]) + [("redo",)] * rng.choice([1, 2])
        if focus and rng.random() < 0.3:
            if focus == "stack":
                s += rng.choice([[("setmax", rng.choice([0, 1, 2, 3, 5, 8]))], [("clearfor", i)], [("undo",)] * 3, [("undo",), ("edit", i)],
                                 [("undo",), ("undo",), ("edit", i), ("redo",), ("redo",)], [("edit", i)] * 3,
                                 [("edit", i)] * 2 + [("undo",)] * rng.choice([2, 3, 4]) + [("setmax", rng.choice([1, 2, 3]))] + [("redo",)] * 3,
                                 [("undo",)] * rng.choice([1, 2, 3]) + [("clearfor", i)] + [("redo",)] * 2, [("expunge", i)] if rng.random() < .3 else [("undo",)]])
            elif focus == "multi":
                s += rng.choice([[("unknown",)], [("expunge", i), ("unknown",)] if rng.random() < .4 else [("undo",)], [("alloc",), ("edit", i)], [("edit", 0), ("edit", 1), ("undo",), ("undo",)],
                                 [("clearstate",), ("alloc",), ("edit", 0), ("alloc",), ("edit", 1)] if rng.random() < .2 else [("edit", i)], [("clearfor", i)]])
            elif focus == "fail":
                s += [("badedit", i)]
            elif focus == "query":
                s += [("query", i)] * 3
            continue
        if x < 0.50:
            s.append(("edit", i))
        elif x < 0.62:
            s.append(("query", i))
        elif x < 0.80:
            s += [("undo",)] * rng.choice([1, 1, 2, 4])
        elif x < 0.92:
            s += [("redo",)] * rng.choice([1, 1, 2, 3])
        elif x < 0.93:
            s.append(("unknown",))
        elif x < 0.945:
            s.append(("alloc",))
        elif x < 0.955:
            s.append(("expunge", i))
        elif x < 0.965:
            s.append(("setmax", rng.choice([0, 1, 2, 3, 5, 50])))
        elif x < 0.975:
            s.append(("clearfor", i))
        elif x < 0.98:
            s.append(("clear",))
        elif x < 0.985:
            s.append(("alloc", 7))
        else:
            s.append(("undo",))
    # drain: undo everything, redo everything
    s += [("undo",)] * 12 + [("redo",)] * 14
    return s


def run_one(mk, k, seed, sched, path, only=None):
    """one session in the current process"""
    rng = random.Random((seed * 1000003) ^ (k * 7919))
    with open(path, "w") as f, open(path + ".begin", "w", buffering=1) as b:
        def emit(ev):
            ev["s"] = k
            f.write(json.dumps(ev, separators=(",", ":")) + "\n")

        def begin(kind, name, mid):
            f.flush()
            b.write("%s %s %d\n" % (kind, name, mid))
        S = Session(mk, rng, emit, begin, only)
        S.run(sched if sched is not None else random_schedule(rng, 30, os.environ.get("FOCUS", "")))


def main():
    """session.py LIB OUT SEED FIRST COUNT STEP [SCHEDFILE]: sessions FIRST, FIRST+STEP, ... each in a forked child, so
    that a crash of the library ends one session only and is recorded as an event."""
    lib, out, seed, first, count, step = sys.argv[1], sys.argv[2], *map(int, sys.argv[3:7])
    scheds = [json.loads(x) for x in open(sys.argv[7])] if len(sys.argv) > 7 else None
    mk = MK(lib)
    only = set(os.environ["ONLY"].split(",")) if os.environ.get("ONLY") else None
    tmp, errors, hangs = out + ".part", 0, 0
    with open(out, "w") as f:
        for j in range(count):
            k = first + j * step
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    signal.alarm(60)
                    run_one(mk, k, seed, scheds[k % len(scheds)] if scheds else None, tmp, only)
                    code = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    os._exit(code)
            _, st = os.waitpid(pid, 0)
            data = open(tmp).read()
            if data and not data.endswith("\n"):
                data = data[:data.rfind("\n") + 1]
            f.write(data)
            if st != 0:
                if os.WIFEXITED(st):
                    sys.stderr.write("driver error in session %d\n" % k)
                    errors += 1
                    if errors > 2 + count // 50:
                        sys.exit(4)
                    continue
                hangs += os.WTERMSIG(st) == signal.SIGALRM
                kind, name, mid = open(tmp + ".begin").read().strip().split("\n")[-1].split()
                f.write(json.dumps(dict(k="crash", n=name, id=int(mid), rc=-os.WTERMSIG(st), msg=0, of=kind, obs=[], cnt=[0, 0], per=[], valid=[], s=k), separators=(",", ":")) + "\n")
                if hangs >= 2:
                    break
    for x in (tmp, tmp + ".begin"):
        if os.path.exists(x):
            os.remove(x)


if __name__ == "__main__":
    main()
