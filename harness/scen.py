"""Scenario driver: runs randomly drawn (or TLC-generated) scenarios of one family against the real library and records what
went in and what came out as ndjson events for TLC to judge.  It judges nothing itself.

  scen.py LIB OUT FAMILY SEED FIRST COUNT STRIDE [FOCUS [SCHEDULES]]

Every scenario runs in a forked child, so that a crash of the library is an event like any other."""
import importlib
import json
import os
import random
import select
import signal
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkapi import *


def num(v, scale=1):
    """a coordinate as an integer number of 1/scale units; a value off the lattice becomes a number no model produces"""
    if v == MISSING:
        return None
    w = v * scale
    if w != w or abs(w) > 1e8:
        return 77777777
    r = round(w)
    return r if abs(w - r) < 1e-5 else 70000000 + (hash(v) % 1000000)


def fix(v, scale):
    """nearest number of 1/scale units"""
    w = v * scale
    if w != w or abs(w) > 1e9:
        return 77777777
    return int(round(w))


def pt(p, scale=1):
    x, y = num(p[0], scale), num(p[1], scale)
    return [] if x is None or y is None else [x, y]


def fpt(p, scale):
    return [] if p[0] == MISSING or p[1] == MISSING else [fix(p[0], scale), fix(p[1], scale)]


def idx(i):
    return i + 1 if 0 <= i < 1000000 else 0


class Session:
    def __init__(self, mk, rng, out, sid, focus, meshscale=1):
        self.mk, self.rng, self.out, self.sid, self.focus = mk, rng, out, sid, focus
        self.id = None
        self.scale = meshscale

    def open(self, projection=0):
        rc, (self.id,) = self.mk.allocate_state(projection)
        assert rc == 0
        self.projection = projection
        return self.id

    def emit(self, k, **f):
        f["k"], f["s"] = k, self.sid
        self.out.write(json.dumps(f, separators=(",", ":")) + "\n")
        self.out.flush()

    def mesh(self):
        """raw nodes and edges, one-based, invalid ones empty"""
        rc, n, e = self.mk.raw_mesh2d(self.id)
        if rc:
            return dict(n=[], e=[])
        N = [pt(p, self.scale) for p in n]
        E = [[a + 1, b + 1] if 0 <= a < len(n) and 0 <= b < len(n) else [] for a, b in e]
        return dict(n=N, e=E)


def run(lib, out, family, seed, first, count, stride, focus, sched=None):
    scheds = [json.loads(x) for x in open(sched)] if sched else None
    mod = importlib.import_module("fam_" + family)
    mk = MK(lib)
    hangs = 0
    with open(out, "w", buffering=1) as f:
        for j in range(count):
            sid = first + j * stride
            f.flush()
            pid = os.fork()
            if pid == 0:
                rc = 0
                try:
                    rng = random.Random("%d/%s/%d" % (seed, family, sid))
                    s = Session(mk, rng, f, sid, focus)
                    if scheds:
                        mod.replay(s, scheds[sid % len(scheds)])
                    else:
                        mod.scenario(s)
                except BaseException as e:
                    import traceback
                    sys.stderr.write("scenario %d: %s\n" % (sid, traceback.format_exc()))
                    rc = 3
                sys.stderr.flush()
                f.flush()
                os._exit(rc)
            t = time.time()
            while True:
                p, st = os.waitpid(pid, os.WNOHANG)
                if p:
                    break
                if time.time() - t > 60:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    st = -1
                    break
                time.sleep(0.0005)
            f.seek(0, 2)
            if st == -1 or os.WIFSIGNALED(st):
                f.write(json.dumps(dict(k="crash", s=sid, sig=0 if st == -1 else os.WTERMSIG(st))) + "\n")
                hangs += st == -1
                if hangs >= 2:
                    return
            elif os.WEXITSTATUS(st):
                f.write(json.dumps(dict(k="lost", s=sid)) + "\n")


if __name__ == "__main__":
    a = sys.argv
    run(a[1], a[2], a[3], int(a[4]), int(a[5]), int(a[6]), int(a[7]), a[8] if len(a) > 8 else "", a[9] if len(a) > 9 else None)
