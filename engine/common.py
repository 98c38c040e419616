"""Shared parts of the checks: building the library from /repo, running TLC, evidence, known findings."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
NPROC = 8
CP = ":".join(sorted(glob.glob("/opt/veriftools/tla/*.jar")))


class Broken(Exception):
    """the machinery itself failed (neither held nor violated)"""


def log(*a):
    print("[%s]" % time.strftime("%H:%M:%S"), *a, flush=True)


def build_lib():
    """configure and build the library under test from /repo's working tree"""
    d = os.path.join(BUILD, "lib")
    os.makedirs(d, exist_ok=True)
    t = time.time()
    for cmd in (["cmake", "-G", "Ninja", "-S", HARNESS, "-B", d, "-DREPO=" + REPO], ["ninja", "-C", d]):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print(p.stdout[-6000:])
            raise Broken("building the library failed: " + " ".join(cmd))
    log("library built from %s in %.0f s" % (REPO, time.time() - t))
    return os.path.join(d, "libMK.so")


def scratch(name):
    d = os.path.join(BUILD, "run", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def tlc(module, cfg, meta, env=None, args=(), workers=1, timeout=800, heap="2g"):
    """run TLC; returns its output.  Raises Broken when TLC itself fails (parse error, evaluation error)."""
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, *args, "-config", cfg, module]
    p = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                       env=dict(os.environ, **(env or {})))
    return p.returncode, p.stdout


def model_check(module, cfg, run, workers=4, timeout=800):
    """exhaustive model checking; returns (distinct states, generated states)"""
    rc, out = tlc(module, cfg, os.path.join(run, "mc-" + cfg), workers=workers, timeout=timeout, heap="6g")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    if rc or not m:
        print(out[-4000:])
        raise Broken("model checking %s failed" % cfg)
    log("TLC: %s: %s distinct states, no invariant of the model violated" % (cfg, m.group(2)))
    return int(m.group(2)), int(m.group(1))


VIOL = re.compile(r'^"VIOL (\S+) line (\d+) session (\d+) (.*)"$')


def validate(files, module, cfg, run, timeout=800):
    """trace validation, one TLC process per file; returns (number of events, [violations])"""
    def one(f):
        meta = os.path.join(run, "tv-" + os.path.basename(f))
        rc, out = tlc(module, cfg, meta, env={"TRACE": f}, timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r'"CHECKED (\d+)"', out)
        if rc or not m or "Error:" in out:
            print(out[-4000:])
            raise Broken("trace validation of %s failed" % f)
        v = []
        for line in out.splitlines():
            k = VIOL.match(line)
            if k:
                v.append(dict(labels=k.group(1).split(","), line=int(k.group(2)), session=int(k.group(3)), text=k.group(4), file=f))
        return int(m.group(1)), v
    files = [f for f in files if os.path.getsize(f)]
    n, viol = 0, []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for a, b in ex.map(one, files):
            n += a
            viol += b
    return n, viol


def known_findings(prop):
    """listed findings of this property: dicts with 'match' (a regular expression on the violation text) and 'what'"""
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def write_evidence(prop, tier, seed, level, coverage, t0, violations, assumptions=()):
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage, wall_s=round(time.time() - t0, 1),
                       violations=violations, assumptions=list(assumptions)), f, indent=1)


def tlc_schedules(run, num, seed, depth=40, module="SessionGen.tla", cfg="SessionGen.cfg"):
    """behaviours of a model, by TLC simulation"""
    rc, out = tlc(module, cfg, os.path.join(run, "gen"), args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
    seen, res = set(), []
    for line in out.splitlines():
        if line.startswith('"SCHED '):
            s = json.loads(json.loads(line)[6:])
            key = json.dumps(s[:-1])
            if key not in seen:
                seen.add(key)
                res.append(s)
    if rc or not res:
        print(out[-3000:])
        raise Broken("TLC produced no schedules")
    return res
