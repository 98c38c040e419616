"""The properties decided by scenario families: TLC model checking of the family's specification, scenarios (random, and
behaviours of the specification generated by TLC) driven through the real library, and TLC validation of what was recorded."""
import collections
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import time
from .common import *
from .families import FAMILIES


def drive(lib, run, tag, fam, seed, first, count, focus, sched=None, timeout=700):
    """COUNT scenarios spread over the cores; returns trace files"""
    files, procs = [], []
    for j in range(NPROC):
        n = (count - j + NPROC - 1) // NPROC
        if n <= 0:
            continue
        f = os.path.join(run, "%s_%d.nd" % (tag, j))
        e = open(f + ".err", "w+")
        cmd = [sys.executable, os.path.join(HARNESS, "scen.py"), lib, f, fam, str(seed), str(first + j), str(n), str(NPROC), focus] + ([sched] if sched else [])
        procs.append((subprocess.Popen(cmd, stderr=e, stdout=subprocess.DEVNULL, env=dict(os.environ, OMP_NUM_THREADS="1", PYTHONHASHSEED="0")), e))
        files.append(f)
    for p, e in procs:
        rc = p.wait(timeout=timeout)
        e.seek(0)
        err = e.read()
        e.close()
        if rc:
            print(err[-3000:])
            raise Broken("scenario driver failed")
        if err:
            log("the driver reports: " + err[-600:])
    return files


def again(lib, run, c, v):
    """drives and judges one scenario once more"""
    f = os.path.join(run, "again.nd")
    cmd = [sys.executable, os.path.join(HARNESS, "scen.py"), lib, f, c["family"], str(v["seed"]), str(v["session"]), "1", "1", v["focus"]] + ([v["sched"]] if v["sched"] else [])
    p = subprocess.run(cmd, stderr=subprocess.PIPE, text=True, env=dict(os.environ, OMP_NUM_THREADS="1", PYTHONHASHSEED="0"))
    if p.returncode:
        raise Broken("scenario driver failed: " + p.stderr[-2000:])
    _, viol = validate([f], c["module"] + ".tla", c["module"] + ".cfg", run)
    return f, viol


def check(prop, tier, seed, t0):
    c = FAMILIES[prop]
    quick = tier == "quick"
    want = set(c["labels"]) | {"crash"}
    run = scratch(prop)
    states = gen = 0
    scheds, sf = [], None
    with cf.ThreadPoolExecutor(3) as ex:
        lf = ex.submit(build_lib)
        mf = ex.submit(model_check, c["mc"][0], c["mc"][1] if quick else c["mc"][-1], run) if c.get("mc") else None
        gf = None
        if c.get("gen"):
            mod, cfg, depth = c["gen"]
            gf = ex.submit(tlc_schedules, run, c.get("ngen", 200) if quick else 10 * c.get("ngen", 200), seed, depth, mod, cfg)
        lib = lf.result()
        if mf:
            states, gen = mf.result()
        if gf:
            scheds = gf.result()
            sf = os.path.join(run, "scheds.json")
            with open(sf, "w") as f:
                for s in scheds:
                    f.write(json.dumps(s) + "\n")
            log("%d behaviours of the model generated by TLC" % len(scheds))
    events = sessions = lost = rounds = 0
    kinds, sample, samplen, mine = collections.Counter(), None, 0, []
    shapes = set()
    while True:
        s = seed + 1000 * rounds
        batches = [("r%d" % k, 0, n, None, fo) for k, (fo, n) in enumerate(c["runs"])]
        if sf:
            batches.insert(0, ("g", 100000 * (rounds + 1), len(scheds), sf, c.get("genfocus", c["runs"][0][0])))
        for tag, first, count, sched, focus in batches:
            files = drive(lib, run, tag, c["family"], s, first, count, focus, sched)
            n, viol = validate(files, c["module"] + ".tla", c["module"] + ".cfg", run)
            events += n
            sessions += count
            for f in files:
                h = []
                for line in open(f):
                    e = json.loads(line)
                    kinds[e["k"]] += 1
                    if e["k"] == "reset":
                        shapes.add(tuple(h))
                        h = []
                    h.append(hash(line))
                    if (sample is None or len(h) == 6 > samplen) and len(h) > 1 and len(line) < 3000:
                        samplen = len(h)
                        sample = json.loads(line)
                shapes.add(tuple(h))
            for v in viol:
                v.update(seed=s, sched=sched, focus=focus)
            mine = [v for v in viol if want & set(v["labels"])]
            for v in [v for v in viol if v not in mine][:3]:
                log("note: not this property: %s session %d %s" % (",".join(v["labels"]), v["session"], v["text"][:160]))
            if mine:
                break
        rounds += 1
        if mine or quick or time.time() - t0 > 540:
            break
    # a rejected scenario is driven and judged once more before it counts
    status = shown = 0
    known = known_findings(prop)
    tried = set()
    for v in mine:
        if v["session"] in tried or len(tried) >= 8:
            continue
        tried.add(v["session"])
        for attempt in range(2):
            f, ag = again(lib, run, c, v)
            ag = [a for a in ag if want & set(a["labels"])]
            if ag:
                break
        if not ag:
            log("session %d was not rejected again: ignored" % v["session"])
            continue
        a = ag[0]
        hit = [k for k in known if k["match"] in a["text"]]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["what"]))
            continue
        os.makedirs(EVID, exist_ok=True)
        rp = os.path.join(EVID, "replay-%s-%d.ndjson" % (prop, v["session"]))
        with open(rp, "w") as o:
            o.writelines(open(f).readlines()[:a["line"]])
        log("%s rejects the last event of %s: %s %s" % (c["module"], rp, ",".join(a["labels"]), a["text"][:300]))
        print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
        status = 1
        shown += 1
        if shown == 2:
            break
    cov = dict(traces_validated_against_impl=sessions, samples=[sample], events_validated=events, events_by_kind=dict(kinds),
               distinct_histories=len(shapes), tlc_generated_behaviours=len(scheds), rounds=rounds, trace_specification=c["module"] + ".tla", judged=sorted(c["labels"]))
    if states:
        cov.update(states=states, transitions=gen)
    else:
        cov.update(states=events, transitions=events)
    write_evidence(prop, tier, seed, "model_checking", cov, t0, shown, c.get("assume", []) + ["the drivers stay inside the documented use of the library (DESIGN.md, section Driving)"])
    if status == 0:
        log("%s held on %d scenarios, %d events" % (prop, sessions, events))
    shutil.rmtree(run, ignore_errors=True)
    return status
