"""The session properties: TLC model checking of Session.tla, TLC-generated and random schedules driven through the real
library, and TLC validation of the recorded histories against Session.tla."""
import collections
import json
import os
import shutil
import subprocess
import sys
import time
from .common import *

WANT = {"C01": "undo-exact", "C02": "redo-exact", "C03": "undo-stack", "C04": "isolation", "C05": "failure-atomic",
        "C06": "query-readonly", "C07": "calls-return", "C08": "history-free"}
# sessions (random, from TLC) and focus of the random schedules of the quick check
FOCUS = {"C01": "", "C02": "", "C03": "stack", "C04": "multi", "C05": "fail", "C06": "query", "C07": "fail", "C08": "twin"}


def drive(lib, run, tag, seed, first, count, sched=None, focus="", timeout=600):
    """COUNT sessions spread over the cores; returns trace files"""
    files, procs = [], []
    for j in range(NPROC):
        n = (count - j + NPROC - 1) // NPROC
        if n <= 0:
            continue
        f = os.path.join(run, "%s_%d.nd" % (tag, j))
        cmd = [sys.executable, os.path.join(HARNESS, "session.py"), lib, f, str(seed), str(first + j), str(n), str(NPROC)] + ([sched] if sched else [])
        procs.append(subprocess.Popen(cmd, stderr=subprocess.PIPE, text=True, env=dict(os.environ, OMP_NUM_THREADS="1", FOCUS=focus)))
        files.append(f)
    for p in procs:
        _, err = p.communicate(timeout=timeout)
        if p.returncode:
            print(err[-3000:])
            raise Broken("session driver failed")
        if err:
            log("the driver gave up on a session: " + err[-400:])
    return files


def one_batch(lib, run, tag, seed, first, count, sched, focus):
    files = drive(lib, run, tag, seed, first, count, sched, focus)
    n, viol = validate(files, "SessionTrace.tla", "SessionTrace.cfg", run)
    for v in viol:
        v.update(seed=seed, sched=sched, focus=focus)
    return files, n, viol


def context(v, lines=14):
    """the calls leading to a violation"""
    ev = [json.loads(x) for x in open(v["file"])]
    i = v["line"] - 1
    lo = i
    while lo > 0 and ev[lo]["k"] != "reset":
        lo -= 1
    return ev[lo:i + 1]


def check(prop, tier, seed, t0):
    want, focus = WANT[prop], FOCUS[prop]
    run = scratch(prop)
    lib = build_lib()
    states, gen = model_check("SessionMC.tla", "SessionMC.cfg" if tier == "quick" else "SessionMCDeep.cfg", run)
    num = 150 if tier == "quick" else 600
    scheds = tlc_schedules(run, num, seed)
    sf = os.path.join(run, "scheds.json")
    with open(sf, "w") as f:
        for s in scheds:
            f.write(json.dumps(s) + "\n")
    log("%d behaviours of the model generated by TLC" % len(scheds))
    events, sessions, kinds, edits, found, sample = 0, 0, collections.Counter(), set(), [], None
    seen = set()
    rounds = 0
    while True:
        s = seed + 1000 * rounds
        for tag, first, count, sched in (("g", 10000, len(scheds), sf), ("r", 0, 1200, None)):
            files, n, viol = one_batch(lib, run, tag, s, first, count, sched, focus)
            events += n
            sessions += count
            for f in files:
                h = []
                for line in open(f):
                    e = json.loads(line)
                    kinds[e["k"]] += 1
                    if e["k"] == "edit":
                        edits.add(e["n"])
                    if e["k"] == "reset":
                        if len(h) > 6:
                            seen.add(tuple(h))
                        h = []
                    h.append((e["k"], e["n"], e["rc"]))
                    if sample is None and len(h) == 25:
                        sample = ["%s %s id=%d rc=%d" % (x["k"], x["n"], x["id"], x["rc"]) for x in map(json.loads, open(f).read().split("\n")[:25])]
                seen.add(tuple(h))
            found += viol
            mine = [v for v in viol if want in v["labels"]]
            other = [v for v in viol if want not in v["labels"]]
            for v in other[:3]:
                log("note: not this property: %s session %d %s" % (",".join(v["labels"]), v["session"], v["text"][:160]))
            if mine:
                break
        rounds += 1
        if mine or tier == "quick" or time.time() - t0 > 540:
            break
    # a rejected history is driven and judged once more before it counts
    status, shown = 0, 0
    known = known_findings(prop)
    for v in mine[:6]:
        for attempt in range(3):
            f = drive_one(lib, run, v)
            _, again = validate([f], "SessionTrace.tla", "SessionTrace.cfg", run)
            again = [a for a in again if want in a["labels"]]
            if again:
                break
        if not again:
            log("session %d was not rejected again: ignored" % v["session"])
            continue
        hit = [k for k in known if k["match"] in again[0]["text"]]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["what"]))
            continue
        rp = os.path.join(EVID, "replay-%s-%d.ndjson" % (prop, v["session"]))
        os.makedirs(EVID, exist_ok=True)
        shutil.copy(f, rp)
        for e in context(again[0])[-8:]:
            log("   %s %s id=%d rc=%d obs=%s undo/redo=%s" % (e["k"], e["n"], e["id"], e["rc"], e["obs"], e["cnt"]))
        log("   " + again[0]["text"][:600])
        print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
        status = 1
        shown += 1
        if shown == 2:
            break
    cov = dict(states=states, transitions=gen, traces_validated_against_impl=sessions, samples=[sample], events_validated=events,
               events_by_kind=dict(kinds), distinct_editing_calls=len(edits), distinct_histories=len(seen), tlc_generated_behaviours=len(scheds), rounds=rounds)
    write_evidence(prop, tier, seed, "model_checking", cov, t0, shown,
                   ["the drivers stay inside the documented use of the library (DESIGN.md, section Driving)", "content is observed through the C API"])
    if status == 0:
        log("%s held on %d sessions, %d calls" % (prop, sessions, events))
    shutil.rmtree(run, ignore_errors=True)
    return status


def drive_one(lib, run, v):
    f = os.path.join(run, "again.nd")
    cmd = [sys.executable, os.path.join(HARNESS, "session.py"), lib, f, str(v["seed"]), str(v["session"]), "1", "1"] + ([v["sched"]] if v["sched"] else [])
    p = subprocess.run(cmd, stderr=subprocess.PIPE, text=True, env=dict(os.environ, OMP_NUM_THREADS="1", FOCUS=v["focus"]))
    if p.returncode:
        raise Broken("session driver failed: " + p.stderr[-2000:])
    return f
