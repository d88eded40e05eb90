#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N]: decides one property.

Rebuilds the conformance driver from /repo, records sessions with the real
library, has TLC check them against the specification, has TLC enumerate the
specification's own behaviours and replays those into the library.  Exit 0: the
property held on everything explored.  Exit 1: a line
"VIOLATION property=ID replay=PATH".  Anything else: no answer.
"""
import argparse
import concurrent.futures
import json
import os
import random
import shutil
import sys
import time
import traceback
import zlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import driver  # noqa: E402
import registry  # noqa: E402
import session  # noqa: E402
import tlc  # noqa: E402

VERIF = build.VERIF
HANG = 20.0


def outcome(ev):
    r = ev["r"]
    if ev["e"]:
        return "error:" + ev["e"]
    if isinstance(r, bool):
        return "true" if r else "false"
    return "value"


def commands_of(R, event):
    """The driver commands of the scenario the event belongs to, up to it."""
    first = [s for s, _ in R.scen if s <= event][-1]
    lo = R.where[first] - 1
    return R.drv.history[lo:R.where[event]]


def scenario_job(job):
    """Records some scenarios and checks them.  Returns a result dictionary."""
    exe, work, name, fn, feats, seed, count = job
    t0 = time.time()
    driver.Driver.reuse = zlib.crc32(name.encode()) % 2 == 1
    R = session.Recorder(exe, work, HANG)
    bad = None
    done = 0
    for i in range(count):
        P = session.Play(R, random.Random("%s/%s/%s" % (name, seed, i)), feats)
        R.begin(i)
        try:
            registry.SCENARIOS[fn](P)
        except driver.DriverCrash as x:
            if x.hung:
                # not merely a busy machine: once more, with more time
                cmds = R.drv.history[R.where[R.scen[-1][0]] - 1:]
                _, again = driver.replay(exe, cmds, 4 * HANG, work)
                if again is None:
                    R.forget()
                    continue
            bad = dict(kind="crash", what=str(x), stderr=x.stderr, scenario=i,
                       commands=R.drv.history[R.where[R.scen[-1][0]] - 1:])
            R.forget()
            break
        done += 1
    R.drv.close()
    res = dict(job=name, traces=done, events=len(R.events), states=0, transitions=0, counts={}, violation=None,
               error=None, samples=[])
    for ev in R.events:
        k = ev["op"] + " " + outcome(ev)
        res["counts"][k] = res["counts"].get(k, 0) + 1
    if R.events:
        trace, doms = R.write()
        try:
            m, gen = tlc.check_trace(trace, doms, work)
        except tlc.TlcError as x:
            m, gen = None, 0
            res["error"] = str(x)
        res["states"] = gen
        res["transitions"] = max(0, gen - 1)
        if m is not None:
            k = m["line"] - 1
            cmds = commands_of(R, k)
            if driver.Driver.reuse:
                cmds = R.drv.history[:R.where[k]]   # what was there before may matter
            again, crash = driver.replay(exe, cmds, HANG, work)
            d = [e for e in R.events[:k + 1] if e["op"] in ("load", "addobj", "delobj")]
            bad = dict(kind="mismatch", what="%s returned %s%s" % (m["event"]["op"], json.dumps(m["event"]["r"])[:2000],
                                                                  " (error %s)" % m["event"]["e"] if m["event"]["e"] else ""),
                       expected=m["expected"], event=m["event"], scenario=[l for s, l in R.scen if s <= k][-1],
                       commands=cmds, domain=R.doms[d[-1]["d"] - 1] if d else None,
                       reproduced="crash" if crash else "same answer again" if again and len(again) == len(cmds) else "?")
            res["error"] = None
        ks = [k for k in range(len(R.events)) if R.events[k]["op"] not in ("reset", "load")]
        if ks:
            r = random.Random(name)
            for k in sorted(r.sample(ks, min(2, len(ks)))):
                res["samples"].append({k2: v for k2, v in R.events[k].items()})
    res["violation"] = bad
    res["wall"] = time.time() - t0
    return res


def extra_job(job):
    exe, work, name, fn, arg, seed, tier = job
    driver.Driver.reuse = False
    t0 = time.time()
    os.makedirs(work, exist_ok=True)
    res = dict(job=name, traces=0, events=0, states=0, transitions=0, counts={}, violation=None, error=None, samples=[])
    try:
        out = registry.EXTRA[fn](exe, work, arg, seed, tier)
        res.update(out)
    except driver.DriverCrash as x:
        res["violation"] = dict(kind="crash", what=str(x), stderr=x.stderr, commands=getattr(x, "commands", [x.command]))
    except Exception:  # pylint: disable=broad-except
        res["error"] = traceback.format_exc()
    res["wall"] = time.time() - t0
    return res


def run_job(job):
    try:
        return (scenario_job if job[0] == "scen" else extra_job)(job[1:])
    except Exception:  # pylint: disable=broad-except
        return dict(job=str(job[3]), traces=0, events=0, states=0, transitions=0, counts={}, violation=None,
                    error=traceback.format_exc(), samples=[], wall=0)


def fresh_dir(path):
    assert path.startswith(os.path.join(VERIF, "work") + os.sep)
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    cid, tier = a.id, a.tier
    work = os.path.join(VERIF, "work", cid)
    fresh_dir(work)
    try:
        exe = {}
        for v in registry.variants(cid):
            try:
                exe[v] = build.build(v)
            except build.BuildError:
                # the alternative is the sources' own; nothing builds it by default
                if v != "alt":
                    raise
                exe[v] = exe["default"]
    except build.BuildError as x:
        print(x)
        return 2
    jobs = []
    for j in registry.jobs(cid, tier, a.seed):
        w = os.path.join(work, "j%03d" % len(jobs))
        if j["kind"] == "scen":
            jobs.append(("scen", exe[j.get("variant", "default")], w, j["name"], j["fn"], j.get("feats") or {},
                         a.seed, j["count"]))
        else:
            jobs.append(("extra", exe[j.get("variant", "default")], w, j["name"], j["fn"], j.get("arg"), a.seed, tier))
    results = []
    with concurrent.futures.ProcessPoolExecutor(a.jobs) as ex:
        for r in ex.map(run_job, jobs):
            results.append(r)
    violations = [r for r in results if r["violation"]]
    errors = [r for r in results if r["error"]]
    counts = {}
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
    samples = [s for r in results for s in r["samples"]]
    random.Random(a.seed).shuffle(samples)
    cov = dict(states=sum(r["states"] for r in results), transitions=sum(r["transitions"] for r in results),
               traces_validated_against_impl=sum(r["traces"] for r in results),
               library_calls=sum(r["events"] for r in results),
               samples=samples[:6], operations=dict(sorted(counts.items())),
               jobs=[dict(job=r["job"], traces=r["traces"], states=r["states"], transitions=r["transitions"],
                          wall_s=round(r["wall"], 1), **r.get("extra", {})) for r in results][:60])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as f:
        json.dump(dict(property=cid, tier=tier, seed=a.seed, level="model_checking", coverage=cov,
                       assumptions=registry.ASSUMPTIONS, wall_s=round(time.time() - t0, 2),
                       violations=len(violations)), f, indent=1)
    for k, r in enumerate(violations):
        path = os.path.join(work, "violation-%d.json" % k)
        with open(path, "w") as f:
            json.dump(dict(property=cid, job=r["job"], **r["violation"]), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (cid, path))
        print("  " + r["violation"]["what"][:600].replace("\n", "\n  "))
        if "expected" in r["violation"]:
            print("  expected: " + json.dumps(r["violation"]["expected"])[:600])
    for r in errors:
        print("ERROR in %s: %s" % (r["job"], r["error"][-3000:]))
    print("%s %s: %d traces, %d library calls, %d specification states, %d violations, %d errors, %.1f s" % (
        cid, tier, cov["traces_validated_against_impl"], cov["library_calls"], cov["states"], len(violations),
        len(errors), time.time() - t0))
    if not violations and not errors and os.environ.get("VERIF_KEEP") is None:
        fresh_dir(work)
    return 1 if violations else 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
