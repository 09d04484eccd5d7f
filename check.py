#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide a property.   check.py --replay FILE: run a failing scenario again."""
import concurrent.futures as cf
import glob
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
import props


def load_known():
    known = []
    path = os.path.join(vlib.VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                known.append(json.loads(line[len("finding: "):]))
    return known


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = props.PROPS[pid]
    scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    try:
        return _check(pid, prop, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check(pid, prop, tier, seed, scratch, t0):
    evdir = os.path.join(vlib.VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    pool = cf.ThreadPoolExecutor(3)
    mcs = prop["mc"][tier] if isinstance(prop["mc"], dict) else prop["mc"]
    mc_jobs = [pool.submit(vlib.model_check, m, c, scratch, 3) for (m, c) in mcs]
    rnd = random.Random(f"{pid}-{seed}")
    fams = prop["families"](rnd, tier, seed, scratch)
    known = [k for k in load_known() if k["property"] == pid]
    violations, seen_known = [], {}
    n_traces = n_events = tr_states = tr_trans = 0
    samples, distinct = [], set()
    next_id = 1
    covered = {}
    for fam in fams:
        scens = fam["scens"]
        for s in scens:
            s["id"] = next_id
            next_id += 1
        by_id = {s["id"]: s for s in scens}
        traces = vlib.drive(fam["driver"], scens, scratch, env=fam.get("env"), shards=fam.get("shards", 6))
        tl = [traces[i] for i in sorted(traces)]
        clean = []
        for t in tl:
            clean.append({"id": t["id"], "cfg": t["cfg"], "ev": [trim(e) for e in t["ev"]]})
        verdicts, st = vlib.validate(fam["spec"], clean, scratch, cfg=fam.get("cfg"))
        n_traces += len(tl)
        tr_states += st["states"]
        tr_trans += st["transitions"]
        for t in tl:
            n_events += len(t["ev"])
            for e in t["ev"]:
                covered[e["k"]] = covered.get(e["k"], 0) + 1
            distinct.add(json.dumps(t["ev"], sort_keys=True))
            acc, line, clauses = verdicts[t["id"]]
            if acc:
                continue
            sc = by_id[t["id"]]
            v = dict(property=pid, family=fam["driver"], spec=fam["spec"], clauses=clauses, line=line,
                     event=t["ev"][line - 1] if line <= len(t["ev"]) else {}, scenario=sc, env=fam.get("env"),
                     trace=t["ev"])
            k = next((k for k in known if known_match(k, v)), None)
            if k:
                seen_known.setdefault(k["what"], 0)
                seen_known[k["what"]] += 1
            else:
                violations.append(v)
        if tl:
            big = max(tl, key=lambda t: len(t["ev"]))
            samples.append({"driver": fam["driver"], "scenario": by_id[big["id"]], "events": len(big["ev"]),
                            "first_events": big["ev"][:6], "verdict": "ACCEPT" if verdicts[big["id"]][0] else "REJECT"})
    mc_res = [j.result() for j in mc_jobs]
    for k in known:
        if k["what"] in seen_known:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    replay = None
    rdir = os.path.join(evdir, "replay")
    for old in glob.glob(os.path.join(rdir, f"{pid}_*.json")):
        os.remove(old)
    if violations:
        os.makedirs(rdir, exist_ok=True)
        for n, v in enumerate(violations[:5]):
            path = os.path.join(rdir, f"{pid}_{n}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            replay = replay or path
        v = violations[0]
        print(f"{len(violations)} of {n_traces} traces rejected; first: clauses {v['clauses']} at event {v['line']}: {json.dumps(v['event'])[:1500]}")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(m["states"] for m in mc_res),
            "transitions": sum(m["transitions"] for m in mc_res),
            "model_checked": mc_res,
            "traces_validated_against_impl": n_traces,
            "distinct_traces": len(distinct),
            "events_validated": n_events,
            "events_by_kind": covered,
            "trace_validation_states": tr_states,
            "families": [{"driver": f["driver"], "spec": f["spec"], "scenarios": len(f["scens"]), "rule": f["rule"]} for f in fams],
            "samples": samples,
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(evdir, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violations:
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    print(f"{pid} holds: {n_traces} traces ({n_events} events) accepted, {ev['coverage']['states']} states of the design, {ev['wall_s']} s")
    return 0


def trim(e):
    """The message of an unexpected error is for people, not for TLC"""
    if e["k"] in ("exc", "hang", "crash"):
        return {"k": e["k"]}
    return e


def known_match(k, v):
    if k.get("clauses") and set(k["clauses"]) != set(v["clauses"]):
        return False
    tag = v["scenario"].get("tag")
    return k.get("tag") == tag and tag is not None


def replay(path):
    v = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        traces = vlib.drive(v["family"], [v["scenario"]], scratch, env=v.get("env"))
        t = list(traces.values())[0]
        for n, e in enumerate(t["ev"], 1):
            print(n, json.dumps(e))
        verdicts, _ = vlib.validate(v["spec"], [{"id": t["id"], "cfg": t["cfg"], "ev": [trim(e) for e in t["ev"]]}], scratch)
        acc, line, clauses = verdicts[t["id"]]
        print("ACCEPT" if acc else f"REJECT at event {line}: {clauses}")
        return 0 if acc else 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        rc = check(sys.argv[1], tier)
    except vlib.Machinery as ex:
        print("ERROR of the check:", ex)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
