"""Running TLC and the drivers, and collecting their results."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar"
CP = JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """The check itself failed (nothing is said about the property)"""


def tlc(module, cfg, scratch, env=None, args=(), workers=4, heap="3g", timeout=800):
    md = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + md, "-cp", CP, "tlc2.TLC",
           "-config", cfg, "-metadir", md, "-noGenerateSpecTE", "-workers", str(workers), *args, module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise Machinery(f"TLC timed out on {module} {cfg}") from ex
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout


_COUNT = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)


def model_check(module, cfg, scratch, workers=4, timeout=800):
    """Exhaustive check of the design: all of its invariants and properties"""
    rc, out = tlc(module + ".tla", cfg, scratch, workers=workers, timeout=timeout)
    m = _COUNT.findall(out)
    if rc != 0 or not m or "No error has been found" not in out:
        raise Machinery(f"model checking {module} with {cfg} failed:\n{out[-3000:]}")
    gen, distinct = map(int, m[-1])
    return dict(module=module, config=cfg, transitions=gen, states=distinct)


def generate(module, cfg, scratch, num, depth, seed):
    """Behaviours of the specification, by simulation"""
    rc, out = tlc(module + ".tla", cfg, scratch, workers=1, timeout=300,
                  args=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)))
    res = []
    for line in out.splitlines():
        if line.startswith('"SCEN '):
            res.append(json.loads(json.loads(line)[5:]))
    if rc != 0 or not res:
        raise Machinery(f"no behaviours from {module} {cfg}:\n{out[-3000:]}")
    return res


def enumerate_all(module, cfg, scratch):
    """Every behaviour that a (bounded) generator prints"""
    rc, out = tlc(module + ".tla", cfg, scratch, workers=4, timeout=300)
    res = []
    for line in out.splitlines():
        if line.startswith('"SCEN '):
            res.append(json.loads(json.loads(line)[5:]))
    if rc != 0 or not res:
        raise Machinery(f"no behaviours from {module} {cfg}:\n{out[-3000:]}")
    res.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return res


def drive(driver, scens, scratch, shards=6, timeout=300, env=None):
    """Run the scenarios in the real code.  Returns id -> trace"""
    shards = max(1, min(shards, len(scens)))
    e = dict(os.environ, PYTHONHASHSEED="0", TQDM_DISABLE="1", PYTHONDONTWRITEBYTECODE="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    e.pop("PYTHONPATH", None)
    e.pop("SOIL_DEBUG", None)
    e.update(env or {})
    traces = {}

    def one(ix):
        part = scens[ix::shards]
        sf = os.path.join(scratch, f"{driver}_{ix}_scen.json")
        of = os.path.join(scratch, f"{driver}_{ix}_out.ndjson")
        with open(sf, "w") as f:
            json.dump(part, f)
        tail = ""
        p = subprocess.Popen([PY, os.path.join(HARNESS, driver + ".py"), sf, of], cwd=scratch, env=e,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                             start_new_session=True)
        try:
            tail, _ = p.communicate(timeout=timeout)
            why = f"driver ended with code {p.returncode}"
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            why = "timeout"
        got = []
        if os.path.exists(of):
            for line in open(of):
                try:
                    got.append(json.loads(line))
                except ValueError:
                    pass
        return part, got, why, tail or ""

    problems = []
    with cf.ThreadPoolExecutor(shards) as ex:
        for part, got, why, tail in ex.map(one, range(shards)):
            for t in got:
                traces[t["id"]] = t
            missing = [s for s in part if s["id"] not in traces]
            if missing:
                # The first one without a trace is the one that brought the driver down
                if got or why == "timeout":
                    s = missing[0]
                    traces[s["id"]] = {"id": s["id"], "cfg": s.get("cfg", {}), "ev": [
                        {"k": "hang" if why == "timeout" else "crash", "m": why + ": " + tail[-600:]}]}
                else:
                    problems.append(why + "\n" + tail[-3000:])
    if problems and not traces:
        raise Machinery(f"driver {driver} does not run: {problems[0]}")
    return traces


_VERDICT = re.compile(r'^<<"VERDICT", (-?\d+), "(ACCEPT|REJECT)", (\d+), (.*)>>$', re.M)


def validate(module, traces, scratch, cfg=None, workers=4, timeout=800, heap="4g"):
    """Check the traces with TLC.  Returns id -> (accepted, line, clauses), stats.

    A trace with values that the specification cannot even compare (TLC fails to
    evaluate it) is looked for, and counts as rejected; but if TLC does not work
    for a trace without events, the failure is ours."""
    try:
        return _validate(module, traces, scratch, cfg, workers, timeout, heap)
    except Machinery as ex:
        if "timed out" in str(ex):
            raise
        first = ex
    try:
        _validate(module, [dict(traces[0], ev=[])], scratch, cfg, workers, timeout, heap)
    except Machinery:
        raise first
    verdicts, stats = {}, dict(transitions=0, states=0)
    todo, bad = [traces], 0
    while todo:
        part = todo.pop()
        if bad >= 3:
            break
        try:
            v, st = _validate(module, part, scratch, cfg, workers, timeout, heap)
            verdicts.update(v)
            for k in stats:
                stats[k] += st[k]
        except Machinery as ex:
            if len(part) > 1:
                todo += [part[len(part) // 2:], part[:len(part) // 2]]
            else:
                bad += 1
                verdicts[part[0]["id"]] = (False, len(part[0]["ev"]), ["values-outside-the-specification"])
    for t in traces:
        verdicts.setdefault(t["id"], (True, 0, []))
    return verdicts, stats


def _validate(module, traces, scratch, cfg=None, workers=4, timeout=800, heap="4g"):
    tf = tempfile.mktemp(prefix="traces_", suffix=".ndjson", dir=scratch)
    with open(tf, "w") as f:
        for t in traces:
            f.write(json.dumps(t) + "\n")
    rc, out = tlc(module + ".tla", (cfg or module + ".cfg"), scratch, env={"TRACE_FILE": tf},
                  workers=workers, timeout=timeout, heap=heap)
    verdicts = {}
    # TLC breaks long values into several lines
    flat = re.sub(r"\n\s+", " ", out)
    flat = re.sub(r"<< ", "<<", flat)
    flat = re.sub(r" >>", ">>", flat)
    for (i, v, l, cl) in _VERDICT.findall(flat):
        i = int(i)
        names = re.findall(r'"([^"]*)"', cl)
        new = (v == "ACCEPT", int(l), names)
        old = verdicts.get(i)
        # accepted if some behaviour of the specification explains the trace
        if old is None or (not old[0] and (new[0] or new[1] > old[1])):
            verdicts[i] = new
    m = _COUNT.findall(out)
    missing = [t["id"] for t in traces if t["id"] not in verdicts]
    if rc != 0 or missing or not m:
        raise Machinery(f"validation with {module} failed (rc={rc}, {len(missing)} without verdict):\n" + out[-4000:])
    return verdicts, dict(transitions=int(m[-1][0]), states=int(m[-1][1]))
