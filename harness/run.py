"""run.py PROP [--tier quick|thorough] [--replay FILE] [--family F] [--only I] [--scale S]"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("RT_REPO", "/repo")
sys.path.insert(0, REPO)
VERIF = os.path.dirname(HERE)

CASE_TIMEOUT = float(os.environ.get("RT_CASE_TIMEOUT", "150"))


def load(prop):
    return importlib.import_module("props." + prop.lower())


def worker(a):
    import core
    import faulthandler

    faulthandler.enable()
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)  # library chatter must not corrupt the protocol
    import raster_tools

    f = os.path.realpath(raster_tools.__file__)
    if not f.startswith(os.path.realpath(REPO) + "/"):
        out.write(json.dumps({"fatal": f"raster_tools imported from {f}"}) + "\n")
        return 2
    import dask

    dask.config.set(scheduler="sync")
    mod = load(a.prop)
    cases = make_cases(mod, a.tier, a.scale)
    if a.family:
        cases = [c for c in cases if c[0] in a.family.split(',')]
    deadline = time.time() + a.budget
    group = getattr(mod, "GROUP", None)  # cases that share compiled kernels go to one worker
    start = getattr(mod, "setup", None)
    if start:
        start()
    for n, (fam, i) in enumerate(cases):
        if (group(fam, i) if group else n) % a.nworkers != a.worker:
            continue
        if time.time() > deadline:
            out.write(json.dumps({"truncated": True}) + "\n")
            break
        out.write(json.dumps({"start": [fam, i]}) + "\n")
        r = core.run_case(mod, fam, i, a.seed, a.tier)
        out.write(json.dumps(r, default=str) + "\n")
    out.write(json.dumps({"done": True}) + "\n")
    out.flush()
    os._exit(0)  # do not wait for stray dask/numba threads


def make_cases(mod, tier, scale=1.0):
    per = {}
    for fam, (fn, q, t) in mod.FAMILIES.items():
        n = q if tier == "quick" else t
        per[fam] = max(1, int(round(n * scale)))
    cases = []
    # interleave the families so that a truncated run still covers all of them
    tot = max(per.values())
    for i in range(tot):
        for fam, n in per.items():
            if i < n:
                cases.append((fam, i))
    # deal out so that one family does not always land on one worker
    import random

    random.Random(12345).shuffle(cases)
    return cases


def main():
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    p.add_argument("--replay")
    p.add_argument("--family")
    p.add_argument("--only", type=int)
    p.add_argument("--scale", type=float, default=1.0)
    p.add_argument("--workers", type=int, default=int(os.environ.get("RT_WORKERS") or 0))
    p.add_argument("--worker", type=int)
    p.add_argument("--nworkers", type=int)
    p.add_argument("--budget", type=float, default=0)
    p.add_argument("--no-evidence", action="store_true")
    a = p.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if not a.budget:
        a.budget = 420.0 if a.tier == "quick" else 5400.0
    if a.worker is not None:
        return worker(a)
    if a.replay or a.only is not None:
        return replay(a)

    t0 = time.time()
    nw = a.workers or min(8, os.cpu_count() or 4)
    procs, results, problems = [], [], []
    lock = threading.Lock()
    state = {}

    def pump(w, proc):
        for line in proc.stdout:
            try:
                r = json.loads(line)
            except ValueError:
                continue
            with lock:
                if "start" in r:
                    state[w] = (r["start"], time.time())
                elif "done" in r:
                    state[w] = ("done", time.time())
                elif "truncated" in r:
                    problems.append(("truncated", w))
                elif "fatal" in r:
                    problems.append(("fatal", r["fatal"]))
                else:
                    state[w] = (None, time.time())
                    results.append(r)

    threads = []
    errlogs = []
    import tempfile

    for w in range(nw):
        cmd = [sys.executable, os.path.abspath(__file__), a.prop, "--tier", a.tier,
               "--seed", str(a.seed), "--worker", str(w), "--nworkers", str(nw),
               "--budget", str(a.budget), "--scale", str(a.scale)]
        if a.family:
            cmd += ["--family", a.family]
        err = tempfile.TemporaryFile(mode="w+")
        errlogs.append(err)
        pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=err, text=True, start_new_session=True,
                              env={**os.environ, **environment(a.prop, w)})
        state[w] = (None, time.time())
        th = threading.Thread(target=pump, args=(w, pr), daemon=True)
        th.start()
        procs.append(pr)
        threads.append(th)
    mod = load_light(a.prop)
    killed = {}
    while any(pr.poll() is None for pr in procs):
        time.sleep(0.2)
        with lock:
            for w, pr in enumerate(procs):
                st, ts = state[w]
                if pr.poll() is None and isinstance(st, list) and time.time() - ts > CASE_TIMEOUT:
                    killed[w] = st
                    try:
                        os.killpg(pr.pid, 9)
                    except ProcessLookupError:
                        pass
    for th in threads:
        th.join(5)
    for w, pr in enumerate(procs):
        st, ts = state[w]
        if st == "done":
            continue
        if w in killed:
            results.append({"family": st[0], "index": st[1], "status": "violation", "key": f"hang:{st[0]}",
                            "msg": f"the case did not finish within {CASE_TIMEOUT:.0f}s", "counters": {}, "sig": f"hang{w}",
                            "nontrivial": True, "desc": "", "wall": CASE_TIMEOUT})
        elif isinstance(st, list) and pr.returncode not in (0, None) and pr.returncode < 0:
            errlogs[w].seek(0)
            results.append({"family": st[0], "index": st[1], "status": "violation", "key": f"crash:{st[0]}",
                            "msg": f"the process died with signal {-pr.returncode}: {errlogs[w].read()[-1500:]}", "counters": {}, "sig": f"crash{w}",
                            "nontrivial": True, "desc": "", "wall": 0})
        else:
            errlogs[w].seek(0)
            problems.append(("worker", f"worker {w} ended with {pr.returncode}: {errlogs[w].read()[-3000:]}"))
    return report(a, mod, results, problems, t0)


def environment(prop, w):
    """Variables the workers of this check are started with (they act when the process or numba starts)."""
    return getattr(load(prop), "ENV", lambda w: {})(w)


def load_light(prop):
    return load(prop)


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k.get("status") == "known"]


def report(a, mod, results, problems, t0):
    prop = mod.PROP
    known = known_findings(prop)
    known_keys = {k["key"]: k for k in known}
    rank = {"violation": 0}
    results.sort(key=lambda r: (r["family"], r["index"]))
    viol = [r for r in results if r["status"] == "violation"]
    errors = [r for r in results if r["status"] == "error"]
    new = [r for r in viol if r["key"] not in known_keys]
    hit_known = {}
    for r in viol:
        if r["key"] in known_keys:
            hit_known.setdefault(r["key"], r)
    counters = {}
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
    done = [r for r in results if r["status"] in ("ok", "violation")]
    nontriv = {r["sig"] for r in done if r["nontrivial"]}
    fams = {}
    for r in results:
        f = fams.setdefault(r["family"], {"run": 0, "skipped": 0, "nontrivial": 0, "wall_s": 0.0})
        f["run"] += r["status"] != "skip"
        f["skipped"] += r["status"] == "skip"
        f["nontrivial"] += bool(r["nontrivial"])
        f["wall_s"] = round(f["wall_s"] + r["wall"], 2)
    samples = []
    seen = set()
    for r in done:
        if r["nontrivial"] and r["desc"] and r["family"] not in seen:
            seen.add(r["family"])
            samples.append({"family": r["family"], "index": r["index"], "case": r["desc"]})
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": len(done), "distinct_nontrivial": len(nontriv),
            "rule": mod.RULE, "samples": samples[:12] or [{"note": "no non-trivial case"}],
            "families": fams, "monitor_counters": dict(sorted(counters.items())),
            "truncated_workers": sum(1 for p in problems if p[0] == "truncated"),
            "verdict": f"held on {len(done)} monitored executions" if not new else "violated",
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for k in known:
        if k["key"] in hit_known:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    shown = {}
    for r in new:
        if r["key"] in shown:
            shown[r["key"]] += 1
            continue
        shown[r["key"]] = 1
        rp = os.path.join(VERIF, "evidence", f"replay_{prop}_{len(shown)}.json")
        if len(shown) > 25:
            continue
        try:
            with open(rp, "w") as f:
                json.dump({"property": prop, "seed": a.seed, "tier": a.tier, **r}, f, indent=1, default=str)
        except OSError:
            pass
        print(f"VIOLATION property={prop} replay={rp}")
        print(f"  key={r['key']} family={r['family']} index={r['index']}: {r['msg'][:600]}")
        if r.get("desc"):
            print(f"  case: {r['desc'][:600]}")
        for k, v in (r.get("details") or {}).items():
            print(f"  {k}: {str(v)[-900:]}")
    for k, n in shown.items():
        if n > 1:
            print(f"  ({n} cases with key {k})")
    missing = [c for c in getattr(mod, "REQUIRED", []) if not counters.get(c)]
    print(f"{prop} [{a.tier} seed={a.seed}] {len(done)} executions, {len(nontriv)} distinct non-trivial, "
          f"{sum(r['status'] == 'skip' for r in results)} skipped, {len(errors)} harness errors, {len(new)} violations, "
          f"{time.time() - t0:.1f}s")
    if new:
        return 1
    for e in errors[:3]:
        print("HARNESS-ERROR", e["family"], e["index"], e["msg"])
    for pr in problems:
        if pr[0] != "truncated":
            print("HARNESS-PROBLEM", pr[0], pr[1])
    if missing:
        print("INCONCLUSIVE: monitors never reached:", missing)
    if errors or missing or any(p[0] != "truncated" for p in problems):
        return 2
    if any(p[0] == "truncated" for p in problems):
        print("note: time budget reached, the run was cut short (see evidence)")
    return 0


def replay(a):
    import core
    import dask

    fam, idx = a.family, a.only
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        fam, idx, a.seed, a.tier = r["family"], r["index"], r["seed"], r["tier"]
    env = environment(a.prop, idx)
    if any(os.environ.get(k) != v for k, v in env.items()):
        os.execve(sys.executable, [sys.executable, *sys.argv], {**os.environ, **env})
    dask.config.set(scheduler="sync")
    mod = load(a.prop)
    if getattr(mod, "setup", None):
        mod.setup()
    r = core.run_case(mod, fam, idx, a.seed, a.tier)
    for k, v in r.items():
        if k == "details":
            for k2, v2 in (v or {}).items():
                print(f"  {k2}: {v2}")
        else:
            print(f"{k}: {v}")
    return 1 if r["status"] == "violation" else (2 if r["status"] == "error" else 0)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc or 0)
