"""Write /verif/DESIGN.md from the texts here, the properties, the findings and the planted bugs (needs the environment of check.sh)."""
import json, sys, os, importlib, re
D = os.path.dirname(os.path.abspath(__file__)) + "/"
V = os.path.dirname(os.path.dirname(D[:-1]))
exec(open(D + "design_src.py").read())
props=[json.loads(l) for l in open(V + "/properties.jsonl")]
K=json.load(open(V + "/known_findings.json"))["findings"]
sys.path[:0]=[V + "/harness","/repo"]
SECS=json.load(open(D + "secs.json")) if os.path.exists(D + "secs.json") else {}
for p in props:
    e = f"{V}/evidence/{p['id']}.json"
    if "--secs" in sys.argv and os.path.exists(e):
        SECS[p["id"]] = round(json.load(open(e)).get("wall_s", 0)) or SECS.get(p["id"], "?")
json.dump(SECS, open(D + "secs.json", "w"), indent=0, sort_keys=True)
o=[]
w=o.append
w("""# Design

## Technique

Runtime monitoring of the real code, and nothing else. Every check imports `raster_tools` from /repo's working tree
(pure Python plus numba kernels that the run compiles itself, so there is nothing to rebuild; `harness/run.py` refuses
to run if the package imported is not the one under /repo), executes it under generated workloads and lets monitors judge
what they observe. No hooks were added to /repo: everything needed is observable at the library's boundaries (user
functions and models passed in, arrays that log their reads, dask's task callbacks, wrappers around the two dependency
calls that write files), so `hooks` is absent from MANIFEST.json.

Compiler sanitizers, Miri and thread sanitizers have no object here: the repository contains no compiled code of its own
(numba's generated code cannot be instrumented with what is installed). What takes their place:

* memory guarantees of numba kernels (which do not check bounds): kernels are judged by value on inputs whose windows
  and chunks touch every border, chunks down to one cell, windows larger than chunk or raster, and C21's heap is run as
  pure data structure against a model (growth and shrinking included). C30 runs the same kernels with numba's own bounds
  checker switched on (NUMBA_BOUNDSCHECK=1), the sanitizer that exists for this code.
* data races: results under a scheduler of ours (`Orderly` in `harness/props/c04.py`: random topological order, 1-4
  threads, random delays in front of tasks) are compared with a sequential evaluation; C11 does this to saves.
* faults: C12 injects them into tasks, reads, writes and the file system (RLIMIT_FSIZE in a child process) and checks the
  trace of error events against what the caller was told.

### Harness

* `harness/core.py`: case runner. A case is a pure function of (VERIF_SEED, property, family, index), so a violation is
  replayed with `bash check.sh CXX --replay FILE`. Monitors call `ctx.check(cond, key, msg)`; `ctx.count()` feeds the
  evidence (events seen, cells compared, distinct orders ...). Counters named in a module's REQUIRED must be non-zero,
  otherwise the run gives no verdict (exit 2) instead of a vacuous pass. A case that hangs is killed and reported; a
  crash of the interpreter is a violation.
* `harness/gen.py`: rasters of every dtype, null pattern and null value, optionally with junk stored under null cells,
  with their model (plain numpy values + mask + grid), chunk layouts from one chunk to single cells; `check_wellformed`.
* `harness/ops.py`: catalogue of public operations with argument generators, shared by C03-C06.
* `harness/vec.py`: features, partitions, exact shapely predicates. `harness/props/cXX.py`: one property each.
* `known_findings.json`: findings (see below). `tools/gen_properties.py` and `tools/gen_manifest.py` write
  `properties.jsonl` and `MANIFEST.json`.

Quick tier: the counts below, all cores, seconds given per check on the idle 8-core sandbox. Thorough: 10-30 times more
cases, time limit 90 min. Nothing is enumerated exhaustively; all claims have level `exploration`.

Checks judge behaviour only: outcomes of public calls, user callbacks and files. Private names are used only for the
priority queue and numpy entry of C21 (a missing private name makes that family skip, not fail).

## Per property

""")
for p in props:
    i=p["id"]
    if i not in P or not P[i][0]: continue
    mod=importlib.import_module("props."+i.lower())
    fam=", ".join(f"{k} {v[1]}/{v[2]}" for k,v in mod.FAMILIES.items())
    a,b,c,dd=P[i]
    w(f"### {i} {p['title']}\n\n* Monitored: {a}\n* Oracle: {b}\n* Beyond the tests: {c}\n* Bounds/exclusions: {dd}\n* Cases quick/thorough: {fam}. Cost quick: {SECS.get(i,'?')} s.\n\n")
w(open(D + "design_notes.md").read())
w("\n## Findings\n\nGenuine defects found by the checks and repaired (each a `fix:` commit, the check fails on its parent):\n\n")
for f in K:
    if f["status"]=="fixed": w("* "+re.sub(r"^fixed: property=(\w+) (\w+) ",r"\1 (\2): ",f["what"])+"\n")
w("\nRecorded, not repaired (printed as KNOWN-FINDING):\n\n")
for f in K:
    if f["status"]=="known": w(f"* {f['property']} `{f['key']}`: {f['what']}\n")
w("\n## Planted bugs\n\nEach passes the stable tests and has a demonstration. 'missed first' names what was strengthened.\n\n| bug | property | caught by quick check | note |\n|---|---|---|---|\n")
N=json.load(open(D + "bugnotes.json")) if os.path.exists(D + "bugnotes.json") else {}
for s in sorted(os.listdir(V + "/seeded")):
    m=json.load(open(f"{V}/seeded/{s}/meta.json"))
    n=N.get(s,{})
    w(f"| {s} | {m['property']} | {n.get('caught','yes')} | {m['what_it_breaks']}{' — '+n['note'] if n.get('note') else ''} |\n")
w(open(D + "design_tail.md").read())
open(V + "/DESIGN.md","w").write("".join(o))
