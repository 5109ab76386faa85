"""vpy.check Pxx: verify one property against /repo's current source.

exit 0: every contract obligation discharged (or, for what the prover could
not decide, the bounded runtime contract check found nothing);
exit 1 + VIOLATION line otherwise."""
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.join(os.environ.get("VPY_REPO", "/repo"), "scikit-topt")


def _child(conn, kind, job, scratch):
    os.setpgid(0, 0)
    d = tempfile.mkdtemp(prefix="job", dir=scratch)
    os.chdir(d)
    log = open(os.path.join(d, "log.txt"), "w")
    os.dup2(log.fileno(), 1)
    os.dup2(log.fileno(), 2)
    try:
        if kind == "unit":
            from . import unit as U
            r = U.run_unit(job).todict()
        else:
            prop, name, fn, seed, tier = job
            sys.path.insert(0, REPO)
            from . import runtime
            r = runtime.run_group(prop, name, fn, seed, tier)
    except BaseException as e:
        r = {"crash": f"{type(e).__name__}: {e}",
             "tb": traceback.format_exc()[-1500:]}
    conn.send(json.loads(json.dumps(r, default=str)))
    conn.close()
    log.flush()
    os._exit(0)


def run_jobs(jobs, scratch, nproc):
    """jobs: list of (key, kind, payload, timeout) -> {key: result}"""
    ctx = mp.get_context("fork")
    pend = list(jobs)
    run = {}
    out = {}
    while pend or run:
        while pend and len(run) < nproc:
            key, kind, job, to = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, kind, job, scratch))
            p.start()
            b.close()
            run[key] = (p, a, time.time() + to, time.time())
        for key in list(run):
            p, a, dl, t0 = run[key]
            got = None
            if a.poll(0.02):
                try:
                    got = a.recv()
                except EOFError:
                    got = {"crash": "worker died"}
            elif not p.is_alive():
                got = {"crash": f"worker died (exit {p.exitcode})"}
                if a.poll(0.05):
                    try:
                        got = a.recv()
                    except EOFError:
                        pass
            elif time.time() > dl:
                got = {"crash": "time limit"}
            if got is not None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.join(5)
                got["job_wall"] = round(time.time() - t0, 2)
                out[key] = got
                del run[key]
    return out


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main(argv=None):
    argv = argv or sys.argv[1:]
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    replay = None
    verbose = False
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 1
        elif argv[i] == "--only":
            only = argv[i + 1]
            i += 1
        elif argv[i] == "--replay":
            replay = argv[i + 1]
            i += 1
        elif argv[i] == "-v":
            verbose = True
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"vpy_{prop}_")
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba")
    os.environ["HOME"] = scratch
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.environ["VPY_SCRATCH"] = scratch
    os.makedirs(os.environ["NUMBA_CACHE_DIR"])
    try:
        return _main(prop, tier, seed, only, replay, verbose, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(prop, tier, seed, only, replay, verbose, scratch, t0):
    if replay:
        rp = json.load(open(replay))
        seed, tier = rp.get("seed", seed), rp.get("tier", tier)
        only = rp.get("only", only)
    mod = importlib.import_module(f"props.{prop}")
    units = [u for u in getattr(mod, "UNITS", [])]
    groups = list(getattr(mod, "RUNTIME", []))
    if tier == "thorough":
        units += list(getattr(mod, "UNITS_THOROUGH", []))
        groups += list(getattr(mod, "RUNTIME_THOROUGH", []))
    jobs = []
    # warm the parent before forking (no sktopt here)
    import numpy  # noqa
    import z3     # noqa
    if groups or units:
        try:
            import skfem, scipy, numba   # noqa
        except ImportError:
            pass
    for g in groups:
        name, fn = g[0], g[1]
        to = g[2] if len(g) > 2 else 300
        if tier == "thorough":
            to *= 2.3
        if only and only != name:
            continue
        jobs.append(("rt:" + name, "rt", (prop, name, fn, seed, tier), to))
    for u in units:
        if only and only != u.name:
            continue
        if tier == "thorough":
            u.budget *= 2
        jobs.append(("unit:" + u.name, "unit", u,
                     u.time_limit * 1.6 + 20))
    jobs.sort(key=lambda j: -j[3])
    nproc = int(os.environ.get("VPY_NPROC", "8"))
    res = run_jobs(jobs, scratch, nproc)

    ures = {u.name: res["unit:" + u.name] for u in units
            if "unit:" + u.name in res}
    gres = {g[0]: res["rt:" + g[0]] for g in groups if "rt:" + g[0] in res}
    for n, r in ures.items():
        if "crash" in r:
            r.update({"status": "undecided", "reason": r["crash"],
                      "unit": n, "obligations": 0, "discharged": 0,
                      "backends": {}, "solver_s": 0.0, "failed": [],
                      "functions": [], "paths": 0,
                      "loop_invariants": {}})
    vio = []
    for n, r in gres.items():
        if "crash" in r:
            r.update({"evaluations": 0, "distinct": 0, "checks": 0,
                      "samples": [], "violations": [],
                      "errors": [r["crash"]]})
        for v in r["violations"]:
            vio.append(v)
    known = [k for k in load_known()
             if k["property"] == prop and k.get("status") != "fixed"]

    def is_known(key):
        return any(k["key"] == key for k in known)

    lines = []
    seen_known = set()
    new = []
    for v in vio:
        if is_known(v["key"]):
            seen_known.add(v["key"])
        else:
            new.append(v)
    failed = [(n, f) for n, r in ures.items() if r["status"] == "refuted"
              for f in r["failed"]]
    newfail = []
    for n, f in failed:
        if is_known(f"{n}/{f['obligation']}"):
            seen_known.add(f"{n}/{f['obligation']}")
        else:
            newfail.append((n, f))
    for k in known:
        if k["key"] in seen_known:
            lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    nviol = 0
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, f"{prop}.json")
    if os.path.exists(rpath):
        os.unlink(rpath)
    if new or newfail:
        confirmed = bool(new)
        rep = {"property": prop, "seed": seed, "tier": tier,
               "confirmed_on_real_code": confirmed,
               "only": new[0]["group"] if new else newfail[0][0],
               "rerun": f"./check {prop} --replay {rpath}",
               "failed_obligations": [dict(unit=n, **f) for n, f in newfail],
               "failing_inputs": new}
        json.dump(rep, open(rpath, "w"), indent=1, default=str)
        nviol = len(new) + len(newfail)
        for n, f in newfail[:10]:
            print(f"  failed obligation {n} / {f['obligation']} "
                  f"[{f['kind']}, {f['backend']}] model={f['model']}"[:500])
        for v in new[:10]:
            print(f"  failing input [{v['group']}] {v['contract']}: "
                  f"{v['message']} input={json.dumps(v['input'])}"[:700])
        tail = "" if confirmed else " no-failing-input-found"
        lines.append(f"VIOLATION property={prop} replay={rpath}{tail}")
    # evidence
    write_evidence(mod, prop, tier, seed, ures, gres, t0, nviol, seen_known)
    und = {n: r.get("reason", "") for n, r in ures.items()
           if r["status"] == "undecided"}
    errs = {n: r["errors"] for n, r in gres.items() if r["errors"]}
    tot = sum(r["obligations"] for r in ures.values())
    dis = sum(r["discharged"] for r in ures.values())
    print(f"{prop}: units {len(ures)}, obligations {dis}/{tot} discharged, "
          f"undecided {len(und)}; runtime contract cases "
          f"{sum(r['evaluations'] for r in gres.values())} "
          f"({time.time() - t0:.1f} s)")
    for n, why in und.items():
        print(f"  undecided {n}: {why[:300]}")
    for n, e in errs.items():
        print(f"  harness note {n}: {e[:3]}")
    if verbose:
        for n, r in ures.items():
            print(f"    {n}: {r['status']} {r['discharged']}/"
                  f"{r['obligations']} paths {r.get('paths')} "
                  f"{r.get('job_wall')}s {r.get('backends')}")
            for k, v in r.get("loop_invariants", {}).items():
                print("      inv", k, v)
        for n, r in gres.items():
            print(f"    rt {n}: {r['evaluations']} cases {r['checks']} "
                  f"clauses {r.get('job_wall')}s")
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    return 1 if (new or newfail) else 0


TRUSTED = [
    "vpy prover (/verif/vpy): AST instrumentation, path enumeration by "
    "re-execution, array/heap model, numpy semantics of vpy/npshim.py",
    "z3 5.x and cvc5 (answers 'unsat' trusted)",
    "CPython executing the instrumented source",
]


def write_evidence(mod, prop, tier, seed, ures, gres, t0, nviol, known):
    from . import terms as T
    be = {}
    for r in ures.values():
        for k, v in r.get("backends", {}).items():
            be[k] = be.get(k, 0) + v
    ev = sum(r["evaluations"] for r in gres.values())
    cov = {
        "obligations": sum(r["obligations"] for r in ures.values()),
        "discharged": sum(r["discharged"] for r in ures.values()),
        "checker_cmd": f"./check {prop} --tier {tier}",
        "trusted_base": TRUSTED,
        "backends": be,
        "solver_s": round(sum(r.get("solver_s", 0) for r in ures.values()),
                          2),
        "functions_under_contract": sorted(
            {f for r in ures.values() if r["status"] == "proved"
             for f in r.get("functions", [])
             if not f.endswith(".get_version")}),
        "units": {n: {"status": r["status"], "obligations": r["obligations"],
                      "discharged": r["discharged"],
                      "paths": r.get("paths", 0),
                      "reason": r.get("reason", "")[:300],
                      "loop_invariants": r.get("loop_invariants", {}),
                      "wall_s": r.get("job_wall")}
                  for n, r in ures.items()},
        "units_proved": sum(r["status"] == "proved" for r in ures.values()),
        "units_undecided": sum(r["status"] == "undecided"
                               for r in ures.values()),
        "units_refuted": sum(r["status"] == "refuted"
                             for r in ures.values()),
        "evaluations": ev,
        "distinct_nontrivial": sum(r["distinct"] for r in gres.values()),
        "rule": "bounded runtime contract checks on the unmodified code "
                "(never counted as proved): seeded inputs per group; a case "
                "is distinct by its full input description; "
                + getattr(mod, "RULE", ""),
        "samples": [s for r in gres.values() for s in r["samples"]][:12]
        or ["none"],
        "bounded_groups": {n: {"cases": r["evaluations"],
                               "clauses": r["checks"],
                               "notes": r["errors"][:5],
                               "wall_s": r.get("job_wall")}
                           for n, r in gres.items()},
        "known_findings_seen": sorted(known),
    }
    ass = ["machine floating point treated as mathematical reals; numpy "
           "integers as mathematical integers (in proofs)",
           "axioms on uninterpreted functions: " + " | ".join(T.AXIOMS)]
    from props.assumptions import ASSUME
    ass += ASSUME.get(prop, [])
    e = {"property": prop, "tier": tier, "seed": seed,
         "level": getattr(mod, "LEVEL", "proof"), "coverage": cov,
         "assumptions": ass, "wall_s": round(time.time() - t0, 2),
         "violations": nviol}
    p = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(e, f, indent=1, default=str)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    sys.exit(main())
