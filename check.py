#!/usr/bin/env python3
"""Run one property's check:  check.py PID [quick|thorough]  |  PID --replay FILE

exit 0: every obligation / bounded evaluation held (or is a listed finding)
exit 1: `VIOLATION property=PID replay=FILE [no-failing-input-found]`
"""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("PYVC_REPO", "/repo")
EVID = os.environ.get("PYVC_EVIDENCE", os.path.join(HERE, "evidence"))


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", TZ="UTC",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYVC_REPO=REPO, HOME=os.environ.get("HOME", "/root"))
    for k in ("PYTHONPATH", "PYTEST_ADDOPTS"):
        e.pop(k, None)
    return e


def spawn(mode, pid, tier, seed, out, *extra):
    return subprocess.Popen(
        [PY, "-m", "pyvc.worker", mode, pid, tier, str(seed), out, *map(str, extra)],
        cwd=HERE, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace",
        start_new_session=True,
    )


def finish(p, limit):
    try:
        _, err = p.communicate(timeout=limit)
        return p.returncode, err or ""
    except subprocess.TimeoutExpired:
        import signal

        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "time limit"


def readj(path):
    try:
        with open(path) as f:
            return json.load(f)
    except Exception:
        return None


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("status") == "known":
                    out.append(d)
    return out


def main():
    pid = sys.argv[1]
    scratch = tempfile.mkdtemp(prefix="pyvc.")
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            return replay(pid, sys.argv[3], scratch)
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return run(pid, tier, scratch)
    finally:
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)


def replay(pid, path, scratch):
    d = json.load(open(path))
    if d.get("input") is None:
        print(json.dumps(d, indent=1)[:4000])
        print("no failing input recorded; re-running the check")
        return run(pid, "quick", scratch)
    items = os.path.join(scratch, "items.json")
    out = os.path.join(scratch, "out.json")
    json.dump([{"contract": d["contract"], "input": d["input"]}], open(items, "w"))
    rc, err = finish(spawn("replay", pid, "quick", 1, out, items), 300)
    r = readj(out)
    print(json.dumps(r, indent=1))
    return 1 if r and r[0]["status"] == "violates" else 0


def run(pid, tier, scratch):
    t0 = time.time()
    seed = os.environ.get("VERIF_SEED", "1")
    budget = 45 if tier == "quick" else 600
    pj, rj = os.path.join(scratch, "p.json"), os.path.join(scratch, "r.json")
    pp = spawn("prove", pid, tier, seed, pj)
    rp = spawn("rt", pid, tier, seed, rj, budget)
    prc, perr = finish(pp, 330 if tier == "quick" else 1800)
    rrc, rerr = finish(rp, 330 if tier == "quick" else 1800)
    P, R = readj(pj), readj(rj)
    problems = []
    if P is None:
        problems.append(f"prover process failed: {perr[-1500:]}")
        P = {"results": [], "error": perr[-1500:]}
    if P.get("error"):
        problems.append(f"contracts could not be generated: {P['error'][-1500:]}")
    if R is None:
        problems.append(f"run-time contracts failed: {rerr[-1500:]}")
        R = {"contracts": [], "violations": [], "errors": []}
    for e in R["errors"]:
        problems.append(f"run-time contract {e['contract']} failed: {e['error'][-1200:]}")

    # ---- proof outcomes
    obl = []
    refuted = []
    for r in P["results"]:
        for o in r["obligations"]:
            o = dict(o, contract=r["name"], functions=r["functions"], second=r.get("second"))
            obl.append(o)
            if o["status"] == "refuted":
                refuted.append(o)
        if r["error"]:
            problems.append(f"contract {r['name']}: {r['error_kind']}: {r['error'][-700:]}")
        for c, k in r["covers"].items():
            if not k and not r["error"]:
                problems.append(f"contract {r['name']}: cover '{c}' not reached (vacuous)")
        if not r["obligations"] and not r["error"]:
            problems.append(f"contract {r['name']}: no obligation generated")

    # ---- replay counter-models
    items, back = [], []
    for o in refuted:
        mdl = o.get("model") or {}
        if "__contract__" in mdl and mdl.get("inputs") is not None:
            inputs = mdl["inputs"] if isinstance(mdl["inputs"], list) else [mdl["inputs"]]
            for i in inputs:
                items.append({"contract": mdl["__contract__"], "input": i})
                back.append(o)
    violations = []  # (contract, message, input|None, key, obligation)
    if items:
        ij, oj = os.path.join(scratch, "i.json"), os.path.join(scratch, "o.json")
        json.dump(items, open(ij, "w"))
        finish(spawn("replay", pid, tier, seed, oj, ij), 200)
        for it, o, r in zip(items, back, readj(oj) or []):
            o.setdefault("replays", []).append(r.get("status"))
            if r.get("status") == "violates" and not o.get("confirmed"):
                o["confirmed"] = True
                violations.append({"contract": it["contract"], "message": r["message"], "input": it["input"],
                                   "key": r.get("key"), "obligation": o["name"], "verifier": o["detail"]})
    for v in R["violations"]:
        violations.append(dict(v, obligation=None))
    known = [k for k in known_findings() if k["property"] == pid]

    def match(contract, key):
        for k in known:
            if k["contract"] == contract and k.get("key") == key:
                return k
        return None

    new, seen_known = [], {}
    for v in violations:
        k = match(v["contract"], v.get("key"))
        if k is not None:
            seen_known[(k["contract"], k.get("key"))] = k
        else:
            new.append(v)
    for o in refuted:
        if o.get("confirmed"):
            continue
        kk = [k for k in known if k.get("obligation") == o["name"]]
        if kk:
            seen_known[(kk[0]["contract"], kk[0].get("key"))] = kk[0]
            continue
        if o["second"] == "holds":
            # the invariant does not fit the loop as it is written now; unrolled, the contract holds
            problems.append(f"contract {o['contract']}: {o['name']} not decided for every length (holds for lists of up to 3): {o['detail'][:300]}")
            continue
        if new:
            continue  # a failing input of this property was found
        new.append({"contract": o["contract"], "message": o["detail"], "input": None, "key": None,
                    "obligation": o["name"], "verifier": o["detail"], "model": o.get("model")})

    # ---- evidence
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    meta = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    entry = [c for c in meta["checks"] if c["property"] == pid]
    level = entry[0]["level"] if entry else "other"
    proved = [o for o in obl if not o["bounded"]]
    bounded_obl = [o for o in obl if o["bounded"]]
    errs = [r for r in P["results"] if r["error"]]
    backends = sorted({b for o in obl for b in o["backends"]})
    trusted = sorted({t for r in P["results"] for t in r["trusted"]})
    cov = {
        "obligations": len(proved) + len(errs),
        "discharged": len([o for o in proved if o["status"] == "discharged"]),
        "checker_cmd": f"python3 check.py {pid} {tier}",
        "trusted_base": ["pyvc (AST rewriting + symbolic execution in CPython, /verif/pyvc)", "z3 5.3.2, cvc5 1.1.2",
                         "CPython 3.12 semantics of the rewritten constructs"] + trusted,
        "contracts": [
            {"name": r["name"], "functions": r["functions"], "paths": r["paths"], "smt_queries": r["queries"],
             "obligations": len(r["obligations"]),
             "discharged": len([o for o in r["obligations"] if o["status"] == "discharged"]),
             "solver_s": round(sum(o["solver_s"] for o in r["obligations"]), 2), "wall_s": r["wall_s"],
             "bounded": r["bounded"], "downgraded": (r["bounded_rerun"] or "")[:300] or None,
             "error": (r["error"] or "")[:400] or None, "covers": r["covers"]}
            for r in P["results"]
        ],
        "obligation_list": [f"{o['contract']} :: {o['name']} [{o['status']}{', bounded' if o['bounded'] else ''}]" for o in obl],
        "backends": backends,
        "functions_under_contract": sorted({f for r in P["results"] for f in r["functions"]}),
        "bounded_obligations": len(bounded_obl),
        "bounded_discharged": len([o for o in bounded_obl if o["status"] == "discharged"]),
        "bounded_runtime_contracts": R["contracts"],
        "evaluations": sum(c["evaluations"] for c in R["contracts"]),
        "distinct_nontrivial": sum(c["distinct"] for c in R["contracts"]),
        "rule": "an evaluation is one call of the real function(s) whose precondition held and whose postcondition was checked; distinct = distinct JSON inputs",
        "samples": [{"contract": c["name"], "input": s} for c in R["contracts"] for s in c["samples"][:1]][:12],
        "explanation": "contract obligations over the code extracted from /repo on this run (unbounded unless marked bounded) plus bounded run-time contracts for functions outside the verifier's reach",
        "problems": problems,
        "known_findings_seen": [k["what"] for k in seen_known.values()],
    }
    if not cov["samples"]:
        cov["samples"] = [{"obligation": o["name"]} for o in obl[:3]]
    sys.path.insert(0, HERE)
    assumptions = [
        "Python floats are mathematical reals in proof obligations (rounding error is not modelled; run-time contracts use tolerances)",
        "the loguru logger, warnings and I/O handles have no effect on the modelled state",
        "pydantic field assignment of a symbolic value is modelled as storing the (already valid) value",
    ]
    try:
        src = open(os.path.join(HERE, "props", f"{pid}.py")).read()
        import ast as _ast

        for n in _ast.parse(src).body:
            if isinstance(n, _ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS":
                assumptions += list(_ast.literal_eval(n.value))
    except Exception:
        pass
    nviol = 0
    lines = []
    for i, v in enumerate(new[:5]):
        path = os.path.join(EVID, "replays", f"{pid}-{i}.json")
        json.dump(dict(v, property=pid), open(path, "w"), indent=1, default=str)
        tail = "" if v["input"] is not None else " no-failing-input-found"
        lines.append(f"VIOLATION property={pid} replay={path}{tail}")
        nviol += 1
    ev = {"property": pid, "tier": tier, "seed": int(seed) if str(seed).isdigit() else seed, "level": level,
          "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for v in new[:5]:
        print(f"# {v['contract']} / {v.get('obligation')}: {v['message'][:400]} input={json.dumps(v['input'], default=str)[:400]}")
    for l in lines:
        print(l)
    print(f"{pid}: {cov['discharged']}/{cov['obligations']} obligations discharged "
          f"({len(bounded_obl)} bounded), {cov['evaluations']} run-time evaluations, "
          f"{len(problems)} undecided, {ev['wall_s']}s")
    if os.environ.get("PYVC_VERBOSE"):
        for p in problems:
            print("  ! " + p)
    if nviol:
        return 1
    if not obl and not cov["evaluations"]:
        print("no obligation and no evaluation: the check decided nothing")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
