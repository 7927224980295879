"""Subprocess entry points: `prove PID`, `rt PID`, `replay PID FILE`."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYVC_REPO", "/repo")
sys.path[:] = [p for p in sys.path if p not in ("", HERE)]
sys.path.insert(0, HERE)


def quiet():
    try:
        from loguru import logger

        logger.remove()
    except Exception:
        pass
    import warnings

    warnings.simplefilter("ignore")


def load(pid):
    m = importlib.import_module(f"props.{pid}")
    return m


# ------------------------------------------------------------------ prove
def second_opinion(core, contract, spent):
    """After a failed obligation of a contract with loops cut by invariants: the same contract with
    every loop unrolled (lists of up to 3, then of up to 2, members).  "holds" when every
    obligation is discharged so; None when that cannot be told."""
    t0 = time.time()
    keep = contract.harness, contract.bounded
    try:
        for kw in (dict(unroll=3), dict(unroll=2), dict(unroll=3, bounded_mode=True)):
            if time.time() - t0 > 60 or spent + time.time() - t0 > 110:
                return None
            contract.harness, contract.bounded = keep
            if kw.get("bounded_mode"):
                contract.harness = contract.bounded_harness or contract.harness
            contract.bounded = "lists of length <= %d" % kw["unroll"]
            r = core.prove(contract, **kw)
            obs = list(r.obligations.values())
            if any(o.status == "refuted" for o in obs):
                return "fails"
            if r.error is None and obs and all(o.status == "discharged" for o in obs) and all(r.covers.values()):
                return "holds"
        return None
    finally:
        contract.harness, contract.bounded = keep


def _prove_one(conn, contract):
    from . import core

    try:
        t0 = time.time()
        res = core.prove(contract)
        bounded_rerun = None
        if res.error_kind == "unsupported" and not contract.bounded:
            bounded_rerun = res.error
            if contract.bounded_harness is not None:
                contract.harness = contract.bounded_harness
            contract.bounded = contract.bounded_note or "lists and arrays of length <= 3"
            res = core.prove(contract)
            if res.error_kind == "unsupported":
                r2 = core.prove(contract, unroll=3, bounded_mode=False)
                if r2.error is None:
                    res = r2
        second = None
        if not res.error and res.cut and any(o.status == "refuted" for o in res.obligations.values()):
            # does the property fail, or does the invariant not fit the loop as it is now written?
            second = second_opinion(core, contract, time.time() - t0)
        out = {
            "name": contract.name,
            "functions": sorted(res.functions),
            "paths": res.paths,
            "queries": res.smt_queries,
            "obligations": [o.as_dict() for o in res.obligations.values()],
            "covers": res.covers,
            "trusted": sorted(res.trusted),
            "error": res.error,
            "error_kind": res.error_kind,
            "bounded": contract.bounded,
            "bounded_rerun": bounded_rerun,
            "second": second,
            "wall_s": round(time.time() - t0, 2),
        }
    except BaseException:
        out = {"name": contract.name, "functions": [], "paths": 0, "queries": 0, "obligations": [],
               "covers": {}, "trusted": [], "error": traceback.format_exc()[-1500:],
               "error_kind": "crash", "bounded": contract.bounded, "bounded_rerun": None, "wall_s": 0}
    conn.send(json.dumps(out, default=str))
    conn.close()


def prove_main(pid, tier):
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    if tier == "thorough":
        os.environ.setdefault("PYVC_QUERY_MS", "60000")
    t0 = time.time()
    from . import core, instrument

    instrument.install(REPO)
    mod = load(pid)
    try:
        contracts = mod.contracts()
    except Exception:
        quiet()
        return {"results": [], "error": traceback.format_exc()[-3000:], "import_s": time.time() - t0}
    quiet()
    limit = 240 if tier == "quick" else 1500
    per = 150 if tier == "quick" else 900
    t_end = time.time() + limit
    pending = list(contracts)
    running = []
    results = []
    cpus = min(6, os.cpu_count() or 4)
    mpx = mp.get_context("fork")

    def lost(c, why):
        return {"name": c.name, "functions": [c.fn] if isinstance(c.fn, str) else list(c.fn), "paths": 0,
                "queries": 0, "obligations": [], "covers": {}, "trusted": [], "error": why,
                "error_kind": "timeout", "bounded": c.bounded, "bounded_rerun": None, "wall_s": per}

    while pending or running:
        while pending and len(running) < cpus and time.time() < t_end:
            c = pending.pop(0)
            a, b = mpx.Pipe(duplex=False)
            pr = mpx.Process(target=_prove_one, args=(b, c))
            pr.start()
            b.close()
            running.append((c, a, pr, time.time()))
        if pending and time.time() >= t_end:
            for c in pending:
                results.append(lost(c, "overall time limit"))
            pending = []
        nxt = []
        for c, a, pr, t in running:
            if a.poll(0.02):
                try:
                    results.append(json.loads(a.recv()))
                except EOFError:
                    results.append(lost(c, "worker died"))
                pr.join(5)
            elif not pr.is_alive() and not a.poll(0.1):
                results.append(lost(c, "worker died"))
            elif time.time() - t > per or time.time() > t_end + 5:
                pr.kill()
                pr.join()
                results.append(lost(c, f"time limit {per}s"))
            else:
                nxt.append((c, a, pr, t))
        running = nxt
    results.sort(key=lambda r: [c.name for c in contracts].index(r["name"]))
    return {"results": results, "error": None, "import_s": round(time.time() - t0, 1),
            "modules": len(instrument.SOURCES)}


# ------------------------------------------------------------------ rt
def rt_main(pid, tier, seed, budget):
    sys.path.insert(0, REPO)
    from . import rt

    reg = rt.Registry()
    mod = load(pid)
    mod.runtime(reg)
    quiet()
    return rt.run_all(reg, seed, tier, budget)


def replay_main(pid, items):
    sys.path.insert(0, REPO)
    from . import rt

    reg = rt.Registry()
    mod = load(pid)
    mod.runtime(reg)
    quiet()
    out = []
    for it in items:
        r = reg.rts.get(it["contract"])
        if r is None:
            out.append({"status": "no such contract"})
            continue
        try:
            res = rt.evaluate(r, it["input"])
        except Exception:
            out.append({"status": "error", "message": traceback.format_exc()[-1500:]})
            continue
        if res is None:
            out.append({"status": "holds"})
        elif res == "skip" or res[0].startswith("postcondition cannot be evaluated"):
            # nothing was observed to be wrong: the values may just not be an input of this contract
            out.append({"status": "skip"})
        else:
            out.append({"status": "violates", "message": res[0], "key": res[1]})
    return out


def main():
    mode, pid, tier, seed, outp = sys.argv[1:6]
    if mode == "prove":
        r = prove_main(pid, tier)
    elif mode == "rt":
        r = rt_main(pid, tier, seed, float(sys.argv[6]))
    else:
        with open(sys.argv[6]) as f:
            r = replay_main(pid, json.load(f))
    with open(outp, "w") as f:
        json.dump(r, f, default=str)


if __name__ == "__main__":
    main()
