"""Run-time contracts: the same postconditions evaluated on the real,
un-instrumented code.

Used (a) to replay the verifier's counter-models, (b) to look for a failing
input when a proof fails without one, and (c) as the *bounded* stand-in for
functions outside the verifier's reach.  Inputs are JSON-able dicts so every
violation can be replayed from its file.
"""
import json
import math
import os
import random
import sys
import time
import traceback


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """The input does not satisfy the contract's precondition."""


class RT:
    def __init__(self, name, fn, gen=None, functions=(), bound="", known=()):
        self.name, self.fn, self.gen = name, fn, gen
        self.functions = functions
        self.bound = bound


class Registry:
    def __init__(self):
        self.rts = {}
        self.order = []

    def rt(self, name, gen=None, functions=(), bound=""):
        def deco(fn_):
            names = fn_.__code__.co_varnames[:fn_.__code__.co_argcount]
            keys = [x.rstrip("_") for x in names]

            def fn(inp):
                if isinstance(inp, dict) and set(keys) == set(inp):
                    return fn_(**{a: inp[b] for a, b in zip(names, keys)})
                return fn_(inp)

            r = RT(name, fn, gen, functions, bound)
            self.rts[name] = r
            self.order.append(r)
            return fn_

        return deco


def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg, key)


def close(a, b, rel=1e-9, abs_=1e-9):
    if isinstance(a, complex) or isinstance(b, complex):
        a, b = complex(a), complex(b)
        if math.isnan(a.real) or math.isnan(a.imag):
            return math.isnan(b.real) or math.isnan(b.imag)
        return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def evaluate(r, inp):
    """None when the contract holds, else (message, key)."""
    try:
        r.fn(inp)
        return None
    except Skip:
        return "skip"
    except Violation as v:
        return (str(v), v.key)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except RecursionError as e:
        return (f"unexpected RecursionError: {e}", None)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/mt_metadata/" in f.filename]
        if not where:
            # the result does not even have the shape the postcondition reads
            f = tb[-1]
            return (
                f"postcondition cannot be evaluated on the result: {type(e).__name__}: "
                f"{str(e)[:300]} ({os.path.basename(f.filename)}:{f.lineno})",
                None,
            )
        f = where[-1]
        return (
            f"unexpected {type(e).__name__}: {str(e)[:300]} at "
            f"{f.filename.split('/repo/')[-1]}:{f.name}",
            None,
        )


def jsonable(x):
    return json.loads(json.dumps(x, default=str))


def run_all(reg, seed, tier, budget_s, deadline=None):
    """Evaluate every run-time contract on its deterministic inputs."""
    out = {"contracts": [], "violations": [], "errors": []}
    t_end = time.time() + budget_s
    n = len([r for r in reg.order if r.gen is not None])
    for idx, r in enumerate(reg.order):
        if r.gen is None:
            continue
        rng = random.Random(f"{seed}:{r.name}")
        t0 = time.time()
        left = max(0.0, t_end - t0)
        share = max(1.0, left / max(1, n))
        n -= 1
        ev = distinct = skipped = 0
        seen = set()
        samples = []
        viol = {}
        stop = "exhausted"
        try:
            for inp in r.gen(rng, tier):
                if time.time() - t0 > share:
                    stop = f"time share {share:.0f}s"
                    break
                res = evaluate(r, inp)
                if res == "skip":
                    skipped += 1
                    continue
                ev += 1
                key = json.dumps(inp, sort_keys=True, default=str)
                if key not in seen:
                    seen.add(key)
                    distinct += 1
                    if len(samples) < 3:
                        samples.append(inp)
                if res is not None:
                    k = res[1] or "general"
                    if k not in viol:
                        viol[k] = {"contract": r.name, "key": res[1], "message": res[0], "input": inp}
                    if len(viol) > 10:
                        break
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except Exception:
            out["errors"].append({"contract": r.name, "error": traceback.format_exc()[-2000:]})
        out["contracts"].append(
            {
                "name": r.name, "functions": list(r.functions), "bound": r.bound,
                "evaluations": ev, "distinct": distinct, "skipped": skipped,
                "samples": jsonable(samples), "stopped": stop, "wall_s": round(time.time() - t0, 2),
            }
        )
        out["violations"] += [jsonable(v) for v in viol.values()]
    return out
