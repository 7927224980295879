"""Path exploration, obligations and symbolic values.

A *harness* builds a symbolic pre-state, calls the real (instrumented) function
and states its postcondition.  The engine executes the harness once per
feasible path: every branch on a symbolic condition is decided by the solver,
and both sides are explored when both are feasible, so when the work list is
empty all paths for all inputs satisfying the precondition were covered.
"""
import re
import sys
import itertools
import math
import types
import os
import time
import traceback
from fractions import Fraction

import z3

BRANCH_MS = int(os.environ.get("PYVC_BRANCH_MS", "1000"))
QUERY_MS = int(os.environ.get("PYVC_QUERY_MS", "10000"))
MAX_PATHS = int(os.environ.get("PYVC_MAX_PATHS", "4000"))


class Unsupported(BaseException):
    """The verifier has no model for an operation (never a verdict)."""


class PathEnd(BaseException):
    """The current path is finished (assumption failed / loop iteration cut)."""


CTX = None  # the running path context


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside a proof")
    return CTX


# ---------------------------------------------------------------- obligations
class Obligation:
    def __init__(self, name):
        self.name = name
        self.checks = 0
        self.status = "discharged"  # discharged | refuted | unknown
        self.detail = ""
        self.model = None
        self.backends = set()
        self.solver_s = 0.0
        self.bounded = None

    def as_dict(self):
        return {
            "name": self.name,
            "status": self.status,
            "checks": self.checks,
            "backends": sorted(self.backends),
            "solver_s": round(self.solver_s, 3),
            "detail": self.detail,
            "model": self.model,
            "bounded": self.bounded,
        }


class Result:
    def __init__(self, name):
        self.name = name
        self.obligations = {}
        self.paths = 0
        self.covers = {}
        self.error = None  # Unsupported / crash text
        self.error_kind = None
        self.wall = 0.0
        self.trusted = set()
        self.functions = set()
        self.bounded = None
        self.bounded_mode = False
        self.unroll = None  # unroll loops over symbolic lists up to this length
        self.cut = False  # a loop was cut by an invariant
        self.smt_queries = 0

    def ob(self, name):
        return self.obligations.setdefault(name, Obligation(name))


class Path:
    """One execution of a harness with a fixed prefix of branch decisions."""

    def __init__(self, result, prefix, worklist, replay=None):
        self.result = result
        self.prefix = prefix
        self.trace = []
        self.worklist = worklist
        self.solver = z3.Solver()
        self.solver.set("timeout", QUERY_MS)
        self.pc = []
        self.counter = itertools.count()
        self.replay = replay
        self.inputs = {}
        self.fold_defs = {}
        self.facts_seen = set()
        self.assumed = {}
        self.ufapps = {}
        self.loop_specs = {}
        self.bounded_mode = result.bounded_mode
        self.unroll = result.unroll

    # -- naming
    def fresh(self, base):
        return f"{base}!{next(self.counter)}"

    # -- solver plumbing
    def add(self, f):
        if isinstance(f, SymBool):
            f = f.e
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        self.pc.append(f)
        self.solver.add(f)

    def _sat(self, *extra, ms=None):
        """`ms` bounds feasibility queries: an undecided branch is explored."""
        self.result.smt_queries += 1
        if ms is None or ms >= QUERY_MS:
            return self.solver.check(*extra)
        self.solver.set("timeout", ms)
        try:
            return self.solver.check(*extra)
        finally:
            self.solver.set("timeout", QUERY_MS)

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        # literally one of the preconditions or its negation
        if cond.get_id() in self.assumed:
            return True
        if self.assumed and z3.simplify(z3.Not(cond)).get_id() in self.assumed:
            return False
        ring = getattr(self, "ring", None)
        if ring is not None:
            d = ring.equality(cond)
            if d is not None:
                return d
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.trace.append(d)
            self.add(cond if d else z3.Not(cond))
            return d
        t = self._sat(cond, ms=BRANCH_MS)
        f = self._sat(z3.Not(cond), ms=BRANCH_MS)
        if t == z3.unsat and f == z3.unsat:
            raise PathEnd("infeasible")
        if t == z3.unsat:
            d = False
        elif f == z3.unsat:
            d = True
        else:
            d = True
            self.worklist.append(self.trace + [False])
        self.trace.append(d)
        self.add(cond if d else z3.Not(cond))
        return d

    def formula(self, fn, limit=40, under=None):
        """The value of a side-effect free boolean computation as one formula:
        all its branches are explored here instead of splitting the path.
        None when it raises or has too many branches. With `under`, the formula
        is that value where `under` holds."""
        real_add, real_branch = self.add, self.branch
        if getattr(self, "speculative", False):
            return None
        todo, cases = [[]], []
        conds = []

        def br(cond):
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                return True
            if z3.is_false(cond):
                return False
            k = len(decided)
            if k < len(prefix):
                d = prefix[k]
            else:
                t, f = self._sat(*conds, cond, ms=BRANCH_MS), self._sat(*conds, z3.Not(cond), ms=BRANCH_MS)
                if t == z3.unsat and f == z3.unsat:
                    raise PathEnd("infeasible")
                d = t != z3.unsat
                if d and f != z3.unsat:
                    todo.append(decided + [False])
            decided.append(d)
            conds.append(cond if d else z3.Not(cond))
            return d

        def cadd(f):
            f = f.e if isinstance(f, SymBool) else z3.BoolVal(f) if isinstance(f, bool) else f
            real_add(z3.Implies(z3.And(conds), f) if conds else f)

        def cfact(f):
            key = f.sexpr() if hasattr(f, "sexpr") else str(f)
            if key not in self.facts_seen:
                self.facts_seen.add(key)
                real_add(f)

        self.speculative = True
        self.add, self.branch, self.fact = cadd, br, cfact
        try:
            while todo:
                prefix = todo.pop()
                conds, decided = [] if under is None else [under], []
                try:
                    r = fn()
                    if not isinstance(r, (SymBool, bool)):
                        r = bool(r)
                    cases.append(z3.And(*conds, as_z3bool(r)))
                except PathEnd:
                    continue
                if len(cases) > limit:
                    return None
        except Exception:
            return None
        finally:
            self.speculative = False
            del self.add, self.branch, self.fact
        return z3.simplify(z3.Or(cases)) if cases else z3.BoolVal(False)

    def choose(self, n, label="choice"):
        """Explore n alternatives (a finite union type / case split)."""
        for i in range(n - 1):
            b = z3.Bool(self.fresh(f"{label}{i}"))
            if self.branch(b):
                return i
        return n - 1

    def assume(self, f):
        f = as_z3bool(f)
        self.add(f)
        k = z3.simplify(f)
        for c in k.children() if z3.is_and(k) else [k]:
            self.assumed[c.get_id()] = c
        if self._sat(ms=BRANCH_MS) == z3.unsat:
            raise PathEnd("assumption")

    def refuted_at_point(self, ob, name, f, text):
        """a random point where the path conditions hold and the goal fails"""
        from .numeric import refute

        pt = refute(self.pc, f)
        if pt is None:
            return False
        ob.backends.add("evaluation")
        ob.status = "refuted"
        ob.detail = f"obligation {name}: fails at an evaluated point; {text[:700]}; goal {str(z3.simplify(f))[:300]}; path {self.trace}"
        ob.model = self.concretise(pt)
        return True

    def use_ring(self):
        """decide equalities of rational expressions by normal forms"""
        from .ring import Ring

        self.ring = Ring()
        return self.ring

    def assume_nonzero(self, x):
        """precondition x != 0, also known to the normal-form procedure"""
        e = z3.simplify(toreal(num_z3(x)))
        self.ring.assume_nonzero(e)
        self.add(e != 0)

    def fact(self, f):
        """A trusted mathematical fact about an uninterpreted function."""
        key = f.sexpr() if hasattr(f, "sexpr") else str(f)
        if key in self.facts_seen:
            return
        self.facts_seen.add(key)
        self.add(f)

    def check(self, name, f, lemmas=()):
        """State an obligation: the path condition entails f."""
        ob = self.result.ob(name)
        ob.checks += 1
        if ob.bounded is None and self.result.bounded:
            ob.bounded = self.result.bounded
        if ob.status == "refuted":
            return
        f = as_z3bool(f)
        t0 = time.time()
        for lem in lemmas:
            self.add(as_z3bool(lem))
        ring = getattr(self, "ring", None)
        if ring is not None:
            verdict, text = ring.decide(f)
            if verdict == "proved":
                ob.backends.add("rational normal form")
                ob.solver_s += time.time() - t0
                return
            if verdict == "differs" and self.refuted_at_point(ob, name, f, text):
                ob.solver_s += time.time() - t0
                return
        self.result.smt_queries += 1
        r = self.solver.check(z3.Not(f))
        ob.backends.add("z3")
        model = None
        if r == z3.sat:
            model = self.solver.model()
        if r == z3.unknown:
            # fresh solver, then other tactics, then cvc5
            s = z3.Solver()
            s.set("timeout", QUERY_MS * 2)
            s.add(*self.pc)
            s.add(z3.Not(f))
            r = s.check()
            if r == z3.sat:
                model = s.model()
            if r == z3.unknown:
                try:
                    s = z3.Tactic("qfnra-nlsat").solver()
                    s.set("timeout", QUERY_MS)
                    s.add(*self.pc)
                    s.add(z3.Not(f))
                    r = s.check()
                    if r == z3.sat:
                        model = s.model()
                except z3.Z3Exception:
                    r = z3.unknown
            if r == z3.unknown:
                rr = cvc5_check(self.pc + [z3.Not(f)])
                if rr == "unsat":
                    r = z3.unsat
                    ob.backends.add("cvc5")
        ob.solver_s += time.time() - t0
        if r == z3.unsat:
            pass
        elif r == z3.unknown and self.refuted_at_point(ob, name, f, ""):
            pass
        elif r == z3.sat:
            ob.status = "refuted"
            ob.detail = (
                f"obligation {name}: counter-model on path {self.trace}; "
                f"goal {str(z3.simplify(f))[:600]}"
            )
            ob.model = self.concretise(model)
        elif ob.status == "discharged":
            ob.status = "unknown"
            ob.detail = f"obligation {name}: solver returned unknown"
        self.add(f)

    def fail(self, name, why):
        """A path that must not be reachable was reached."""
        ob = self.result.ob(name)
        ob.checks += 1
        if ob.status == "refuted":
            return
        ob.backends.add("z3")
        r = self._sat()
        if r == z3.sat:
            ob.status = "refuted"
            ob.detail = f"{why}; path {self.trace}"
            ob.model = self.concretise(self.solver.model())
        elif r == z3.unknown:
            if ob.status == "discharged":
                ob.status = "unknown"
                ob.detail = f"{why} (reachability unknown)"

    def cover(self, name):
        """Reachability marker guarding against vacuous contracts."""
        if self._sat(ms=BRANCH_MS) != z3.unsat:
            self.result.covers[name] = self.result.covers.get(name, 0) + 1
        else:
            self.result.covers.setdefault(name, 0)

    def declare_cover(self, name):
        self.result.covers.setdefault(name, 0)

    def concretise(self, model):
        """The counter-model in terms of the harness's declared inputs."""
        out = {}
        for k, v in self.inputs.items():
            try:
                out[k] = model_value(model, v)
            except Exception as e:  # partial models stay readable
                out[k] = f"<{type(e).__name__}>"
        if self.replay is not None:
            try:
                out = {"__contract__": self.replay[0], "inputs": self.replay[1](out)}
            except Exception as e:
                out["__replay_error__"] = repr(e)
        return out

    def trusted(self, what):
        self.result.trusted.add(what)

    def function(self, fn):
        self.result.functions.add(fn)

    # -- declared inputs
    def real(self, name):
        v = SymNum(z3.Real(name))
        self.inputs[name] = v
        return v

    def int(self, name):
        v = SymNum(z3.Int(name))
        self.inputs[name] = v
        return v

    def bool(self, name):
        v = SymBool(z3.Bool(name))
        self.inputs[name] = v
        return v

    def string(self, name):
        v = SymStr(z3.String(name))
        self.inputs[name] = v
        return v

    def seq(self, name, elem, n=None, cls=list, minlen=0, maxlen=3):
        """A list of unbounded symbolic length (bounded in the stand-in)."""
        if n is None:
            if self.bounded_mode:
                n = minlen + self.choose(maxlen - minlen + 1, name + ".n")
            else:
                n = SymNum(z3.Int(name + ".n"))
                self.assume(n >= minlen)
        if isinstance(n, int):
            v = [elem(z3.IntVal(i)) for i in range(n)]
            self.inputs[name] = v
            return v if cls is list else cls(v)
        v = SymSeq(n, elem, name, cls)
        self.inputs[name] = v
        return v

    def complex(self, name):
        v = SymComplex(z3.Real(name + ".re"), z3.Real(name + ".im"))
        self.inputs[name] = v
        return v

    def array(self, name, n=None, kind="real"):
        if n is None:
            n = 1 + self.choose(3, name + ".n") if self.bounded_mode else self.int(name + ".n")
        if isinstance(n, SymNum):
            self.assume(n >= 0)
        if kind == "real":
            f = z3.Function(name, z3.IntSort(), z3.RealSort())
            arr = SymArray(n, lambda i: SymNum(f(i)))
        elif kind == "complex":
            fr = z3.Function(name + ".re", z3.IntSort(), z3.RealSort())
            fi = z3.Function(name + ".im", z3.IntSort(), z3.RealSort())
            arr = SymArray(n, lambda i: SymComplex(fr(i), fi(i)))
        else:
            raise Unsupported(kind)
        arr.name = name
        self.inputs[name] = arr
        return arr

    def index(self, arr, name="i"):
        """An arbitrary (universally quantified) valid index of arr."""
        i = z3.Int(self.fresh(name))
        self.assume(z3.And(i >= 0, i < as_z3int(arr.n)))
        self.inputs[name] = SymNum(i)
        return i


def cvc5_check(formulas, timeout_ms=None):
    """Second back end, through SMT-LIB text."""
    timeout_ms = timeout_ms or QUERY_MS
    try:
        import subprocess

        s = z3.Solver()
        s.add(*formulas)
        text = "(set-logic ALL)\n" + s.to_smt2()
        p = subprocess.run(
            ["cvc5", "--lang=smt2", f"--tlimit={timeout_ms}", "--nl-ext-tplanes", "-"],
            input=text,
            capture_output=True,
            text=True,
            timeout=timeout_ms / 1000 + 5,
        )
        out = p.stdout.strip().splitlines()
        return out[-1] if out else "unknown"
    except Exception:
        return "unknown"


class Contract:
    """A named harness: one function (or lemma) under contract."""

    def __init__(self, name, fn, harness, replay=None, covers=(), bounded=None,
                 max_paths=None, expect=(), bounded_harness=None, bounded_note=None):
        self.name = name
        self.fn = fn
        self.harness = harness
        self.replay = replay
        self.covers = covers
        self.bounded = bounded
        self.max_paths = max_paths or MAX_PATHS
        self.expect = expect
        self.bounded_harness = bounded_harness
        self.bounded_note = bounded_note


def ours(qualname):
    """Is it the name of a function or method of the verifier's models or of a harness?"""
    parts = qualname.split(".")
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] not in ("pyvc", "props"):
            continue
        o = m
        for x in parts:
            o = vars(o).get(x) if hasattr(o, "__dict__") else None
            if o is None:
                break
        if callable(o) and getattr(o, "__module__", "").split(".")[0] in ("pyvc", "props"):
            return True
    return False


def stand_in(e):
    """Does the exception say that a stand-in of a harness lacks what the code asks of it?"""
    mine = lambda o: type(o).__module__.split(".")[0] in ("props", "pyvc")
    text = str(e)
    frames = traceback.extract_tb(e.__traceback__)
    if frames and "/pyvc/" in frames[-1].filename:
        return True
    called = re.match(r"([\w.]+)\(\) (?:got|takes|missing)", text)
    if isinstance(e, TypeError) and called and ours(called.group(1)):
        return True
    if "<locals>" in text:  # the signature of a function or class of a harness
        return True
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        if isinstance(o, type(math)) or mine(o) or (isinstance(o, type) and o.__module__.split(".")[0] in ("props", "pyvc")):
            return True
    m = re.findall(r"'(\w+)' object|instances? of '(\w+)'|and '(\w+)'|: '(\w+)'", text)
    names = {n for g in m for n in g if n}
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is None or not names:
        return False
    seen = []
    for v in tb.tb_frame.f_locals.values():
        seen.append(v)
        seen += list(vars(v).values()) if hasattr(v, "__dict__") and mine(v) else []
    return any(mine(v) and type(v).__name__ in names for v in seen)


def prove(contract, unroll=None, bounded_mode=None):
    """Explore every path of a harness and discharge its obligations."""
    global CTX
    res = Result(contract.name)
    res.bounded = contract.bounded
    res.bounded_mode = bool(contract.bounded) if bounded_mode is None else bounded_mode
    res.unroll = unroll
    res.functions.update([contract.fn] if isinstance(contract.fn, str) else contract.fn)
    for c in contract.covers:
        res.covers[c] = 0
    t0 = time.time()
    work = [[]]
    try:
        while work:
            prefix = work.pop()
            res.paths += 1
            if res.paths > contract.max_paths:
                raise Unsupported(f"more than {contract.max_paths} paths")
            p = Path(res, prefix, work, contract.replay)
            CTX = p
            try:
                contract.harness(p)
            except PathEnd:
                pass
            except Unsupported:
                raise
            except (KeyboardInterrupt, SystemExit, MemoryError):
                raise
            except z3.Z3Exception as e:
                raise Unsupported(f"z3: {e} :: {traceback.format_exc()[-800:]}")
            except BaseException as e:
                tb = traceback.format_exc()
                if isinstance(e, (TypeError, AttributeError, NotImplementedError)) and (
                    "Sym" in str(e) or "pyvc" in tb.splitlines()[-3] or stand_in(e)
                ):
                    raise Unsupported(f"{type(e).__name__}: {e} :: {tb[-900:]}")
                p.fail(
                    f"{contract.name}: no unexpected exception",
                    f"{type(e).__name__}: {e} :: {tb[-700:]}",
                )
            finally:
                CTX = None
    except Unsupported as e:
        res.error = f"{e} :: {traceback.format_exc()[-700:]}"
        res.error_kind = "unsupported"
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        res.error = traceback.format_exc()[-1500:]
        res.error_kind = "crash"
    res.wall = time.time() - t0
    for name in contract.expect:
        if name not in res.obligations and res.error is None:
            # the obligation was never generated: vacuous
            res.covers.setdefault(f"obligation {name} generated", 0)
    return res


# -------------------------------------------------------------- conversions
def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        raise Unsupported(f"non-finite constant {x}")
    return Fraction(repr(x))  # the decimal reading of the literal


def is_num(x):
    import numpy as _np

    return isinstance(x, (int, float, Fraction, _np.integer, _np.floating, _np.bool_))


def num_z3(x):
    """Arithmetic expression of a symbolic or concrete number."""
    if isinstance(x, SymNum):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ArithRef):
        return x
    import numpy as _np

    if isinstance(x, (bool, _np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, _np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, _np.floating, Fraction)):
        # named irrational constants are kept symbolic
        if isinstance(x, float) and x in SPECIAL:
            return SPECIAL[x]()
        f = to_frac(x if isinstance(x, Fraction) else float(x))
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    raise Unsupported(f"not a number: {type(x)}")


def as_z3int(x):
    if isinstance(x, z3.ExprRef):
        return x
    return num_z3(x)


def as_z3bool(f):
    if isinstance(f, SymBool):
        return f.e
    if isinstance(f, bool):
        return z3.BoolVal(f)
    if isinstance(f, z3.BoolRef):
        return f
    import numpy as _np

    if isinstance(f, _np.bool_):
        return z3.BoolVal(bool(f))
    if isinstance(f, z3.QuantifierRef):
        return f
    raise Unsupported(f"not a formula: {type(f)}")


def And(*fs):
    fs = fs[0] if len(fs) == 1 and isinstance(fs[0], (list, tuple)) else fs
    return SymBool(z3.And(*[as_z3bool(f) for f in fs]) if fs else z3.BoolVal(True))


def Or(*fs):
    fs = fs[0] if len(fs) == 1 and isinstance(fs[0], (list, tuple)) else fs
    return SymBool(z3.Or(*[as_z3bool(f) for f in fs]) if fs else z3.BoolVal(False))


def Not(f):
    return SymBool(z3.Not(as_z3bool(f)))


def Implies(a, b):
    return SymBool(z3.Implies(as_z3bool(a), as_z3bool(b)))


def eq(a, b):
    """Mathematical equality of two values of the modelled domain."""
    if isinstance(a, SymComplex) or isinstance(b, SymComplex) or isinstance(a, complex) or isinstance(b, complex):
        a, b = SymComplex.lift(a), SymComplex.lift(b)
        return And(a.re == b.re, a.im == b.im)
    if isinstance(a, (SymStr, str)) and isinstance(b, (SymStr, str)):
        return SymBool(str_z3(a) == str_z3(b))
    if isinstance(a, (SymNum, SymBool)) or isinstance(b, (SymNum, SymBool)) or is_num(a):
        if isinstance(a, SymBool) and isinstance(b, (SymBool, bool)):
            return SymBool(a.e == as_z3bool(b))
        x, y = coerce2(num_z3(a), num_z3(b))
        return SymBool(x == y)
    r = a == b
    return r if isinstance(r, SymBool) else SymBool(z3.BoolVal(bool(r)))


# named constants kept symbolic with the facts one may use about them
SPECIAL = {}
_PI = z3.Real("pi")


def _pi():
    p = ctx()
    p.fact(z3.And(_PI > z3.RealVal("3.14159265"), _PI < z3.RealVal("3.14159266")))
    return _PI


SPECIAL[math.pi] = _pi
SPECIAL[2 * math.pi] = lambda: 2 * _pi()
SPECIAL[math.pi / 2] = lambda: _pi() / 2


def coerce2(a, b):
    if a.sort() == b.sort():
        return a, b
    if a.sort() == z3.IntSort():
        a = z3.ToReal(a)
    if b.sort() == z3.IntSort():
        b = z3.ToReal(b)
    return a, b


# -------------------------------------------------------------- symbolic bool
class SymBool:
    __slots__ = ("e",)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __and__(self, o):
        if isinstance(o, SymArray):
            return NotImplemented
        return SymBool(z3.And(self.e, as_z3bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymArray):
            return NotImplemented
        return SymBool(z3.Or(self.e, as_z3bool(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return SymBool(self.e == as_z3bool(o))
        if isinstance(o, (SymNum,)) or is_num(o):
            return SymNum(num_z3(self)) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        raise Unsupported("hash of symbolic bool")

    def __add__(self, o):
        return SymNum(num_z3(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return SymNum(num_z3(self)) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return SymNum(num_z3(self)) - o

    def __rsub__(self, o):
        return o - SymNum(num_z3(self))

    def __repr__(self):
        return f"SymBool({self.e})"


# -------------------------------------------------------------- symbolic number
def _arr_other(o):
    import numpy as _np

    return isinstance(o, (SymArray, _np.ndarray))


class SymNum:
    """Python int (Int sort) or float (Real sort: floats are reals here)."""

    __slots__ = ("e", "meta")
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e
        self.meta = None

    @property
    def is_int(self):
        return self.e.sort() == z3.IntSort()

    def _bin(self, o, f):
        if isinstance(o, SymComplex) or isinstance(o, complex):
            return NotImplemented
        if _arr_other(o):
            return NotImplemented
        if isinstance(o, (SymStr, str, list, tuple, dict)) or o is None:
            return NotImplemented
        a, b = coerce2(self.e, num_z3(o))
        return SymNum(f(a, b))

    def __add__(self, o):
        if isinstance(o, complex):
            return SymComplex.lift(self) + o
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if isinstance(o, complex):
            return SymComplex.lift(o) + SymComplex.lift(self)
        if _arr_other(o):
            return arr_map2(o, self, lambda a, b: a + b)
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        if isinstance(o, complex):
            return SymComplex.lift(self) - o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinstance(o, complex):
            return SymComplex.lift(o) - SymComplex.lift(self)
        if _arr_other(o):
            return arr_map2(o, self, lambda a, b: a - b)
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, complex):
            return SymComplex.lift(self) * o
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, complex):
            return SymComplex.lift(o) * SymComplex.lift(self)
        if _arr_other(o):
            return arr_map2(o, self, lambda a, b: a * b)
        return self._bin(o, lambda a, b: b * a)

    def __truediv__(self, o):
        if isinstance(o, complex):
            return SymComplex.lift(self) / o
        if isinstance(o, (SymComplex, complex)) or _arr_other(o):
            return NotImplemented
        return div(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, complex):
            return SymComplex.lift(o) / SymComplex.lift(self)
        if isinstance(o, SymComplex) or isinstance(o, complex):
            return NotImplemented
        if _arr_other(o):
            return arr_map2(o, self, lambda a, b: div(a, b))
        return div(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        return mod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        if _arr_other(o):
            return arr_map2(o, self, power)
        return power(o, self)

    def __neg__(self):
        return SymNum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, f):
        if _arr_other(o):
            return NotImplemented
        if isinstance(o, (SymStr, str)) or o is None:
            return NotImplemented
        if isinstance(o, float) and math.isinf(o):
            big = o > 0
            return bool(f(0, 1) if big else f(0, -1))
        if not (isinstance(o, (SymNum, SymBool)) or is_num(o)):
            return NotImplemented
        a, b = coerce2(self.e, num_z3(o))
        return SymBool(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, (SymComplex, complex)):
            return SymComplex.lift(self) == o
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented and not _arr_other(o) else r

    def __ne__(self, o):
        if isinstance(o, (SymComplex, complex)):
            return SymComplex.lift(self) != o
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented and not _arr_other(o) else r

    def __hash__(self):
        raise Unsupported("hash of a symbolic number")

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __index__(self):
        v = z3.simplify(self.e)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported("symbolic value used as a native index")

    def __float__(self):
        raise Unsupported("native float() of a symbolic number")

    def __int__(self):
        raise Unsupported("native int() of a symbolic number")

    def __format__(self, spec):
        raise Unsupported("native format of a symbolic number")

    def __round__(self, nd=None):
        from . import npmodel

        return npmodel.py_round(self, nd)

    def __floor__(self):
        return SymNum(z3.ToInt(self.e)) if not self.is_int else self

    def __trunc__(self):
        return to_int(self)

    # number protocol bits used by numpy on object arrays
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    conj = conjugate

    def is_integer(self):
        return SymBool(z3.IsInt(self.e)) if not self.is_int else True

    def sqrt(self):
        from . import npmodel

        return npmodel.sqrt(self)

    def exp(self):
        from . import npmodel

        return npmodel.exp(self)

    def cos(self):
        from . import npmodel

        return npmodel.cos(self)

    def sin(self):
        from . import npmodel

        return npmodel.sin(self)

    def deg2rad(self):
        from . import npmodel

        return npmodel.deg2rad(self)

    def __repr__(self):
        return f"SymNum({self.e})"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def div(a, b, numpy_semantics=False):
    na, nb = num_z3(a), num_z3(b)
    if nb.sort() == z3.IntSort():
        nb = z3.ToReal(nb)
    if na.sort() == z3.IntSort():
        na = z3.ToReal(na)
    s = z3.simplify(nb)
    if z3.is_rational_value(s) and s.as_fraction() != 0:
        return SymNum(na / nb)
    if not numpy_semantics:
        if ctx().branch(nb == 0):
            raise ZeroDivisionError("float division by zero")
    return SymNum(na / nb)


def floordiv(a, b):
    na, nb = coerce2(num_z3(a), num_z3(b))
    if ctx().branch(nb == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if na.sort() == z3.IntSort():
        return SymNum(z3.If(nb > 0, na / nb, (-na) / (-nb)))
    return SymNum(z3.ToReal(z3.ToInt(na / nb)))


def mod(a, b):
    if isinstance(a, (str, SymStr)):
        return NotImplemented
    na, nb = coerce2(num_z3(a), num_z3(b))
    if ctx().branch(nb == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if z3.is_int_value(nb) and nb.as_long() > 0 and na.sort() == z3.IntSort():
        return SymNum(na % nb)
    q = num_z3(floordiv(a, b))
    na, q2 = coerce2(na, q)
    nb, q2 = coerce2(nb, q2)
    return SymNum(na - nb * q2)


def power(a, b):
    if isinstance(a, SymComplex) or isinstance(a, complex):
        return SymComplex.lift(a) ** b
    nb = None
    if is_num(b):
        nb = to_frac(b)
    elif isinstance(b, SymNum):
        s = z3.simplify(b.e)
        if z3.is_int_value(s):
            nb = Fraction(s.as_long())
        elif z3.is_rational_value(s):
            nb = s.as_fraction()
    if nb is not None and nb.denominator == 1 and abs(nb.numerator) <= 8:
        n = nb.numerator
        e = num_z3(a)
        r = z3.IntVal(1) if e.sort() == z3.IntSort() else z3.RealVal(1)
        for _ in range(abs(n)):
            r = r * e
        if isinstance(b, float) or (isinstance(b, SymNum) and not b.is_int):
            if r.sort() == z3.IntSort():
                r = z3.ToReal(r)
        if n < 0:
            return div(1, SymNum(r))
        return SymNum(r)
    if nb == Fraction(1, 2):
        from . import npmodel

        return npmodel.sqrt(SymNum(num_z3(a)))
    from . import npmodel

    return npmodel.uf_pow(a, b)


def to_int(x):
    """int(x): truncation towards zero."""
    if isinstance(x, SymBool):
        return SymNum(num_z3(x))
    if x.is_int:
        return x
    return SymNum(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))


# -------------------------------------------------------------- complex
class SymComplex:
    __slots__ = ("re", "im")
    __array_ufunc__ = None

    def __init__(self, re, im):
        self.re = re if isinstance(re, SymNum) else SymNum(num_z3(re))
        self.im = im if isinstance(im, SymNum) else SymNum(num_z3(im))

    @staticmethod
    def lift(x):
        if isinstance(x, SymComplex):
            return x
        if isinstance(x, (SymNum, SymBool)) or is_num(x):
            return SymComplex(num_z3(x), z3.RealVal(0))
        import numpy as _np

        if isinstance(x, (complex, _np.complexfloating)):
            return SymComplex(float(x.real), float(x.imag))
        raise Unsupported(f"not complex: {type(x)}")

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)

    def conjugate(self):
        return SymComplex(self.re, -self.im)

    conj = conjugate

    def _o(self, o):
        if _arr_other(o):
            return None
        return SymComplex.lift(o)

    def __add__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else SymComplex(self.re + b.re, self.im + b.im)

    def __radd__(self, o):
        if _arr_other(o):
            return arr_map2(o, self, lambda a, b: a + b)
        return self + o

    def __sub__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else SymComplex(self.re - b.re, self.im - b.im)

    def __rsub__(self, o):
        if _arr_other(o):
            return arr_map2(o, self, lambda a, b: a - b)
        return SymComplex.lift(o) - self

    def __mul__(self, o):
        b = self._o(o)
        if b is None:
            return NotImplemented
        return SymComplex(self.re * b.re - self.im * b.im, self.re * b.im + self.im * b.re)

    def __rmul__(self, o):
        if _arr_other(o):
            return arr_map2(o, self, lambda a, b: a * b)
        return SymComplex.lift(o) * self

    def __truediv__(self, o):
        b = self._o(o)
        if b is None:
            return NotImplemented
        d = b.re * b.re + b.im * b.im
        if ctx().branch(z3.And(b.re.e == 0, b.im.e == 0)):
            raise ZeroDivisionError("complex division by zero")
        n = self * b.conjugate()
        return SymComplex(SymNum(toreal(n.re.e) / toreal(d.e)), SymNum(toreal(n.im.e) / toreal(d.e)))

    def __rtruediv__(self, o):
        if _arr_other(o):
            return arr_map2(o, self, lambda a, b: a / b)
        return SymComplex.lift(o) / self

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def __pos__(self):
        return self

    def __pow__(self, n):
        if is_num(n) and to_frac(n).denominator == 1 and 0 <= to_frac(n) <= 8:
            r = SymComplex(1, 0)
            for _ in range(int(n)):
                r = r * self
            return r
        raise Unsupported("complex power")

    def __abs__(self):
        from . import npmodel

        return npmodel.sqrt(self.re * self.re + self.im * self.im)

    def __eq__(self, o):
        if _arr_other(o):
            return NotImplemented
        try:
            b = SymComplex.lift(o)
        except Unsupported:
            return False
        return And(self.re == b.re, self.im == b.im)

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        raise Unsupported("hash of a symbolic complex")

    def __bool__(self):
        return bool(Or(self.re != 0, self.im != 0))

    def exp(self):
        from . import npmodel

        return npmodel.exp(self)

    def __repr__(self):
        return f"SymComplex({self.re},{self.im})"

    def __deepcopy__(self, memo):
        return self


def toreal(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


# -------------------------------------------------------------- strings
def str_z3(x):
    if isinstance(x, SymStr):
        return x.e
    if isinstance(x, str):
        return z3.StringVal(str(x))
    raise Unsupported(f"not a string: {type(x)}")


_LOWER = z3.Function("str_lower", z3.StringSort(), z3.StringSort())
_UPPER = z3.Function("str_upper", z3.StringSort(), z3.StringSort())
_STRIP = z3.Function("str_strip", z3.StringSort(), z3.StringSort())


class SymStr:
    __slots__ = ("e", "pieces")
    __array_ufunc__ = None

    def __init__(self, e, pieces=None):
        self.e = e
        self.pieces = pieces

    def __eq__(self, o):
        if isinstance(o, (SymStr, str)):
            return SymBool(self.e == str_z3(o))
        return False

    def __ne__(self, o):
        if isinstance(o, (SymStr, str)):
            return SymBool(self.e != str_z3(o))
        return True

    def __lt__(self, o):
        return SymBool(self.e < str_z3(o)) if isinstance(o, (SymStr, str)) else NotImplemented

    def __gt__(self, o):
        return SymBool(str_z3(o) < self.e) if isinstance(o, (SymStr, str)) else NotImplemented

    def __le__(self, o):
        return SymBool(self.e <= str_z3(o)) if isinstance(o, (SymStr, str)) else NotImplemented

    def __ge__(self, o):
        return SymBool(str_z3(o) <= self.e) if isinstance(o, (SymStr, str)) else NotImplemented

    def __hash__(self):
        raise Unsupported("hash of a symbolic string")

    def __add__(self, o):
        if not isinstance(o, (SymStr, str)):
            return NotImplemented
        return SymStr(z3.Concat(self.e, str_z3(o)), join_pieces(self, o))

    def __radd__(self, o):
        if not isinstance(o, (SymStr, str)):
            return NotImplemented
        return SymStr(z3.Concat(str_z3(o), self.e), join_pieces(o, self))

    def __bool__(self):
        return ctx().branch(z3.Length(self.e) > 0)

    def __contains__(self, o):
        return bool(SymBool(z3.Contains(self.e, str_z3(o))))

    def contains(self, o):
        return SymBool(z3.Contains(self.e, str_z3(o)))

    def startswith(self, o):
        if isinstance(o, tuple):
            return Or([self.startswith(x) for x in o])
        if o == "-" and is_text(self.pieces):
            q = self.pieces[0]
            return q[:1] == "-" if isinstance(q, str) else SymBool(num_z3(q[2]) < 0)
        return SymBool(z3.PrefixOf(str_z3(o), self.e))

    def endswith(self, o):
        if isinstance(o, tuple):
            return Or([self.endswith(x) for x in o])
        return SymBool(z3.SuffixOf(str_z3(o), self.e))

    def lower(self):
        r = _LOWER(self.e)
        p = ctx()
        p.fact(_LOWER(r) == r)
        p.fact(z3.Length(r) == z3.Length(self.e))
        return SymStr(r)

    def upper(self):
        r = _UPPER(self.e)
        p = ctx()
        p.fact(_UPPER(r) == r)
        p.fact(z3.Length(r) == z3.Length(self.e))
        return SymStr(r)

    def strip(self, *a):
        if a:
            raise Unsupported("strip(chars)")
        if is_text(self.pieces) and not any(isinstance(q, str) and q != q.strip() or not isinstance(q, str) and not PLAIN.fullmatch(q[1])
                                            for q in (self.pieces[0], self.pieces[-1])):
            return self
        r = _STRIP(self.e)
        ctx().fact(_STRIP(r) == r)
        return SymStr(r)

    def isspace(self):
        return SymBool(z3.And(z3.Length(self.e) > 0, _STRIP(self.e) == z3.StringVal("")))

    def length(self):
        return SymNum(z3.Length(self.e))

    def __getitem__(self, k):
        n = z3.Length(self.e)
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("string slice step")

            def norm(v, dflt):
                if v is None:
                    return dflt
                v = num_z3(v)
                v = z3.If(v < 0, v + n, v)
                return z3.If(v < 0, z3.IntVal(0), z3.If(v > n, n, v))

            a, b = norm(k.start, z3.IntVal(0)), norm(k.stop, n)
            return SymStr(z3.SubString(self.e, a, z3.If(b > a, b - a, z3.IntVal(0))))
        i = num_z3(k)
        if ctx().branch(z3.Or(i >= n, i < -n)):
            raise IndexError("string index out of range")
        i = z3.If(i < 0, i + n, i)
        return SymStr(z3.SubString(self.e, i, 1))

    def replace(self, a, b):
        return SymStr(z3_replace_all(self.e, str_z3(a), str_z3(b)))

    def find(self, s):
        return SymNum(z3.IndexOf(self.e, str_z3(s), 0))

    def split(self, sep=None, maxsplit=-1):
        """text between separators"""
        if sep is None:
            raise Unsupported("split on whitespace")
        if isinstance(sep, str) and sep and is_text(self.pieces) and not set(sep) & set("0123456789+-.einfa "):
            groups = [[]]
            for q in self.pieces:
                if isinstance(q, str):
                    bits = q.split(sep)
                    groups[-1].append(bits[0])
                    groups += [[x] for x in bits[1:]]
                else:
                    groups[-1].append(q)
            if maxsplit == -1:
                return [from_pieces(g) for g in groups]
        p = ctx()
        s, t = self.e, str_z3(sep)
        if p.branch(z3.Length(t) == 0):
            raise ValueError("empty separator")
        if maxsplit == 1:
            if p.branch(z3.Contains(s, t)):
                i = z3.IndexOf(s, t, 0)
                j = i + z3.Length(t)
                a, b = z3.SubString(s, 0, i), z3.SubString(s, j, z3.Length(s) - j)
                p.fact(z3.And(i >= 0, s == z3.Concat(a, t, b), z3.Not(z3.Contains(a, t))))
                return [SymStr(a), SymStr(b)]
            return [SymStr(s)]
        if maxsplit != -1:
            raise Unsupported("split with a limit")
        p.trusted("str.split: the parts between the separators, at least one, none containing the separator")
        S, I = z3.StringSort(), z3.IntSort()
        nf = z3.Function("split.n", S, S, I)
        pf = z3.Function("split.part", S, S, I, S)
        n = nf(s, t)
        p.fact(z3.And(n >= 1, (n == 1) == z3.Not(z3.Contains(s, t)), z3.Implies(n == 1, pf(s, t, 0) == s)))

        def part(i):
            p.fact(z3.Not(z3.Contains(pf(s, t, i), t)))
            return SymStr(pf(s, t, i))

        return SymSeq(SymNum(n), part, "parts")

    def __format__(self, spec):
        raise Unsupported("native format of a symbolic string")

    def __repr__(self):
        return f"SymStr({self.e})"

    def __deepcopy__(self, memo):
        return self


PLAIN = re.compile(r"0?\d*(\.\d+)?[fdgGeE]?|0>\d+")


def is_text(pieces):
    """a text made of literals and formatted numbers"""
    return bool(pieces) and all(isinstance(q, str) or q[0] == "num" for q in pieces)


def text_pieces(x):
    if isinstance(x, str):
        return (x,) if x else ()
    return x.pieces if is_text(x.pieces) else None


def join_pieces(a, b):
    a, b = text_pieces(a), text_pieces(b)
    if a is None or b is None:
        return None
    if a and b and isinstance(a[-1], str) and isinstance(b[0], str):
        return a[:-1] + (a[-1] + b[0],) + b[1:]
    return a + b


def from_pieces(g):
    from .helpers import to_text

    g = [q for q in g if q != ""]
    if all(isinstance(q, str) for q in g):
        return "".join(g)
    out = None
    for q in g:
        v = q if isinstance(q, str) else to_text(q[2], q[1])
        out = v if out is None else out + v
    return out


def z3_replace_all(s, a, b):
    f = z3.Function("str_replace_all", z3.StringSort(), z3.StringSort(), z3.StringSort(), z3.StringSort())
    return f(s, a, b)


# -------------------------------------------------------------- arrays
class SymArray:
    """A 1-d numpy array of symbolic length with elements given by index."""

    __array_ufunc__ = None
    __array_priority__ = 1e9

    def __init__(self, n, f, kind=None):
        self.n = n
        self.f = f
        self.kind = kind
        self.name = None

    def at(self, i):
        return self.f(i)

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    @property
    def ndim(self):
        return 1

    @property
    def dtype(self):
        import numpy as _np

        v = self.f(z3.Int("dtype_probe"))
        if isinstance(v, SymComplex):
            return _np.dtype(complex)
        if isinstance(v, SymBool):
            return _np.dtype(bool)
        if isinstance(v, SymNum) and v.is_int:
            return _np.dtype(int)
        return _np.dtype(float)

    @property
    def real(self):
        return SymArray(self.n, lambda i: SymComplex.lift(self.f(i)).re)

    @property
    def imag(self):
        return SymArray(self.n, lambda i: SymComplex.lift(self.f(i)).im)

    def all(self):
        from .helpers import b_all

        return b_all(self)

    def any(self):
        from .helpers import b_any

        return b_any(self)

    def map(self, g):
        f = self.f
        return SymArray(self.n, lambda i: g(f(i)))

    def _b(self, o, g):
        return arr_map2(self, o, g)

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._b(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._b(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return self._b(o, np_div)

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: np_div(b, a))

    def __pow__(self, o):
        return self._b(o, power)

    def __rpow__(self, o):
        return self._b(o, lambda a, b: power(b, a))

    def __neg__(self):
        return self.map(lambda a: -a)

    def __abs__(self):
        return self.map(abs)

    def __lt__(self, o):
        return self._b(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._b(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._b(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._b(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._b(o, eq)

    def __ne__(self, o):
        return self._b(o, lambda a, b: ~eq(a, b))

    def __and__(self, o):
        return self._b(o, And)

    __rand__ = __and__

    def __or__(self, o):
        return self._b(o, Or)

    __ror__ = __or__

    def __invert__(self):
        return self.map(Not)

    def __iadd__(self, o):
        self.f = (self + o).f
        return self

    def __imul__(self, o):
        self.f = (self * o).f
        return self

    def __isub__(self, o):
        self.f = (self - o).f
        return self

    def __itruediv__(self, o):
        self.f = (self / o).f
        return self

    def __hash__(self):
        raise Unsupported("hash of a symbolic array")

    def __bool__(self):
        n = self.n.e if isinstance(self.n, SymNum) else z3.IntVal(self.n)
        n = z3.simplify(n)
        if z3.is_int_value(n) and n.as_long() == 1:
            return bool(self.f(z3.IntVal(0)))
        if not z3.is_int_value(n) and ctx().branch(n == 1):
            return bool(self.f(z3.IntVal(0)))
        raise ValueError("The truth value of an array is ambiguous")

    def __len__(self):
        raise Unsupported("native len() of a symbolic array")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic array")

    def copy(self):
        return SymArray(self.n, self.f)

    def astype(self, t, *a, **k):
        if t in (float, "float", "float64"):
            return self.map(lambda v: v if isinstance(v, SymComplex) else SymNum(toreal(num_z3(v))))
        if t in (complex,):
            return self.map(SymComplex.lift)
        raise Unsupported(f"astype {t}")

    def conj(self):
        return self.map(lambda v: v.conjugate())

    conjugate = conj

    def _norm(self, k):
        n = as_z3int(self.n)
        i = num_z3(k)
        if ctx().branch(z3.Or(i >= n, i < -n)):
            raise IndexError("index out of bounds")
        return z3.If(i < 0, i + n, i)

    def __getitem__(self, k):
        if k is Ellipsis:
            return self
        if isinstance(k, slice):
            n = as_z3int(self.n)
            if k.step == -1 and k.start is None and k.stop is None:
                f = self.f
                return SymArray(self.n, lambda i: f(n - 1 - i))
            if k.step not in (None, 1):
                raise Unsupported("array slice step")

            def norm(v, dflt):
                if v is None:
                    return dflt
                v = num_z3(v)
                v = z3.If(v < 0, v + n, v)
                return z3.If(v < 0, z3.IntVal(0), z3.If(v > n, n, v))

            a, b = norm(k.start, z3.IntVal(0)), norm(k.stop, n)
            f = self.f
            m = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
            return SymArray(SymNum(m), lambda i: f(i + a))
        if isinstance(k, SymArray):
            from .npmodel import positions

            probe = k.f(z3.Int("dtype_probe"))
            ix = positions(k) if isinstance(probe, SymBool) else k
            f = self.f
            if ix is k and not (isinstance(probe, SymNum) and probe.is_int):
                raise Unsupported("selection by an array")
            if ix is k:
                ctx().trusted("indices of a fancy selection are within the array")
            out = SymArray(ix.n, lambda i: f(num_z3(ix.f(i))))
            out.mask_of = (self, k)
            out.src = getattr(ix, "src", None)
            return out
        return self.f(self._norm(k))

    def __setitem__(self, k, v):
        f = self.f
        if isinstance(k, slice) and k == slice(None, None, None) or k is Ellipsis:
            self.f = v.f if isinstance(v, SymArray) else (lambda i: v)
            return
        if isinstance(k, SymArray):  # boolean mask
            m = k.f
            if isinstance(v, (SymArray,)):
                src = getattr(v, "mask_of", None)
                if src is not None and src[1] is k:
                    g = src[0].f
                    self.f = lambda i: ite(m(i), g(i), f(i))
                    return
                raise Unsupported("mask assignment of an array")
            self.f = lambda i: ite(m(i), v, f(i))
            return
        j = self._norm(k)
        self.f = lambda i: ite(SymBool(i == j), v, f(i))

    def tolist(self):
        return self

    def flatten(self):
        return self

    def _red(self, name):
        from .npmodel import functional

        return functional(name, self)(lambda j: self.f(j), as_z3int(self.n))

    def mean(self, *a):
        return self._red("MEAN")

    def sum(self, *a):
        return self._red("SUM")

    def min(self, *a):
        from .helpers import seq_extreme

        return seq_extreme(self, "min")

    def max(self, *a):
        from .helpers import seq_extreme

        return seq_extreme(self, "max")

    def __deepcopy__(self, memo):
        return self.copy()

    def __repr__(self):
        return f"SymArray(n={self.n})"


def np_div(a, b):
    """numpy division: no ZeroDivisionError (result unspecified at 0)."""
    if isinstance(a, (SymComplex, complex)) or isinstance(b, (SymComplex, complex)):
        a, b = SymComplex.lift(a), SymComplex.lift(b)
        d = b.re * b.re + b.im * b.im
        n = a * b.conjugate()
        return SymComplex(SymNum(toreal(n.re.e) / toreal(d.e)), SymNum(toreal(n.im.e) / toreal(d.e)))
    return div(a, b, numpy_semantics=True)


def ite(c, a, b):
    c = as_z3bool(c)
    s = z3.simplify(c)
    if z3.is_true(s):
        return a
    if z3.is_false(s):
        return b
    if isinstance(a, (SymComplex, complex)) or isinstance(b, (SymComplex, complex)):
        a, b = SymComplex.lift(a), SymComplex.lift(b)
        return SymComplex(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, (SymStr, str)) and isinstance(b, (SymStr, str)):
        return SymStr(z3.If(c, str_z3(a), str_z3(b)))
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return SymBool(z3.If(c, as_z3bool(a), as_z3bool(b)))
    x, y = coerce2(num_z3(a), num_z3(b))
    return SymNum(z3.If(c, x, y))


def arr_map2(a, b, g):
    import numpy as _np

    if isinstance(a, _np.ndarray) and not isinstance(b, SymArray):
        return obj_map(a, lambda x: g(x, b))
    if isinstance(b, _np.ndarray) and not isinstance(a, SymArray):
        return obj_map(b, lambda x: g(a, x))
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        # 0-d or length-1 concrete arrays broadcast
        arr = a if isinstance(a, _np.ndarray) else b
        if arr.ndim == 0 or arr.size == 1:
            v = arr.reshape(-1)[0]
            if isinstance(a, _np.ndarray):
                return b.map(lambda x: g(v, x))
            return a.map(lambda x: g(x, v))
        raise Unsupported("mixed concrete/symbolic arrays")
    if isinstance(a, SymArray) and isinstance(b, SymArray):
        na, nb = as_z3int(a.n), as_z3int(b.n)
        if not z3.is_true(z3.simplify(na == nb)):
            if ctx().branch(na == nb):
                pass
            elif ctx().branch(nb == 1):
                v = b.f(z3.IntVal(0))
                return a.map(lambda x: g(x, v))
            elif ctx().branch(na == 1):
                v = a.f(z3.IntVal(0))
                return b.map(lambda x: g(v, x))
            else:
                raise ValueError("operands could not be broadcast together")
        fa, fb = a.f, b.f
        return SymArray(a.n, lambda i: g(fa(i), fb(i)))
    if isinstance(a, SymArray):
        fa = a.f
        return SymArray(a.n, lambda i: g(fa(i), b))
    fb = b.f
    return SymArray(b.n, lambda i: g(a, fb(i)))


def obj_map(a, g):
    import numpy as _np

    out = _np.empty(a.shape, dtype=object)
    for ix in _np.ndindex(*a.shape):
        x = a[ix]
        if isinstance(x, _np.generic):
            x = x.item()
        out[ix] = g(x)
    return out


# -------------------------------------------------------------- objects
def borrowed(cls, name, obj):
    """The repository's own method `name` of cls, run on a stand-in (a helper method of the code)."""
    for c in getattr(cls, "__mro__", ()):
        f = c.__dict__.get(name)
        if f is None:
            continue
        if not str(getattr(c, "__module__", "")).startswith("mt_metadata"):
            return None
        if isinstance(f, types.FunctionType):
            return types.MethodType(f, obj)
        if isinstance(f, staticmethod):
            return f.__func__
        if isinstance(f, classmethod):
            return types.MethodType(f.__func__, cls)
        return None
    return None


class Borrow:
    """Base of a harness's stand-in for an instance of `_real`: methods it does not state are the real ones."""

    _real = None

    def __getattr__(self, name):
        f = None if name.startswith("__") else borrowed(type(self)._real, name, self)
        if f is None:
            raise AttributeError(f"'{type(self).__name__}' object has no attribute '{name}'", name=name, obj=self)
        return f


class SymObj:
    """A symbolic object: an instance of a stated class known only through its
    attributes and contracts (methods given as callables)."""

    def __init__(self, cls, **attrs):
        object.__setattr__(self, "_cls", cls)
        object.__setattr__(self, "_ident", None)
        for k, v in attrs.items():
            object.__setattr__(self, k, v)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = borrowed(self._cls, name, self)
        if f is not None:
            return f
        raise Unsupported(f"attribute {name} of abstract object is not under contract")

    def __bool__(self):
        return True


class SymSeq:
    """A list of symbolic length; `elem(i)` gives the i-th element."""

    def __init__(self, n, elem, name="seq", cls=list):
        self.n = n if isinstance(n, SymNum) else SymNum(num_z3(n))
        self.elem = elem
        self.name = name
        self.cls = cls
        self.cache = {}

    def at(self, i):
        i = as_z3int(i)
        if CTX is not None and getattr(CTX, "speculative", False):
            return self.elem(i)
        k = i.get_id()
        if k not in self.cache:
            self.cache[k] = (self.elem(i), i)
        return self.cache[k][0]

    def __getitem__(self, k):
        n = self.n.e
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("seq slice step")

            def norm(v, dflt):
                if v is None:
                    return dflt
                v = num_z3(v)
                v = z3.If(v < 0, v + n, v)
                return z3.If(v < 0, z3.IntVal(0), z3.If(v > n, n, v))

            a, b = norm(k.start, z3.IntVal(0)), norm(k.stop, n)
            m = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
            r = SymSeq(SymNum(m), lambda i: self.at(z3.simplify(i + a)), self.name, self.cls)
            r.sliced = (self, a)
            if hasattr(self, "pairs_of"):
                r.pairs_of, r.whole, r.offset = self.pairs_of, False, a + getattr(self, "offset", 0)
            return r
        i = num_z3(k)
        if ctx().branch(z3.Or(i >= n, i < -n)):
            raise IndexError("list index out of range")
        if ctx().branch(i < 0):
            i = i + n
        return self.at(z3.simplify(i))

    def __bool__(self):
        return ctx().branch(self.n.e > 0)

    def index(self, v):
        """first position of v"""
        p, n = ctx(), self.n.e
        from .helpers import same

        i = z3.Int(p.fresh("index"))
        home = getattr(self, "home", None)
        if home is not None and isinstance(v, (str, SymStr)):
            if not p.branch(home.has(str_z3(v))):
                raise ValueError("not in list")
            return SymNum(home.pos(str_z3(v)))
        if not p.branch(z3.Bool(p.fresh("found"))):
            for jj in (z3.IntVal(0), n - 1, *p.ufapps.get("indices", ())):
                p.add(z3.Implies(z3.And(jj >= 0, jj < n), z3.Not(as_z3bool(same(self.at(jj), v)))))
            raise ValueError("not in list")
        p.add(z3.And(i >= 0, i < n, as_z3bool(same(self.at(i), v))))
        for jj in (z3.IntVal(0), *p.ufapps.get("indices", ())):
            p.add(z3.Implies(z3.And(jj >= 0, jj < i), z3.Not(as_z3bool(same(self.at(jj), v)))))
        return SymNum(i)

    def __len__(self):
        raise Unsupported("native len() of a symbolic list")

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic list")


# -------------------------------------------------------------- models
def model_value(model, v, depth=0):
    if isinstance(v, SymNum):
        x = model.eval(v.e, model_completion=True)
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            f = x.as_fraction()
            return float(f)
        if z3.is_algebraic_value(x):
            a = x.approx(20)
            return float(a.as_fraction())
        return str(x)
    if isinstance(v, SymBool):
        return z3.is_true(model.eval(v.e, model_completion=True))
    if isinstance(v, SymStr):
        return model.eval(v.e, model_completion=True).as_string()
    if isinstance(v, SymComplex):
        return [model_value(model, v.re), model_value(model, v.im)]
    if isinstance(v, SymArray):
        n = model_value(model, v.n) if isinstance(v.n, SymNum) else v.n
        n = max(0, min(int(n), 64))
        return [model_value(model, v.f(z3.IntVal(i))) for i in range(n)]
    if isinstance(v, SymSeq):
        n = max(0, min(int(model_value(model, v.n)), 16))
        return [model_value(model, v.at(z3.IntVal(i))) for i in range(n)]
    if isinstance(v, SymObj):
        return {
            k: model_value(model, x)
            for k, x in v.__dict__.items()
            if not k.startswith("_") and not callable(x)
        }
    if isinstance(v, (list, tuple)):
        return [model_value(model, x) for x in v]
    if isinstance(v, dict):
        return {k: model_value(model, x) for k, x in v.items()}
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    if isinstance(v, z3.ExprRef):
        return str(model.eval(v, model_completion=True))
    return repr(v)
