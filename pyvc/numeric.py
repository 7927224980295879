"""Evaluation of z3 terms at random points: refutes goals that symbolic
procedures cannot bring to a common normal form (never proves anything)."""
import math
import random

import z3


class Undefined(Exception):
    pass


FN = {"cos": math.cos, "sin": math.sin, "sqrt": math.sqrt, "exp": math.exp, "tanh": math.tanh, "log": math.log}
TOL = 1e-7


class Point:
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.val = {}
        self.cache = {}

    def draw(self, key, sort):
        if key not in self.val:
            if sort == z3.IntSort():
                self.val[key] = self.rng.randint(0, 6)
            elif sort == z3.BoolSort():
                self.val[key] = self.rng.random() < 0.5
            elif sort == z3.RealSort():
                nm = key[0]
                if nm == "pi":
                    self.val[key] = math.pi
                else:
                    wide = len(key) == 1 and self.rng.random() < 0.5
                    self.val[key] = round(self.rng.uniform(-200, 200), 2) if wide else round(self.rng.uniform(-3, 3), 3)
            else:
                raise Undefined()
        return self.val[key]

    def ev(self, e):
        k = e.get_id()
        if k not in self.cache:
            self.cache[k] = (self._ev(e), e)
        return self.cache[k][0]

    def _ev(self, e):
        if z3.is_rational_value(e):
            f = e.as_fraction()
            return f.numerator / f.denominator
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if z3.is_quantifier(e):
            raise Undefined()
        d, ch = e.decl().kind(), e.children()
        if d == z3.Z3_OP_ITE:
            return self.ev(ch[1]) if self.ev(ch[0]) else self.ev(ch[2])
        if d == z3.Z3_OP_AND:
            return all(self.ev(c) for c in ch)
        if d == z3.Z3_OP_OR:
            return any(self.ev(c) for c in ch)
        if d == z3.Z3_OP_NOT:
            return not self.ev(ch[0])
        if d == z3.Z3_OP_IMPLIES:
            return (not self.ev(ch[0])) or self.ev(ch[1])
        if d == z3.Z3_OP_UNINTERPRETED:
            args = tuple(self.ev(c) for c in ch)
            nm = e.decl().name()
            if nm in FN and len(args) == 1:
                try:
                    return FN[nm](args[0])
                except (ValueError, OverflowError):
                    raise Undefined()
            return self.draw((nm,) + args, e.sort())
        a = [self.ev(c) for c in ch]
        if d == z3.Z3_OP_ADD:
            return sum(a)
        if d == z3.Z3_OP_SUB:
            return a[0] - sum(a[1:])
        if d == z3.Z3_OP_UMINUS:
            return -a[0]
        if d == z3.Z3_OP_MUL:
            r = 1
            for x in a:
                r = r * x
            return r
        if d == z3.Z3_OP_DIV:
            if abs(a[1]) < 1e-3:
                raise Undefined()
            return a[0] / a[1]
        if d == z3.Z3_OP_POWER:
            try:
                r = a[0] ** a[1]
            except (ZeroDivisionError, OverflowError):
                raise Undefined()
            if isinstance(r, complex):
                raise Undefined()
            return r
        if d == z3.Z3_OP_TO_REAL:
            return a[0]
        if d == z3.Z3_OP_TO_INT:
            return math.floor(a[0])
        if d == z3.Z3_OP_EQ:
            return self.near(a[0], a[1])
        if d == z3.Z3_OP_DISTINCT:
            return not self.near(a[0], a[1])
        if d == z3.Z3_OP_LE:
            return a[0] <= a[1]
        if d == z3.Z3_OP_LT:
            return a[0] < a[1]
        if d == z3.Z3_OP_GE:
            return a[0] >= a[1]
        if d == z3.Z3_OP_GT:
            return a[0] > a[1]
        raise Undefined()

    def eval(self, e, model_completion=True):
        v = self.ev(e)
        if isinstance(v, bool):
            return z3.BoolVal(v)
        return z3.IntVal(v) if isinstance(v, int) and e.sort() == z3.IntSort() else z3.RealVal(repr(float(v)))

    def near(self, x, y):
        if isinstance(x, (bool, int)) and isinstance(y, (bool, int)):
            return x == y
        return abs(x - y) <= TOL * max(1.0, abs(x), abs(y))


def refute(path, goal, tries=60):
    """a point where every path condition holds and the goal does not"""
    for t in range(tries):
        pt = Point(t)
        try:
            if pt.ev(goal):
                continue
        except (Undefined, OverflowError):
            continue
        ok = True
        for f in path:
            try:
                if not pt.ev(f):
                    ok = False
                    break
            except (Undefined, OverflowError):
                ok = False
                break
        if ok:
            return pt
    return None
