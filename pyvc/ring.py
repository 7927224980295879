"""Decision procedure for equalities of rational expressions.

A real term is brought to a normal form N/D with N, D polynomials over atoms
(variables and applications of uninterpreted functions, arguments normalised
the same way) modulo sin(a)^2 = 1 - cos(a)^2.  Two terms with the same normal
form are equal wherever the denominators are not zero; terms with different
normal forms differ somewhere, since the atoms are otherwise unrelated.
"""
from fractions import Fraction

import z3

ONE = {(): Fraction(1)}
LIMIT = 60000


class TooBig(Exception):
    pass


def large(e, limit=400):
    """more than `limit` different subterms"""
    seen, todo = set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() not in seen:
            seen.add(t.get_id())
            if len(seen) > limit:
                return True
            todo += t.children()
    return False


class Ring:
    def __init__(self):
        self.cache = {}
        self.atoms = {}     # key -> index
        self.names = []
        self.cos_of = {}    # index of a sine -> index of the cosine of the same angle
        self.nonzero = set()
        self.keep = []
        self.limit = LIMIT
        self.where_defined = False  # claim goals only where no divisor is zero
        self.unsure = set()  # atoms that may equal another one

    # -------------------------------------------------------- polynomials
    @staticmethod
    def padd(a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def pmul(self, a, b):
        if len(a) * len(b) > self.limit:
            raise TooBig()
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                for m, c in self.mono(m1, m2).items():
                    v = r.get(m, 0) + c1 * c2 * c
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
        return r

    def mono(self, m1, m2):
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        out = ONE
        plain = {}
        for a, e in d.items():
            if a in self.cos_of and e >= 2:
                # sin^2 = 1 - cos^2
                sq = {(): Fraction(1), ((self.cos_of[a], 2),): Fraction(-1)}
                for _ in range(e // 2):
                    out = self.pmul(out, sq) if out is not ONE else sq
                e %= 2
            if e:
                plain[a] = plain.get(a, 0) + e
        base = {tuple(sorted(plain.items())): Fraction(1)}
        if out is ONE:
            return base
        r = {}
        for m, c in out.items():
            q = dict(m)
            for a, e in plain.items():
                q[a] = q.get(a, 0) + e
            r[tuple(sorted(q.items()))] = c
        return r

    @staticmethod
    def key(p):
        """canonical up to a scalar factor"""
        if not p:
            return ()
        items = sorted(p.items())
        k = items[0][1]
        return tuple((m, c / k) for m, c in items)

    # -------------------------------------------------------------- terms
    def atom(self, key, name):
        if key not in self.atoms:
            self.atoms[key] = len(self.names)
            self.names.append(name)
        return self.atoms[key]

    def var(self, i):
        return {((i, 1),): Fraction(1)}, ONE

    def norm(self, e):
        k = e.get_id()
        if k not in self.cache:
            self.cache[k] = (self._norm(e), e)
        return self.cache[k][0]

    def _norm(self, e):
        if z3.is_rational_value(e) or z3.is_int_value(e):
            f = e.as_fraction() if z3.is_rational_value(e) else Fraction(e.as_long())
            f = Fraction(f.numerator, f.denominator)
            return ({(): f} if f else {}), ONE
        d = e.decl().kind()
        ch = e.children()
        if d == z3.Z3_OP_ADD:
            n, q = {}, ONE
            for c in ch:
                n, q = self.fadd((n, q), self.norm(c))
            return n, q
        if d == z3.Z3_OP_SUB:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self.fadd(r, self.norm(c), -1)
            return r
        if d == z3.Z3_OP_UMINUS:
            n, q = self.norm(ch[0])
            return {m: -c for m, c in n.items()}, q
        if d == z3.Z3_OP_MUL:
            n, q = ONE, ONE
            for c in ch:
                a, b = self.norm(c)
                n, q = self.pmul(n, a), self.pmul(q, b)
            return n, q
        if d == z3.Z3_OP_DIV:
            a, b = self.norm(ch[0]), self.norm(ch[1])
            return self.pmul(a[0], b[1]), self.pmul(a[1], b[0])
        if d == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) or d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1:
            k = int(ch[1].as_fraction()) if z3.is_rational_value(ch[1]) else ch[1].as_long()
            if 0 <= k <= 8:
                n, q = ONE, ONE
                a = self.norm(ch[0])
                for _ in range(k):
                    n, q = self.pmul(n, a[0]), self.pmul(q, a[1])
                return n, q
        if d == z3.Z3_OP_TO_REAL:
            return self.norm(ch[0])
        if d == z3.Z3_OP_UNINTERPRETED and ch and all(z3.is_arith(c) for c in ch):
            args = []
            if not self.small(ch):
                # by identity of the argument: may not be told from an equal one
                i = self.atom(("term", e.get_id()), str(e.decl().name()) + "(...)")
                self.keep.append(e)
                self.unsure.add(i)
                return self.var(i)
            for c in ch:
                n, q = self.norm(c)
                kq = sorted(q.items())[0][1]
                args.append((tuple(sorted((m, x / kq) for m, x in n.items())), self.key(q)))
            nm = e.decl().name()
            i = self.atom((nm, tuple(args)), str(e)[:80])
            if nm == "sin":
                self.cos_of[i] = self.atom(("cos", tuple(args)), "cos" + str(e)[3:80])
            return self.var(i)
        return self.var(self.atom(("term", e.get_id()), str(e)[:80]))

    def small(self, ch):
        """the normal forms of the arguments can be compared"""
        if any(large(c) for c in ch):
            return False
        old, self.limit = self.limit, min(self.limit, 6000)
        try:
            for c in ch:
                self.norm(c)
            return True
        except TooBig:
            return False
        finally:
            self.limit = old

    def fadd(self, a, b, k=1):
        if a[1] == b[1]:
            return self.padd(a[0], b[0], k), a[1]
        return self.padd(self.pmul(a[0], b[1]), self.pmul(b[0], a[1]), k), self.pmul(a[1], b[1])

    # ------------------------------------------------------------ queries
    def diff(self, a, b):
        """numerator and denominator of a - b"""
        return self.fadd(self.norm(a), self.norm(b), -1)

    def assume_nonzero(self, e):
        n, q = self.norm(e)
        self.nonzero.add(self.key(n))

    def known_nonzero(self, p):
        """a product of factors known not to be zero"""
        if len(p) == 1 and () in p:
            return True
        if self.key(p) in self.nonzero:
            return True
        for k in self.nonzero:
            q = dict(k)
            if len(q) > 1 and len(p) > 1 and self.divides(p, q):
                return True
        return False

    def divides(self, p, q):
        """p is a scalar times a power of q"""
        r = q
        for _ in range(4):
            r = self.pmul(r, q)
            if self.key(r) == self.key(p):
                return True
        return False

    def equality(self, f):
        """True/False when f is an equality of real terms decided by normal forms, else None"""
        if z3.is_not(f):
            r = self.equality(f.children()[0])
            return None if r is None else not r
        if not z3.is_eq(f) or not z3.is_arith(f.children()[0]):
            return None
        try:
            n, q = self.diff(*f.children())
        except TooBig:
            return None
        if not n:
            return True if self.known_nonzero(q) else None
        if self.known_nonzero(n):
            return False
        return None

    def decide(self, f):
        """(verdict, text) for a goal: 'proved', 'differs' or None"""
        if z3.is_and(f):
            rs = [self.decide(c) for c in f.children()]
            if all(r[0] == "proved" for r in rs):
                return "proved", ""
            for r in rs:
                if r[0] == "differs":
                    return r
            return None, ""
        if not z3.is_eq(f) or not z3.is_arith(f.children()[0]):
            return None, ""
        try:
            n, q = self.diff(*f.children())
        except TooBig:
            return None, ""
        if not (q if self.where_defined else self.known_nonzero(q)):
            return None, ""
        if not n:
            return "proved", ""
        if any(a in self.unsure for m in n for a, _ in m):
            return None, ""
        return "differs", "normal form of the difference: " + self.show(n)

    def show(self, p):
        out = []
        for m, c in list(sorted(p.items()))[:6]:
            out.append(f"{c}" + "".join(f"*{self.names[a]}" + (f"^{e}" if e > 1 else "") for a, e in m))
        return " + ".join(out) + (" + ..." if len(p) > 6 else "")
