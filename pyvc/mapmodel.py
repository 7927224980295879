"""Trusted model of an insertion-ordered mapping with string keys
(dict / OrderedDict): a finite list of distinct keys, the position of each
key, and a value per key."""
import collections

import z3

from . import core
from .core import SymBool, SymNum, SymSeq, SymStr, Unsupported, ite, num_z3, str_z3
from .helpers import SymMapBase, SymOpaque

I, S, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()


def pick(c, a, b):
    """value merge: numbers and strings by formula, objects by a path split"""
    s = z3.simplify(c)
    if z3.is_true(s):
        return a
    if z3.is_false(s):
        return b()
    try:
        bv = b()
    except Unsupported:
        return a if core.ctx().branch(c) else b()
    if isinstance(a, (SymNum, SymStr, SymBool, core.SymComplex)) and isinstance(bv, (SymNum, SymStr, SymBool, core.SymComplex)) and isinstance(a, SymStr) == isinstance(bv, SymStr):
        return ite(SymBool(c), a, bv)
    return a if core.ctx().branch(c) else bv


def empty(pytype=dict):
    def noval(k):
        return SymNum(z3.Function("absent", S, I)(k))  # never read: has() is False

    return SymOD.of_state((z3.IntVal(0), lambda i: z3.StringVal("?"), lambda k: z3.IntVal(-1),
                           lambda k: z3.BoolVal(False), noval), pytype=pytype)


class SymOD(SymMapBase):
    pytype = collections.OrderedDict

    def __init__(self, name, value, n=None, pytype=None):
        p = core.ctx()
        p.trusted("OrderedDict: distinct keys in insertion order; setting an existing key keeps its position")
        self.nm = name
        if pytype is not None:
            self.pytype = pytype
        n = z3.Int(name + ".n") if n is None else n
        p.add(n >= 0)
        kf = z3.Function(name + ".key", I, S)
        pf = z3.Function(name + ".pos", S, I)
        hf = z3.Function(name + ".has", S, B)
        seen_i, seen_k = set(), set()

        def key(i):
            if i.get_id() not in seen_i:
                seen_i.add(i.get_id())
                p.fact(z3.Implies(z3.And(i >= 0, i < n), z3.And(hf(kf(i)), pf(kf(i)) == i)))
            return kf(i)

        def touch(k):
            if k.get_id() not in seen_k:
                seen_k.add(k.get_id())
                p.fact(z3.Implies(hf(k), z3.And(pf(k) >= 0, pf(k) < n, kf(pf(k)) == k)))

        def pos(k):
            touch(k)
            return pf(k)

        def has(k):
            touch(k)
            return hf(k)

        self.n, self.key, self.pos, self.has, self.val = n, key, pos, has, value
        self.ver = 0

    def version(self):
        return (id(self), self.ver)

    # -- state as a tuple (for specifications)
    def state(self):
        return (self.n, self.key, self.pos, self.has, self.val)

    def set_state(self, st):
        self.n, self.key, self.pos, self.has, self.val = st
        self.ver += 1

    @classmethod
    def of_state(cls, st, name="copy", pytype=None):
        o = cls.__new__(cls)
        o.nm, o.ver = name, 0
        if pytype is not None:
            o.pytype = pytype
        o.n, o.key, o.pos, o.has, o.val = st
        return o

    def copy(self):
        return SymOD.of_state(self.state(), pytype=self.pytype)

    # -- reads
    def _k(self, k):
        if isinstance(k, (str, SymStr)):
            return str_z3(k)
        if k is None or isinstance(k, (int, float, tuple, SymNum)):
            return None
        raise Unsupported(f"mapping key of type {type(k).__name__}")

    def contains(self, k):
        e = self._k(k)
        return False if e is None else SymBool(self.has(e))

    def __contains__(self, k):
        return bool(self.contains(k))

    def length(self):
        return SymNum(self.n)

    def __len__(self):
        return SymNum(self.n)

    def __bool__(self):
        return core.ctx().branch(self.n > 0)

    def __getitem__(self, k):
        e = self._k(k)
        if e is None or not core.ctx().branch(self.has(e)):
            raise KeyError(repr(k))
        return self.val(e)

    def get(self, k, d=None):
        e = self._k(k)
        if e is None or not core.ctx().branch(self.has(e)):
            return d
        return self.val(e)

    def keys_seq(self):
        key = self.key
        s = SymSeq(SymNum(self.n), lambda i: SymStr(key(i)), "keys")
        s.home = self.copy()
        s.distinct = True
        return s

    keys = keys_seq

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic mapping")

    def values(self):
        key, val = self.key, self.val
        return SymSeq(SymNum(self.n), lambda i: val(key(i)), "values")

    def items(self):
        key, val = self.key, self.val
        s = SymSeq(SymNum(self.n), lambda i: (SymStr(key(i)), val(key(i))), "items")
        s.pairs_of = self.copy()
        return s

    # -- writes
    def __setitem__(self, k, v):
        e = self._k(k)
        if e is None:
            raise Unsupported("non-string key")
        self.ver += 1
        n, key, pos, has, val = self.state()
        old = has(e)
        self.val = lambda x: pick(x == e, v, lambda: val(x))
        if core.ctx().branch(old):
            return
        self.n = n + 1
        self.key = lambda i: z3.If(i == n, e, key(i))
        self.pos = lambda x: z3.If(x == e, n, pos(x))
        self.has = lambda x: z3.Or(x == e, has(x))

    def __delitem__(self, k):
        e = self._k(k)
        if e is None or not core.ctx().branch(self.has(e)):
            raise KeyError(repr(k))
        self.ver += 1
        n, key, pos, has, val = self.state()
        at = pos(e)
        self.n = n - 1
        self.key = lambda i: z3.If(i < at, key(i), key(i + 1))
        self.pos = lambda x: z3.If(pos(x) > at, pos(x) - 1, pos(x))
        self.has = lambda x: z3.And(x != e, has(x))

    def pop(self, k, *d):
        e = self._k(k)
        if e is None or not core.ctx().branch(self.has(e)):
            if d:
                return d[0]
            raise KeyError(repr(k))
        v = self.val(e)
        del self[k]
        return v

    def popitem(self, last=True):
        if core.ctx().branch(self.n <= 0):
            raise KeyError("dictionary is empty")
        if isinstance(last, (SymBool, SymStr)):
            last = bool(last)
        k = SymStr(self.key(self.n - 1 if last else z3.IntVal(0)))
        return (k, self.pop(k))

    def clear(self):
        self.ver += 1
        self.n = z3.IntVal(0)
        self.has = lambda x: z3.BoolVal(False)

    def update(self, o=(), **k):
        if k:
            raise Unsupported("update with keywords")
        if hasattr(o, "_home"):
            o = o._home
        if isinstance(o, SymOD):
            p = core.ctx()
            p.trusted("dict.update(other): other's keys get other's values, existing keys keep their position, "
                      "new keys follow in other's order")
            self.ver += 1
            n, key, pos, has, val = self.state()
            m = z3.Int(p.fresh("upd.n"))
            p.add(z3.And(m >= n, m >= o.n, m <= n + o.n))
            kf = z3.Function(p.fresh("upd.key"), I, S)
            pf = z3.Function(p.fresh("upd.pos"), S, I)
            hf = lambda x: z3.Or(has(x), o.has(x))
            done = set()

            def npos(x):
                if x.get_id() not in done:
                    done.add(x.get_id())
                    p.fact(z3.Implies(hf(x), z3.And(pf(x) >= 0, pf(x) < m, kf(pf(x)) == x)))
                    p.fact(z3.Implies(has(x), pf(x) == pos(x)))
                    p.fact(z3.Implies(z3.And(hf(x), z3.Not(has(x))), pf(x) >= n))
                return pf(x)

            def nkey(i):
                p.fact(z3.Implies(z3.And(i >= 0, i < n), kf(i) == key(i)))
                p.fact(z3.Implies(z3.And(i >= 0, i < m), z3.And(hf(kf(i)), pf(kf(i)) == i)))
                return kf(i)

            self.n, self.key, self.pos, self.has = m, nkey, npos, hf
            self.val = lambda x: pick(o.has(x), o.val(x), lambda: val(x))
            return
        if isinstance(o, dict) or hasattr(o, "items"):
            for kk, v in o.items():
                self[kk] = v
            return
        raise Unsupported("update from an iterable")

    def __eq__(self, o):
        if o is None or isinstance(o, (str, int, float, list, tuple, SymStr, SymNum, SymSeq)):
            return False
        if isinstance(o, SymOD) and o is self:
            return True
        raise Unsupported("mapping equality")

    __hash__ = None


class PairMap(SymOpaque):
    """dict(pairs) of a symbolic list of (text, value) whose keys may repeat: a key has the value of its last pair.
    The order of the keys is not modelled."""

    pytype = dict

    def __init__(self, seq):
        p = core.ctx()
        self.seq, nm = seq, p.fresh("dict")
        self.last, self.hasf = z3.Function(nm + ".last", S, I), z3.Function(nm + ".has", S, B)
        p.trusted("dict of pairs: a key has the value of its last pair")

    def key(self, i):
        return str_z3(self.seq.at(i)[0])

    def has(self, k):
        p, n = core.ctx(), self.seq.n.e
        h, w = self.hasf(k), self.last(k)
        p.fact(z3.Implies(h, z3.And(w >= 0, w < n, self.key(w) == k)))
        for j in list(p.ufapps.get("indices", ())):
            p.fact(z3.Implies(z3.And(j >= 0, j < n, self.key(j) == k), z3.And(h, w >= j)))
        return h

    def contains(self, k):
        return SymBool(self.has(str_z3(k)))

    __contains__ = lambda self, k: bool(self.contains(k))

    def __getitem__(self, k):
        k = str_z3(k)
        if not core.ctx().branch(self.has(k)):
            raise KeyError("symbolic key")
        return self.seq.at(self.last(k))[1]

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def keys(self):
        return self

    def length(self):
        raise Unsupported("number of distinct keys")

    def __iter__(self):
        raise Unsupported("iteration over a dictionary of symbolic pairs")


def from_seq(x, pytype=None):
    """OrderedDict(pairs) of distinct keys"""
    if isinstance(x, SymOD):
        return SymOD.of_state(x.state(), pytype=pytype)
    src = getattr(x, "pairs_of", None)
    inner = getattr(getattr(x, "source", None), "pairs_of", None)
    if src is None and inner is not None and hasattr(x, "rank") and getattr(x.source, "whole", True) and x.source.n.e.eq(inner.n):
        key, pos, has, val = inner.key, inner.pos, inner.has, inner.val  # a sorted list of all its pairs

        def skey(i):
            x.at(i)
            return key(x.pos(i))

        return SymOD.of_state((inner.n, skey, lambda k: x.rank(pos(k)), has, val), pytype=pytype)
    if src is None:
        return PairMap(x)
    if getattr(x, "whole", True) and x.n.e.eq(src.n):
        return SymOD.of_state(src.state(), pytype=pytype)
    p = core.ctx()
    off = x.offset
    key, pos, has, val = src.key, src.pos, src.has, src.val
    n = x.n.e
    inside = lambda k: z3.And(pos(k) >= off, pos(k) < off + n)
    return SymOD.of_state((n, lambda i: key(i + off), lambda k: pos(k) - off, lambda k: z3.And(has(k), inside(k)), val), pytype=pytype)
