"""Run-time side of the instrumented code (bound as `_vc_` in every module).

Each helper is the native Python operation unless an operand is symbolic.
"""
import builtins
import math as _math
import operator
import types

import numpy as _np
import z3

from . import core
from .core import (And, Not, Or, PathEnd, SymArray, SymBool, SymComplex, SymNum,
                   SymObj, SymSeq, SymStr, Unsupported, as_z3int, coerce2, eq, is_num,
                   ite, num_z3, str_z3, to_int, toreal)

SYM = (SymNum, SymBool, SymComplex, SymStr, SymArray, SymSeq, SymObj)


class SymMapBase:
    """Base of symbolic mappings (see models)."""


class SymOpaque:
    """Base of modelled library objects (timestamps ...)."""


class VList(list):
    """A list created by the code under proof; `sym` holds its contents once a
    loop contract has made its length symbolic."""

    sym = None

    def append(self, x):
        if self.sym is None:
            list.append(self, x)
        else:
            old = self.sym
            n = old.n.e

            def elem(i, old=old, x=x, n=n):
                s = z3.simplify(i == n)
                if z3.is_true(s):
                    return x
                if z3.is_false(s):
                    return old.at(i)
                if core.ctx().branch(i == n):
                    return x
                return old.at(i)

            self.sym = SymSeq(SymNum(n + 1), elem, "list")
            self.sym.prefix = old
            self.sym.last = x

    def _native(self):
        if self.sym is not None:
            raise Unsupported("native operation on a list of symbolic length")

    def __len__(self):
        self._native()
        return list.__len__(self)

    def __iter__(self):
        self._native()
        return list.__iter__(self)

    def __bool__(self):
        if self.sym is not None:
            return bool(self.sym)
        return list.__len__(self) > 0

    def __getitem__(self, k):
        if self.sym is not None:
            return self.sym[k]
        return list.__getitem__(self, k)

    def extend(self, o):
        o = unl(o)
        if isinstance(o, SymSeq) or self.sym is not None:
            if self.sym is None:
                base = list(list.__iter__(self))
                if not base and isinstance(o, SymSeq):
                    self.sym = o
                    return None
                old = conc_seq(base)
                list.clear(self)
            else:
                old = self.sym
            self.sym = concat_seq(old, o if isinstance(o, SymSeq) else conc_seq(list(o)))
            return None
        return list.extend(self, o)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        r = VList(list.__iter__(self)) if self.sym is None else VList()
        r.sym = self.sym
        r.extend(o)
        return r

    def __radd__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        r = VList(o)
        r.extend(self)
        return r

    def __setitem__(self, k, v):
        if self.sym is None:
            return list.__setitem__(self, k, v)
        if isinstance(k, slice):
            raise Unsupported("slice assignment to a list of symbolic length")
        old = self.sym
        i, n = core.as_z3int(k), old.n.e
        if not core.ctx().branch(z3.And(i >= -n, i < n)):
            raise IndexError("list assignment index out of range")
        at = z3.If(i < 0, i + n, i)

        def elem(j, old=old, at=at, v=v):
            return v if core.ctx().branch(j == at) else old.at(j)

        self.sym = SymSeq(old.n, elem, "list")

    def __eq__(self, o):
        if self.sym is not None and getattr(o, "sym", None) is None and not isinstance(o, SymSeq):
            if not isinstance(o, list):
                return False
            o = list(o)
            c = self.sym.n == len(o)
            if not o:
                return c
            return And(c, bool(c) and And(*[eq(self.sym.at(z3.IntVal(i)), v) for i, v in enumerate(o)]))
        if self.sym is None and isinstance(o, VList) and o.sym is not None:
            return o.__eq__(self)
        self._native()
        return list.__eq__(self, o)

    __hash__ = None


def _guarded(name):
    real = getattr(list, name)

    def f(self, *a, **k_):
        self._native()
        return real(self, *a, **k_)

    f.__name__ = name
    return f


def _vsort(self, key=None, reverse=False):
    if self.sym is None:
        if not has_sym(list(list.__iter__(self))):
            return list.sort(self, key=key, reverse=reverse)
        r = b_sorted(list(list.__iter__(self)), key=key or (lambda v: v), reverse=reverse)
        return list.__setitem__(self, slice(None), r)
    self.sym = sorted_seq(self.sym, key or (lambda v: v), reverse, stable=True)


VList.sort = _vsort

def _remove(self, x, real=list.remove):
    if self.sym is None:
        return real(self, x)
    p, old = core.ctx(), self.sym
    c = contains(old, x)
    if not (c if isinstance(c, bool) else p.branch(core.as_z3bool(c))):
        raise ValueError("list.remove(x): x not in list")
    n = old.n.e
    w = old.home.pos(core.str_z3(x)) if getattr(old, "home", None) is not None else z3.Int(p.fresh("removed"))
    p.fact(z3.And(w >= 0, w < n, core.as_z3bool(same(old.at(w), x))))
    for j in list(p.ufapps.get("indices", ())):
        p.fact(z3.Implies(z3.And(j >= 0, j < w), z3.Not(core.as_z3bool(same(old.at(j), x)))))
    self.sym = SymSeq(SymNum(n - 1), lambda i: old.at(z3.If(i < w, i, i + 1)), "list")


VList.remove = _remove
def _index(self, x, *a, real=list.index):
    return real(self, x, *a) if self.sym is None else self.sym.index(x, *a)


VList.index = _index
for _n in ("insert", "reverse", "clear", "__delitem__", "__mul__", "__imul__", "__contains__", "count", "pop", "copy"):
    setattr(VList, _n, _guarded(_n))


def conc_seq(items):
    def elem(i):
        for k, v in enumerate(items[:-1]):
            if core.ctx().branch(i == k):
                return v
        return items[-1]

    return SymSeq(SymNum(z3.IntVal(len(items))), elem, "list")


def concat_seq(a, b):
    n = a.n.e

    numeric = getattr(a, "numeric", False) and getattr(b, "numeric", False)

    def elem(i):
        if numeric:
            return ite(SymBool(z3.simplify(i < n)), a.at(i), b.at(z3.simplify(i - n)))
        if core.ctx().branch(i < n):
            return a.at(i)
        return b.at(z3.simplify(i - n))

    r = SymSeq(SymNum(z3.simplify(n + b.n.e)), elem, "list")
    r.prefix, r.tail, r.numeric = a, b, numeric
    return r


class _VMap:
    """A mapping created by the code under proof; `sym` holds its contents
    once it received a symbolic key or a loop contract made it symbolic."""

    sym = None

    def to_sym(self):
        if self.sym is None:
            from . import mapmodel

            base = self._base
            s = mapmodel.empty(pytype=base)
            for k_, v_ in base.items(self):
                s[k_] = v_
            base.clear(self)
            self.sym = s
        return self.sym

    def __setitem__(self, k_, v_):
        if self.sym is None and not is_sym(k_):
            return self._base.__setitem__(self, k_, v_)
        self.to_sym()[k_] = v_

    def __deepcopy__(self, memo):
        if self.sym is not None:
            r = type(self)()
            r.sym = self.sym.copy()
            return r
        import copy

        r = type(self)()
        for k_, v_ in self._base.items(self):
            self._base.__setitem__(r, k_, copy.deepcopy(v_, memo))
        return r


def _vmap_method(name):
    def f(self, *a, **k_):
        if self.sym is not None:
            return getattr(self.sym, name)(*a, **k_)
        if name == "update" and a and (is_sym(a[0]) or is_sym(getattr(a[0], "_home", None))):
            return self.to_sym().update(*a, **k_)
        if name in ("get", "pop", "__getitem__", "__delitem__", "__contains__") and a and is_sym(a[0]):
            return getattr(self.to_sym(), name)(*a, **k_)
        return getattr(self._base, name)(self, *a, **k_)

    f.__name__ = name
    return f


from collections import OrderedDict as _OD


class VDict(_VMap, dict):
    _base = dict
    __hash__ = None


class VOD(_VMap, _OD):
    _base = _OD
    __hash__ = None


for _n in ("__getitem__", "__delitem__", "__contains__", "__len__", "__iter__", "get", "pop", "popitem", "keys",
           "values", "items", "update", "clear", "__eq__", "copy"):
    setattr(VDict, _n, _vmap_method(_n))
    setattr(VOD, _n, _vmap_method(_n))


def newlist(items=()):
    return list(items) if core.CTX is None else VList(items)


def newdict():
    return {} if core.CTX is None else VDict()


def mkdict(pairs):
    if core.CTX is None or not builtins.any(is_sym(a) for a, _ in pairs):
        return dict(pairs)
    r = VDict()
    for a, v in pairs:
        r[a] = v
    return r


def unl(x):
    """the symbolic contents of a list or dict that became symbolic"""
    if (type(x) is VList or type(x) is VDict or type(x) is VOD) and x.sym is not None:
        return x.sym
    return x


def it_of(x):
    """what iterating x yields (package classes define their own iteration)"""
    x = unl(x)
    if core.CTX is not None and not is_sym(x):
        c = type(x)
        f = getattr(c, "__iter__", None)
        if c.__module__.startswith("mt_metadata.") and isinstance(f, types.FunctionType) and f.__module__.startswith("mt_metadata."):
            return unl(f(x))
    return x


def is_sym(x):
    if type(x) is VList or type(x) is VDict or type(x) is VOD:
        return x.sym is not None
    return isinstance(x, SYM) or isinstance(x, (SymMapBase, SymOpaque))


def has_sym(x, depth=0):
    if is_sym(x):
        return True
    if depth > 3:
        return False
    if type(x) in (list, tuple, set, VList):
        return builtins.any(has_sym(v, depth + 1) for v in x)
    if type(x) in (dict, VDict, VOD):
        return builtins.any(has_sym(v, depth + 1) for v in x.values())
    if isinstance(x, _np.ndarray) and _np.ndarray.dtype.__get__(x) == object:
        return builtins.any(has_sym(v, depth + 1) for v in x.flat)
    return False


def same(a, b):
    """`==` as a formula."""
    r = a == b
    if isinstance(r, SymBool):
        return r
    return SymBool(z3.BoolVal(bool(r)))


# ------------------------------------------------------------- containment
def contains(c, x):
    c = unl(c)
    if isinstance(c, SymStr) or (isinstance(c, str) and isinstance(x, SymStr)):
        return SymBool(z3.Contains(str_z3(c), str_z3(x)))
    if isinstance(c, SymSeq):
        if getattr(c, "home", None) is not None:
            return c.home.contains(x)
        return seq_contains(c, x)
    if isinstance(c, (SymMapBase, SymOpaque)):
        return c.contains(x)
    if is_sym(x):
        if isinstance(c, dict) or type(c) in (type({}.keys()), type({}.values())):
            return Or([same(k, x) for k in c])
        if isinstance(c, (list, tuple, set, frozenset)):
            return Or([same(k, x) for k in c])
        if isinstance(c, _np.ndarray):
            return Or([same(k, x) for k in c.flat])
        f = getattr(type(c), "__contains__", None)
        if f is not None:
            return bool(f(c, x))
        if hasattr(c, "__iter__"):
            return Or([same(k, x) for k in c])
    if type(c) in (list, tuple, VList) and has_sym(c):
        return Or([same(k, x) for k in c])
    return x in c


def seq_contains(c, x):
    """membership: decided by an existence split"""
    p = core.ctx()
    n = as_z3int(c.n)
    at = [position(c, j) for j in list(p.ufapps.get("indices", ()))] if derived(c) else []
    return not quant_forall(p, n, lambda i: Not(same(c.at(i), x)), at)


def derived(c):
    return hasattr(c, "mapped") or hasattr(c, "rank")


def position(c, j):
    """where element j of the underlying list went in a selection, sorting or mapping of it"""
    if hasattr(c, "mapped"):
        return position(c.mapped, j)
    if hasattr(c, "rank"):
        return c.rank(position(c.source, j))
    return j


def not_contains(c, x):
    r = contains(c, x)
    return Not(r) if isinstance(r, SymBool) else not r


def is_bool(x, value, negate):
    if isinstance(x, SymBool):
        r = x if value else Not(x)
        return Not(r) if negate else r
    r = x is value
    return (not r) if negate else r


# ------------------------------------------------------------- subscripts
def _key_sym(k):
    if is_sym(k):
        return True
    if type(k) is tuple:
        return builtins.any(_key_sym(x) for x in k)
    if isinstance(k, slice):
        return is_sym(k.start) or is_sym(k.stop) or is_sym(k.step)
    return False


def getitem(o, k):
    o = unl(o)
    if is_sym(o):
        if isinstance(o, (SymNum, SymBool, SymComplex)):
            if k is Ellipsis or k == ():
                return o
            raise TypeError("'float' object is not subscriptable")
        if isinstance(o, SymArray) and isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        return o[k]
    if _key_sym(k):
        if isinstance(o, dict) and type(o).__getitem__ in (dict.__getitem__,):
            for kk in list(o):
                if isinstance(kk, (str, int, float)) and bool(same(k, kk)):
                    return o[kk]
            if hasattr(type(o), "__missing__"):
                raise Unsupported("defaultdict with a symbolic key")
            raise KeyError(repr(k))
        if isinstance(o, (list, tuple)) and isinstance(k, SymNum):
            return o[concrete_index(k, len(o))]
        if isinstance(o, str):
            return SymStr(z3.StringVal(o))[k]
        if isinstance(o, (list, tuple)) and isinstance(k, slice):
            n = len(o)
            return o[slice(*(conc_slice(v, n) for v in (k.start, k.stop, k.step)))]
        if isinstance(o, _np.ndarray):
            if isinstance(k, SymNum):
                return o[concrete_index(k, o.shape[0])]
            if isinstance(k, tuple):
                return o[tuple(concrete_index(x, o.shape[i]) if isinstance(x, SymNum) else x for i, x in enumerate(k))]
            raise Unsupported("symbolic mask over a concrete array")
    if isinstance(o, _np.ndarray) and o.dtype == object and isinstance(k, _np.ndarray) and k.dtype == object:
        k = _np.array([bool(v) for v in k.flat], dtype=bool).reshape(k.shape)
    return o[k]


def conc_slice(v, n):
    if isinstance(v, SymNum):
        for i in range(-n, n + 1):
            if bool(v == i):
                return i
        return n if bool(v > n) else -n
    return v


def concrete_index(k, n):
    for i in builtins.range(n):
        if bool(k == i):
            return i
    for i in builtins.range(-n, 0):
        if bool(k == i):
            return i
    raise IndexError("index out of range")


def setitem(o, k, v):
    if is_sym(o) or type(o) is VDict or type(o) is VOD:
        o[k] = v
        return
    if type(o) is dict and _key_sym(k):
        for kk in list(o):
            if bool(same(k, kk)):
                o[kk] = v
                return
        raise Unsupported("inserting a symbolic key in a native dict")
    if isinstance(o, (list, _np.ndarray)) and isinstance(k, SymNum):
        o[concrete_index(k, len(o))] = v
        return
    if isinstance(o, _np.ndarray) and o.dtype == object and isinstance(k, _np.ndarray) and k.dtype == object:
        for ix in _np.ndindex(*o.shape):
            o[ix] = ite(k[ix], v if not isinstance(v, _np.ndarray) else v[ix], o[ix])
        return
    if isinstance(o, _np.ndarray) and o.dtype != object and has_sym(v):
        raise Unsupported("symbolic value stored in a native array")
    o[k] = v


def delitem(o, k):
    del o[k]


_MODEL = None


def _pyd(o):
    global _MODEL
    if _MODEL is None:
        try:
            from pydantic import BaseModel

            _MODEL = BaseModel
        except ImportError:
            _MODEL = ()
    return isinstance(o, _MODEL)


def run_validators(cls, name, v, data):
    """pydantic's declared field validators applied to a symbolic value (the
    core type check itself is assumed to accept it)."""
    class Info:
        pass

    info = Info()
    info.data, info.field_name, info.mode, info.context = data, name, "python", None
    decs = cls.__pydantic_decorators__.field_validators
    for mode in ("before", "after"):
        for dec in decs.values():
            if name in dec.info.fields and dec.info.mode == mode:
                fn = dec.func
                try:
                    import inspect

                    n = len(inspect.signature(fn).parameters)
                except (TypeError, ValueError):
                    n = 2
                v = fn(v, info) if n >= 2 else fn(v)
    return v


def _mapping(cls):
    def make(*a, **kw):
        if len(a) == 1 and not kw:
            x = unl(a[0])
            if isinstance(x, (SymMapBase, SymSeq)):
                from . import mapmodel

                return mapmodel.from_seq(x, cls)
        if not a and not kw:
            return VOD() if cls is _OD else VDict()
        if len(a) == 1 and isinstance(x, (list, tuple, dict)) and not is_sym(x):
            r = VOD() if cls is _OD else VDict()
            for k_, v_ in (x.items() if isinstance(x, dict) else x):
                r[k_] = v_
            for k_, v_ in kw.items():
                r[k_] = v_
            return r
        return cls(*a, **kw)

    return make


def k(cls):
    """Constructor call: a pydantic model receiving symbolic field values."""
    if core.CTX is None or not isinstance(cls, type):
        return cls
    if cls in (_OD, dict):
        return _mapping(cls)
    stub = core.CTX.loop_specs.get(("construct", cls.__name__))
    if stub is not None:
        return stub
    _pyd(None)
    if not issubclass(cls, _MODEL) :
        return cls

    def make(*a, **kw):
        def sy(n, x):
            return has_sym(x) or (_pyd(x) and any_base(cls, n, core.CTX.loop_specs.get("validators", ()))
                                  and builtins.any(has_sym(v) for v in x.__dict__.values()))

        if a or not builtins.any(sy(n, x) for n, x in kw.items()):
            return cls(*a, **kw)
        conc = {n: x for n, x in kw.items() if not sy(n, x)}
        obj = cls(**conc)
        wanted = core.CTX.loop_specs.get("validators", ())
        for n, x in kw.items():
            if n in conc:
                continue
            if n not in cls.model_fields:
                f = [q for q, fi in cls.model_fields.items() if fi.alias == n or fi.validation_alias == n]
                if f:
                    n = f[0]
                else:
                    d = getattr(cls, n, None)
                    if isinstance(d, property) and d.fset is not None:
                        d.fset(obj, x)
                        continue
            if (cls.__name__, n) in wanted or any_base(cls, n, wanted):
                x = run_validators(cls, n, x, dict(obj.__dict__))
            obj.__dict__[n] = x
        return obj

    return make


def any_base(cls, n, wanted):
    return builtins.any((b_.__name__, n) in wanted for b_ in cls.__mro__)


def setattr_(o, name, v):
    if (core.CTX is not None) and _pyd(o) and (has_sym(v) or is_sym(o.__dict__.get(name))):
        d = getattr(type(o), name, None)
        if isinstance(d, property):
            if d.fset is None:
                raise AttributeError(f"can't set attribute {name}")
            d.fset(o, v)
            return
        if name in type(o).model_fields:
            wanted = core.CTX.loop_specs.get("validators", ())
            if wanted and any_base(type(o), name, wanted) and type(o).model_config.get("validate_assignment"):
                v = run_validators(type(o), name, v, dict(o.__dict__))
            o.__dict__[name] = v
            return
        priv = getattr(o, "__pydantic_private__", None)
        if priv is not None and name in priv:
            priv[name] = v
            return
        o.__dict__[name] = v
        return
    builtins.setattr(o, name, v)


globals()["setattr"] = setattr_


# ------------------------------------------------------------- strings
_FMT = {}


def fmt(value, conv, spec):
    """One formatted field: the text of `value` under `spec`."""
    if not is_sym(value) and not is_sym(spec):
        if conv == 114:
            value = repr(value)
        elif conv == 115:
            value = str(value)
        return format(value, spec)
    if isinstance(spec, SymStr):
        raise Unsupported("symbolic format spec")
    if isinstance(value, SymStr):
        if spec in ("", "s"):
            return value
        return uf_str(f"fmt[{spec}]", value)
    if isinstance(value, SymBool):
        return SymStr(z3.If(value.e, z3.StringVal("True"), z3.StringVal("False")))
    return to_text(value, spec)


def to_text(value, spec=""):
    """str()/format() of a number: uninterpreted, remembered for parsing back."""
    if isinstance(value, SymNum):
        if value.is_int and spec in ("", "d", "g", "G"):
            if core.ctx()._sat(value.e < 0, ms=200) == z3.unsat:
                return SymStr(z3.IntToStr(value.e), (("num", spec, value),))
            return SymStr(
                z3.If(
                    value.e >= 0,
                    z3.IntToStr(value.e),
                    z3.Concat(z3.StringVal("-"), z3.IntToStr(-value.e)),
                ),
                (("num", spec, value),),
            )
        if value.is_int and spec in ("02", "02d", "02.0f", "0>2"):
            s = z3.IntToStr(value.e)
            return SymStr(z3.If(z3.And(value.e >= 0, value.e < 10), z3.Concat(z3.StringVal("0"), s), s), (("num", spec, value),))
        sort = value.e.sort()
        f = z3.Function(f"text[{spec}]:{sort}", sort, z3.StringSort())
        core.ctx().trusted("number formatting is an uninterpreted function of the value")
        return SymStr(f(value.e), pieces=(("num", spec, value),))
    if isinstance(value, SymOpaque):
        return value.text(spec)
    raise Unsupported(f"text of {type(value)}")


def uf_str(name, s):
    f = z3.Function(name, z3.StringSort(), z3.StringSort())
    return SymStr(f(str_z3(s)))


def fstr(*parts):
    out = ""
    for p in parts:
        if type(p) is tuple:
            p = fmt(*p)
        out = p if (isinstance(out, str) and out == "") else out + p
    return out


def m(obj, name):
    if name == "join" and isinstance(obj, (str, SymStr)):

        def join(it):
            if isinstance(it, SymSeq):
                raise Unsupported("join of a symbolic list")
            items = list(it)
            if not builtins.any(isinstance(x, SymStr) for x in items) and not isinstance(obj, SymStr):
                return obj.join(items)
            out = None
            for x in items:
                out = x if out is None else out + obj + x
            return "" if out is None else out

        return join
    if name == "format" and isinstance(obj, str):

        def fmt_method(*a, **k):
            if not builtins.any(is_sym(x) for x in a) and not builtins.any(is_sym(x) for x in k.values()):
                return obj.format(*a, **k)
            import string

            out, auto = "", 0
            for lit, field, spec, conv in string.Formatter().parse(obj):
                if lit:
                    out = out + lit
                if field is None:
                    continue
                if field == "":
                    v, auto = a[auto], auto + 1
                elif field.isdigit():
                    v = a[int(field)]
                else:
                    v = k[field]
                if spec and "{" in spec:
                    spec = spec.format(*a, **k)
                out = out + fmt(v, ord(conv) if conv else -1, spec or "")
            return out

        return fmt_method
    return getattr(obj, name)


# ------------------------------------------------------------- builtins
def _types(t):
    return t if isinstance(t, tuple) else (t,)


def pytype(x):
    if type(x) is VList:
        return list
    if type(x) is VDict:
        return dict
    if type(x) is VOD:
        return _OD
    if isinstance(x, SymNum):
        return int if x.is_int else float
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymComplex):
        return complex
    if isinstance(x, SymStr):
        return str
    if isinstance(x, SymArray):
        return _np.ndarray
    if isinstance(x, SymSeq):
        return x.cls
    if isinstance(x, SymObj):
        return x._cls
    return x.pytype


def b_isinstance(x, t):
    if not is_sym(x):
        return isinstance(x, t)
    pt = pytype(x)
    for ty in _types(t):
        if ty is object:
            return True
        try:
            if issubclass(pt, ty):
                return True
        except TypeError:
            if isinstance(ty, tuple) and b_isinstance(x, ty):
                return True
            if isinstance(ty, types.UnionType) and b_isinstance(x, ty.__args__):
                return True
    return False


def b_type(*a):
    if len(a) == 1 and is_sym(a[0]):
        return pytype(a[0])
    return type(*a)


def b_len(x):
    x = unl(x)
    if isinstance(x, SymStr):
        return x.length()
    if isinstance(x, SymArray) or type(x).__name__ == "SymBlock":
        return x.n
    if isinstance(x, SymSeq):
        return x.n
    if isinstance(x, (SymMapBase, SymOpaque)):
        return x.length()
    m = getattr(type(x), "__len__", None)
    if isinstance(m, types.FunctionType):
        return m(x)
    return len(x)


class SymRange:
    def __init__(self, a, b):
        self.a, self.b = a, b


def b_range(*a):
    if not builtins.any(is_sym(x) for x in a):
        return range(*a)
    if len(a) == 3:
        raise Unsupported("symbolic range with a step")
    lo, hi = (0, a[0]) if len(a) == 1 else a
    lo, hi = num_z3(lo), num_z3(hi)
    n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
    if z3.is_int_value(n) and z3.is_int_value(z3.simplify(lo)):
        l0 = z3.simplify(lo).as_long()
        return range(l0, l0 + n.as_long())
    return SymSeq(SymNum(n), lambda i: SymNum(z3.simplify(i + lo)), "range", range)


def b_float(*a):
    if a and is_sym(a[0]):
        x = a[0]
        if isinstance(x, SymNum):
            return SymNum(toreal(x.e))
        if isinstance(x, SymBool):
            return SymNum(toreal(num_z3(x)))
        if isinstance(x, SymComplex):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        if isinstance(x, SymStr):
            return parse_number(x, "float")
        if isinstance(x, SymArray):
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        if hasattr(x, "__float_sym__"):
            return x.__float_sym__()
        raise Unsupported(f"float({type(x).__name__})")
    return float(*a)


def parse_number(s, kind):
    """the number a text denotes, or ValueError"""
    p = core.ctx()
    pc = s.pieces
    if core.is_text(pc):
        neg = False
        if isinstance(pc[0], str) and pc[0].strip() in ("-", "+"):
            neg, pc = pc[0].strip() == "-", pc[1:]
        if len(pc) == 1 and not isinstance(pc[0], str):
            v = reparse(pc[0][1], pc[0][2])
            if v is not None:
                if kind == "int" and not v.is_int:
                    raise Unsupported("int() of a formatted real")
                if kind == "float":
                    v = SymNum(toreal(v.e))
                return -v if neg else v
        raise Unsupported(f"{kind}() of a composed text")
    S, B, R = z3.StringSort(), z3.BoolSort(), z3.RealSort() if kind == "float" else z3.IntSort()
    p.trusted(f"{kind}(text): a ValueError or the number the text denotes (uninterpreted, negative only after a minus sign)")
    ok, val = z3.Function(f"is_{kind}", S, B), z3.Function(f"{kind}_of", S, R)
    if not p.branch(ok(s.e)):
        raise ValueError(f"could not convert string to {kind}")
    v = val(s.e)
    st = _strip_of(s)
    p.fact(z3.And(z3.Implies(z3.PrefixOf(z3.StringVal("-"), st), v <= 0), z3.Implies(z3.Not(z3.PrefixOf(z3.StringVal("-"), st)), v >= 0)))
    return SymNum(v)


def _strip_of(s):
    r = core._STRIP(s.e)
    core.ctx().fact(core._STRIP(r) == r)
    return r


def reparse(spec, v):
    """float(format(v, spec))"""
    if v.is_int and spec in ("", "d", "02", "02d", "02.0f", "0>2", "g"):
        return v
    import re as _re

    g = _re.fullmatch(r"[<>=^]?0?\d*\.(\d+)f", spec)
    p = core.ctx()
    x = toreal(v.e)
    if spec == "":
        return SymNum(x)
    if g is None:
        return None
    p.trusted("format(x, '.nf') is x correctly rounded to n decimals")
    f = z3.Function(f"reparse[{spec}]", z3.RealSort(), z3.RealSort())(x)
    h = z3.RealVal(f"1/{2 * 10 ** int(g.group(1))}")
    p.fact(z3.And(f - x <= h, x - f <= h, z3.Implies(x >= 0, f >= 0), z3.Implies(x <= 0, f <= 0)))
    return SymNum(f)


def b_int(*a):
    if a and is_sym(a[0]):
        x = a[0]
        if isinstance(x, (SymNum, SymBool)):
            return to_int(x)
        if isinstance(x, SymStr):
            return parse_number(x, "int")
        if hasattr(x, "__int_sym__"):
            return x.__int_sym__()
        raise Unsupported(f"int({type(x).__name__})")
    return int(*a)


def b_str(*a):
    if a and is_sym(a[0]):
        return fmt(a[0], -1, "")
    return str(*a)


def b_bool(*a):
    if a and isinstance(a[0], SymBool):
        return a[0]
    if a and isinstance(a[0], SymNum):
        return SymBool(a[0].e != 0)
    return bool(*a)


def b_complex(*a):
    if builtins.any(is_sym(x) for x in a):
        if len(a) == 1:
            return SymComplex.lift(a[0])
        x, y = (SymComplex.lift(v) for v in a)
        return SymComplex(x.re - y.im, x.im + y.re)
    return complex(*a)


def b_abs(x):
    return abs(x)


def _minmax(name, a, k):
    a = tuple(it_of(x) for x in a) if len(a) == 1 else tuple(unl(x) for x in a)
    native = getattr(builtins, name)
    if "key" in k or "default" in k:
        if len(a) == 1 and isinstance(a[0], (SymSeq, SymArray)):
            raise Unsupported(f"{name} with key of a symbolic list")
        return native(*a, **k)
    if len(a) == 1:
        x = a[0]
        if isinstance(x, (SymSeq, SymArray)):
            return seq_extreme(x, name)
        x = list(x)
    else:
        x = list(a)
    if not builtins.any(is_sym(v) for v in x):
        return native(x)
    if not x:
        return native(x)
    r = x[0]
    for v in x[1:]:
        c = (v < r) if name == "min" else (v > r)
        if isinstance(c, SymBool):
            try:
                r = merge(c, v, r)
            except Unsupported:
                r = v if bool(c) else r
        else:
            r = v if c else r
    return r


def merge(c, a, b):
    if isinstance(a, (SymNum, int, float)) and isinstance(b, (SymNum, int, float)):
        if not isinstance(a, SymNum):
            a = SymNum(num_z3(a))
        if not isinstance(b, SymNum):
            b = SymNum(num_z3(b))
        if a.e.sort() != b.e.sort():
            raise Unsupported("mixed min/max")
    return ite(c, a, b)


def seq_extreme(x, name):
    """min/max of a symbolic non-empty sequence: an element bounding all others."""
    memo = core.ctx().ufapps.setdefault("extreme of", {})
    if (id(x), name) not in memo:
        memo[id(x), name] = (x, _seq_extreme(x, name))
    return memo[id(x), name][1]


def _seq_extreme(x, name):
    p = core.ctx()
    n = as_z3int(x.n)
    if p.branch(n <= 0):
        raise ValueError(f"{name}() arg is an empty sequence")
    probe = x.at(z3.IntVal(0))
    if hasattr(probe, "order_value"):
        w = z3.Int(p.fresh(f"{name}.at"))
        p.add(z3.And(w >= 0, w < n))
        r = x.at(w)
        key = lambda v: v.order_value()
    else:
        w = z3.Int(p.fresh(f"{name}.at"))
        p.add(z3.And(w >= 0, w < n))
        r = x.at(w)
        key = num_z3
    j = z3.Int(p.fresh("j"))
    # the bound is instantiated on demand: remember it on the path
    bounds = p.ufapps.setdefault("extremes", [])

    def inst(jj):
        a, b = coerce2(key(r), key(x.at(jj)))
        return z3.Implies(z3.And(jj >= 0, jj < n), a <= b if name == "min" else a >= b)

    bounds.append(inst)
    rank = getattr(x, "rank", None)
    for jj in (z3.IntVal(0), n - 1, *([rank(q) for q in list(p.ufapps.get("indices", ()))] if rank else p.ufapps.get("indices", ()))):
        p.add(inst(jj))
    return r


def b_min(*a, **k):
    return _minmax("min", a, k)


def b_max(*a, **k):
    return _minmax("max", a, k)


def b_sum(x, start=0):
    x = unl(x)
    if isinstance(x, (SymSeq, SymArray)):
        raise Unsupported("sum of a symbolic list")
    r = start
    for v in x:
        r = r + v
    return r


def b_round(x, *a):
    if is_sym(x):
        from . import npmodel

        return npmodel.py_round(x, *(a or (None,)))
    return round(x, *a)


def sorted_seq(x, key, rev, stable=False):
    """sorted(x): a permutation of x in key order (equal keys in their former order when stable)"""
    p = core.ctx()
    n = as_z3int(x.n)
    I_ = z3.IntSort()
    perm = z3.Function(p.fresh("perm"), I_, I_)
    inv = z3.Function(p.fresh("place"), I_, I_)
    p.trusted("sorted() returns the elements in key order, each exactly once")
    seen = []

    def ordv(j):
        v = key(x.at(perm(j)))
        if isinstance(v, SymStr):
            return v.e
        return v.order_value() if hasattr(v, "order_value") else num_z3(v)

    def know(j):
        p.fact(z3.Implies(z3.And(j >= 0, j < n), z3.And(perm(j) >= 0, perm(j) < n, inv(perm(j)) == j)))
        a = ordv(j)
        for o, b_ in seen:
            le = (a <= b_) if not rev else (a >= b_)
            ge = (b_ <= a) if not rev else (b_ >= a)
            p.fact(z3.Implies(z3.And(j >= 0, j < n, o >= 0, o < n), z3.And(z3.Implies(j <= o, le), z3.Implies(o <= j, ge))))
            if stable:
                p.fact(z3.Implies(z3.And(j >= 0, j < n, o >= 0, o < n, a == b_), (j < o) == (perm(j) < perm(o))))
        seen.append((j, a))

    def elem(j):
        know(j)
        return x.at(perm(j))

    def rank(k):
        p.fact(z3.Implies(z3.And(k >= 0, k < n), z3.And(inv(k) >= 0, inv(k) < n, perm(inv(k)) == k)))
        know(inv(k))
        return inv(k)

    out = SymSeq(x.n if isinstance(x.n, SymNum) else SymNum(n), elem, "sorted")
    out.source, out.pos, out.rank = x, perm, rank
    out.distinct = getattr(x, "distinct", False)
    return out


def b_next(it, *d):
    if isinstance(it, SymSeq):
        if core.ctx().branch(it.n.e > 0):
            return it.at(z3.IntVal(0))
        if d:
            return d[0]
        raise StopIteration
    return next(it, *d)


def b_sorted(x, **k):
    x = it_of(x)
    if isinstance(x, SymMapBase):
        x = x.keys_seq()
    if isinstance(x, (SymSeq, SymArray)):
        return sorted_seq(x, k.get("key") or (lambda v: v), k.get("reverse", False))
    x = list(x)
    if not has_sym(x):
        return sorted(x, **k)
    key = k.get("key") or (lambda v: v)
    rev = k.get("reverse", False)
    out = []
    for v in x:  # stable insertion sort over symbolic comparisons
        i = len(out)
        while i > 0:
            a, b = key(v), key(out[i - 1])
            if bool((a > b) if rev else (a < b)):
                i -= 1
            else:
                break
        out.insert(i, v)
    return out


def b_enumerate(x, start=0):
    x = it_of(x)
    if isinstance(x, SymArray):
        x = SymSeq(x.n, x.f)
    if isinstance(x, SymMapBase):
        x = x.keys_seq()
    if isinstance(x, SymSeq):
        st = num_z3(start)
        return SymSeq(x.n, lambda i: (SymNum(z3.simplify(i + st)), x.at(i)), "enumerate")
    return enumerate(x, start)


def b_zip(*xs, **k):
    xs = [it_of(x) for x in xs]
    if builtins.any(isinstance(x, (SymSeq, SymArray)) for x in xs):
        xs = [SymSeq(x.n, x.f) if isinstance(x, SymArray) else x for x in xs]
        if not builtins.all(isinstance(x, SymSeq) for x in xs):
            raise Unsupported("zip of mixed lists")
        n = xs[0].n
        for y in xs[1:]:
            if not z3.is_true(z3.simplify(y.n.e == n.e)):
                n = SymNum(z3.If(y.n.e < n.e, y.n.e, n.e))
        return SymSeq(n, lambda i: tuple(x.at(i) for x in xs), "zip")
    return zip(*xs, **k)


def b_any(x):
    x = it_of(x)
    if isinstance(x, SymSeq):
        return seq_quant(x, "any")
    if isinstance(x, SymArray):
        return seq_quant(SymSeq(x.n, x.f), "any")
    x = list(x)
    if builtins.any(isinstance(v, SymBool) for v in x):
        return Or([as_b(v) for v in x])
    return any(x)


def b_all(x):
    x = it_of(x)
    if isinstance(x, SymSeq):
        return seq_quant(x, "all")
    if isinstance(x, SymArray):
        return seq_quant(SymSeq(x.n, x.f), "all")
    x = list(x)
    if builtins.any(isinstance(v, SymBool) for v in x):
        return And([as_b(v) for v in x])
    return all(x)


def as_b(v):
    if isinstance(v, SymBool):
        return v
    if isinstance(v, SymNum):
        return SymBool(v.e != 0)
    return SymBool(z3.BoolVal(bool(v)))


def quant_forall(p, n, pred, at=()):
    """Case split on (forall i<n. pred(i)); False comes with a witness,
    True with an instantiable fact."""
    b = z3.Bool(p.fresh("forall"))
    if p.branch(b):
        p.ufapps.setdefault("foralls", []).append((n, pred))
        # instantiate at the ends and at every index already introduced
        for jj in (z3.IntVal(0), n - 1, *p.ufapps.get("indices", ()), *at):
            p.add(z3.Implies(z3.And(jj >= 0, jj < n), core.as_z3bool(pred(jj))))
        return True
    w = z3.Int(p.fresh("witness"))
    p.add(z3.And(w >= 0, w < n, z3.Not(core.as_z3bool(pred(w)))))
    if p._sat(ms=core.BRANCH_MS) == z3.unsat:
        raise PathEnd("no witness")
    return False


def seq_quant(x, kind):
    p = core.ctx()
    n = as_z3int(x.n)
    if kind == "all":
        return quant_forall(p, n, lambda i: as_b(x.at(i)))
    return not quant_forall(p, n, lambda i: Not(as_b(x.at(i))))


def b_list(*a):
    a = tuple(it_of(x) for x in a)
    if a and isinstance(a[0], SymArray):
        return SymSeq(a[0].n, a[0].f)
    if a and isinstance(a[0], SymSeq):
        r = SymSeq(a[0].n, a[0].at, a[0].name)
        for q in ("pairs_of", "offset", "source", "rank", "pos", "home", "distinct"):
            if hasattr(a[0], q):
                setattr(r, q, getattr(a[0], q))
        return r
    if a and isinstance(a[0], SymMapBase):
        return a[0].keys_seq()
    return list(*a)


def b_tuple(*a):
    a = tuple(it_of(x) for x in a)
    if a and isinstance(a[0], SymSeq):
        return SymSeq(a[0].n, a[0].at, a[0].name, tuple)
    return tuple(*a)


def dedupe(items):
    out = []
    for v in items:
        if not builtins.any(bool(same(v, w)) for w in out):
            out.append(v)
    return out


def b_set(*a):
    a = tuple(it_of(x) for x in a)
    if a and isinstance(a[0], SymSeq):
        raise Unsupported("set of a symbolic list")
    if a and has_sym(a[0]):
        return SymSetList(dedupe(list(a[0])))
    return set(*a)


class SymSetList(SymOpaque, list):
    """A small set with symbolic members (kept as a duplicate-free list)."""

    pytype = set

    def contains(self, x):
        return Or([same(k, x) for k in list(self)])

    def length(self):
        return list.__len__(self)


def b_dict(*a, **k):
    if not a and not k:
        return VDict()
    if len(a) == 1 and not k:
        x = unl(a[0])
        if isinstance(x, (SymMapBase, SymSeq)):
            return _mapping(dict)(x)
        if isinstance(x, (list, tuple)) and x and builtins.all(isinstance(q, tuple) and len(q) == 2 for q in x) and \
                builtins.any(is_sym(q[0]) for q in x):
            return PairDict(list(x))
    return dict(*a, **k)


class PairDict(SymOpaque):
    """dict([(k, v)]) with symbolic keys: kept as its pairs"""

    pytype = dict

    def __init__(self, pairs):
        self.pairs = pairs

    def items(self):
        return list(self.pairs)

    def length(self):
        return len(self.pairs)

    def contains(self, x):
        return Or([same(k_, x) for k_, _ in self.pairs])

    def __getitem__(self, x):
        for k_, v in self.pairs[::-1]:
            if bool(same(k_, x)):
                return v
        raise KeyError("symbolic key")

    def get(self, x, d=None):
        try:
            return self[x]
        except KeyError:
            return d

    def keys(self):
        return self


def b_reversed(x):
    x = it_of(x)
    if isinstance(x, SymSeq):
        n = x.n.e
        return SymSeq(x.n, lambda i: x.at(z3.simplify(n - 1 - i)), "reversed")
    return reversed(x)


class SymNode:
    """An object of a symbolic object graph: attribute access by symbolic name
    goes through sym_getattr, sym_hasattr and sym_setattr."""


def b_getattr(o, n, *d):
    if isinstance(o, SymNode):
        return o.sym_getattr(n, *d)
    if isinstance(o, type) and issubclass(o, SymNode):
        return o.sym_class_getattr(n, *d)
    if isinstance(n, SymStr):
        raise Unsupported("getattr with a symbolic name")
    return getattr(o, n, *d)


def b_setattr(o, n, v):
    if isinstance(o, SymNode):
        return o.sym_setattr(n, v)
    if isinstance(n, SymStr):
        raise Unsupported("setattr with a symbolic name")
    setattr_(o, n, v)


def b_hasattr(o, n):
    if isinstance(o, SymNode):
        return o.sym_hasattr(n)
    if isinstance(n, SymStr):
        raise Unsupported("hasattr with a symbolic name")
    if isinstance(o, SymObj):
        if n in o.__dict__:
            return True
        return hasattr(o._cls, n)
    if is_sym(o):
        t = pytype(o)
        own = not type(o).__module__.startswith("pyvc.") and n in vars(type(o))  # an item type given by a specification
        return own or hasattr(t, n)
    return hasattr(o, n)


def b_divmod(a, b):
    if is_sym(a) or is_sym(b):
        return core.floordiv(a, b), core.mod(a, b)
    return divmod(a, b)


def b_iter(*a):
    if len(a) == 1:
        x = unl(a[0])
        if isinstance(x, SymMapBase):
            return x.keys_seq()
        if is_sym(x):
            return x
    return iter(*a)


def b_map(f, *its):
    if len(its) == 1 and isinstance(its[0], SymSeq):
        return comp("gen", its[0], f, None)
    return map(f, *its)


def b_filter(f, it):
    if isinstance(it, SymSeq):
        raise Unsupported("filter of a symbolic list")
    if has_sym(it):
        return [x for x in it if (f(x) if f is not None else x)]
    return filter(f, it)


def b_hash(x):
    if is_sym(x):
        raise Unsupported("hash of a symbolic value")
    return hash(x)


def b_repr(x):
    if is_sym(x):
        return fmt(x, -1, "")
    return repr(x)


_B = {}
for _n, _f in list(globals().items()):
    if _n.startswith("b_") and hasattr(builtins, _n[2:]):
        _B[getattr(builtins, _n[2:])] = _f


def b(fn, name):
    """The model of builtin `name` when `fn` still is that builtin."""
    if core.CTX is None:
        return fn
    try:
        return _B.get(fn, fn)
    except TypeError:
        return fn


# ------------------------------------------------------------- operators
_IOPS = {
    "Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul,
    "Div": operator.itruediv, "FloorDiv": operator.ifloordiv, "Mod": operator.imod,
    "Pow": operator.ipow, "BitAnd": operator.iand, "BitOr": operator.ior,
    "BitXor": operator.ixor, "MatMult": operator.imatmul,
    "LShift": operator.ilshift, "RShift": operator.irshift,
}


def iop(name, a, b_):
    if isinstance(a, _np.ndarray) and a.dtype != object and (has_sym(b_)):
        raise Unsupported("in-place update of a native array with a symbolic value")
    return _IOPS[name](a, b_)


# ------------------------------------------------------------- modules
_FACADES = {}


def mod(module):
    from . import npmodel

    return npmodel.facade(module)


# ------------------------------------------------------------- comprehensions
def comp(kind, it, fn, cond):
    it = it_of(it)
    if isinstance(it, SymArray):
        it = SymSeq(it.n, it.f)
    if isinstance(it, SymMapBase):
        it = it.keys_seq()
    if isinstance(it, SymSeq):
        if kind not in ("list", "gen"):
            raise Unsupported("set/dict comprehension over a symbolic list")
        if cond is not None:
            return filtered(it, fn, cond)
        p = core.ctx()
        # every element must evaluate without an exception
        out = SymSeq(it.n, lambda i: fn(it.at(i)), "comp")
        out.mapped = it
        if p.branch(it.n.e > 0):
            k = z3.Int(p.fresh("ci"))
            p.add(z3.And(k >= 0, k < it.n.e))
            out.at(k)
        return out
    if kind == "list":
        return [fn(x) for x in it if cond is None or cond(x)]
    if kind == "gen":
        return _gen(it, fn, cond)
    if kind == "set":
        vals = [fn(x) for x in it if cond is None or cond(x)]
        if has_sym(vals):
            return SymSetList(dedupe(vals))
        return set(vals)
    out = {}
    for x in it:
        if cond is None or cond(x):
            k, v = fn(x)
            if is_sym(k):
                raise Unsupported("dict comprehension with symbolic keys")
            out[k] = v
    return out


def filtered(it, fn, cond):
    """[fn(x) for x in it if cond(x)]: the elements at the increasing
    positions where cond holds (all of them)."""
    p = core.ctx()
    I_ = z3.IntSort()
    n = it.n.e
    pos = z3.Function(p.fresh("pos"), I_, I_)
    inv = z3.Function(p.fresh("rank"), I_, I_)
    m = z3.Int(p.fresh("kept"))
    p.add(z3.And(m >= 0, m <= n))
    seen = []

    known = {}

    def holds(k):
        if k.get_id() not in known:
            within = z3.And(k >= 0, k < n)  # only used where this holds
            f = p.formula(lambda: cond(it.at(k)), under=within)
            if f is None and not p.branch(within):
                f = z3.BoolVal(False)
            if f is None:
                c = cond(it.at(k))
                if not isinstance(c, (SymBool, bool)):
                    c = bool(c)
                f = core.as_z3bool(c)
            known[k.get_id()] = (f, k)
        return known[k.get_id()][0]

    def know(j):
        """facts about kept element j"""
        p.fact(z3.Implies(z3.And(j >= 0, j < m), z3.And(pos(j) >= 0, pos(j) < n, pos(j) >= j, inv(pos(j)) == j)))
        p.fact(z3.Implies(z3.And(j >= 0, j < m), holds(pos(j))))
        for o in seen:
            p.fact(z3.Implies(z3.And(j >= 0, j < m, o >= 0, o < m), z3.And((j < o) == (pos(j) < pos(o)), (j == o) == (pos(j) == pos(o)))))
        seen.append(j)

    def elem(j):
        know(j)
        return fn(it.at(pos(j)))

    def rank(k):
        """the kept position of source index k (facts when cond holds there)"""
        p.fact(z3.Implies(z3.And(k >= 0, k < n, holds(k)), z3.And(inv(k) >= 0, inv(k) < m, pos(inv(k)) == k)))
        know(inv(k))
        return inv(k)

    out = SymSeq(SymNum(m), elem, "filtered")
    p.selections = [*getattr(p, "selections", ()), out]
    out.source, out.pos, out.rank = it, pos, rank
    p.trusted("a filtering comprehension keeps exactly the elements meeting its condition, in order")
    k = z3.Int(p.fresh("fi"))
    if p.branch(n > 0):
        p.add(z3.And(k >= 0, k < n))
        holds(k)
    for kk in list(p.ufapps.get("indices", ())):
        rank(kk)
    return out


def _gen(it, fn, cond):
    for x in it:
        if cond is None or cond(x):
            yield fn(x)


# ------------------------------------------------------------- loops
class _Poison:
    """A loop temporary after havoc: any use is outside the loop contract."""

    def _no(self, *a, **k):
        raise Unsupported("a variable modified by the loop is used outside its loop contract")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = _no
    __getitem__ = __setitem__ = __call__ = __iter__ = __len__ = __bool__ = _no
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __float__ = __int__ = _no
    __str__ = __format__ = __contains__ = __iadd__ = __imul__ = _no
    __hash__ = None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self._no()

    def __repr__(self):
        return "<havoc>"


POISON = _Poison()


def loop(it, where, no):
    return Loop(it, where, no)


class Fold:
    """Loop contract: one live accumulator; after i iterations it equals
    value(i).  step(i) yields the facts defining value(i+1) from value(i)."""

    def __init__(self, name, value, step, equal=None, match=None):
        self.name, self.value, self.step = name, value, step
        self.equal = equal or (lambda a, b: eq(a, b))
        self.match = match


class Collect:
    """Loop contract: the loop builds a list; after i iterations it holds
    elem(0..i-1)."""

    def __init__(self, name, elem, equal=None, find=None):
        self.name, self.elem = name, elem
        self.equal = equal or (lambda a, b: eq(a, b))
        self.find = find  # loc -> the result list, where it is not a local variable


class Filters:
    """Lists filled by a filtering loop: specs = [(name match, cond(i), elem(i))];
    after i iterations each list holds elem(j) for the j < i with cond(j), in order."""

    def __init__(self, name, specs, equal=None):
        self.name, self.specs = name, specs
        self.equal = equal or core.eq


class Search:
    """Loop contract: no live accumulator; `holds(i)` is what must be true of
    every element passed over without leaving the loop."""

    def __init__(self, name, holds=None):
        self.name, self.holds = name, holds


class Inv:
    """General loop contract.

    state(i, vars) -> dict of new values for the live variables at iteration i
    inv(i, vars)   -> formula over the live variables
    """

    def __init__(self, name, live, havoc, inv):
        self.name, self.live, self.havoc, self.inv = name, live, havoc, inv


_ATOM = (int, float, str, bool, bytes, type(None), complex)


def _snapshot(vals):
    """Shallow identities of every native container reachable from vals."""
    seen = {}

    def walk(x, d):
        if isinstance(x, _ATOM) or isinstance(x, (type, SymNum, SymBool, SymStr, SymComplex)) or callable(x) and not hasattr(x, "__dict__"):
            return
        if id(x) in seen or d > 4:
            return
        if isinstance(x, SymArray):
            seen[id(x)] = (x, ("arr", id(x.f)))
            return
        if isinstance(x, SymSeq):
            return
        if type(x) is VList and x.sym is not None:
            seen[id(x)] = (x, ("sym", id(x.sym)))
            return
        if isinstance(x, (list, tuple)):
            seen[id(x)] = (x, tuple(id(v) for v in x))
            for v in x:
                walk(v, d + 1)
        elif type(x) in (VDict, VOD) and x.sym is not None:
            seen[id(x)] = (x, ("sym", x.sym.version()))
        elif isinstance(x, dict):
            # "_fields" is the lazily built description of a model's fields
            seen[id(x)] = (x, tuple((id(k), id(v)) for k, v in x.items() if k is not None and not (isinstance(k, str) and k == "_fields")))
            for v in x.values():
                walk(v, d + 1)
        elif isinstance(x, set):
            seen[id(x)] = (x, tuple(sorted(id(v) for v in x)))
        elif isinstance(x, _np.ndarray):
            seen[id(x)] = (x, (x.shape, tuple(id(v) for v in x.flat) if _np.ndarray.dtype.__get__(x) == object else x.tobytes()))
        elif isinstance(x, SymMapBase):
            seen[id(x)] = (x, x.version())
        elif hasattr(x, "__dict__") and not isinstance(x, type) and type(x).__module__.split(".")[0] in ("mt_metadata", "pyvc", "props"):
            dd = x.__dict__
            seen[id(x)] = (x, tuple((k, id(v)) for k, v in dd.items()))
            for v in list(dd.values()):
                walk(v, d + 1)
            pr = getattr(x, "__pydantic_private__", None)
            if isinstance(pr, dict):
                walk(pr, d + 1)

    for v in vals:
        walk(v, 0)
    return seen


def _changed(seen):
    cur = _snapshot([x for x, _ in seen.values()])
    return [x for k, (x, s) in seen.items() if k not in cur or cur[k][1] != s]


class Loop:
    def __init__(self, it, where, no):
        self.where, self.no = where, no
        self.symbolic = False
        self.it = it
        if core.CTX is None:
            return
        it = it_of(it)
        if isinstance(it, SymArray):
            it = SymSeq(it.n, it.f)
        if isinstance(it, SymMapBase):
            it = it.keys_seq()
        if isinstance(it, SymSeq):
            n = z3.simplify(it.n.e)
            if z3.is_int_value(n):
                self.it = [it.at(z3.IntVal(i)) for i in range(n.as_long())]
            elif core.CTX.unroll is not None:
                self.it = [it.at(z3.IntVal(i)) for i in range(self.unrolled(core.CTX, it.n.e))]
            else:
                self.symbolic = True
                self.seq = it

    def unrolled(self, p, n):
        """the length, one path for each up to the stated bound"""
        p.add(n <= p.unroll)
        p.ufapps.setdefault("indices", []).extend(z3.IntVal(i) for i in range(p.unroll))
        for k in range(p.unroll):
            if p.branch(n == k):
                return k
        p.add(n == p.unroll)
        if p._sat(ms=core.BRANCH_MS) == z3.unsat:
            raise PathEnd("longer than the bound")
        return p.unroll

    def items(self):
        it = self.it
        if isinstance(it, SymStr):
            raise Unsupported("iteration over a symbolic string")
        return it

    # ---- cut by invariant
    def enter(self, loc, names, targets):
        p = core.ctx()
        specs = p.loop_specs.get(self.where) or p.loop_specs.get("*")
        spec = None
        if specs:
            if callable(specs):
                spec = specs(self, loc, names)
            else:
                idx = p.ufapps.setdefault(("loopuse", self.where), [0])
                spec = specs[min(idx[0], len(specs) - 1)]
                idx[0] += 1
        live = [n for n in names if n in loc and n not in targets]
        if spec is None:
            if not live:
                spec = Search(f"{self.where}#{self.no}")
            else:
                raise Unsupported(f"loop without a contract in {self.where} over a symbolic list")
        self.spec, self.names, self.live = spec, names, live
        p.result.cut = True
        self.targets = targets
        self.n = self.seq.n.e
        self.label = f"loop {spec.name}"
        self.env = {n: POISON for n in names}
        p.trusted("loops over symbolic lists terminate (finite sequence)")
        if isinstance(spec, Fold):
            if len(live) != 1:
                # ignore variables that are re-assigned before use: havoc them
                cand = [n for n in live if (spec.match(n, loc[n]) if spec.match else is_accum(loc[n]))]
                if len(cand) != 1:
                    raise Unsupported(f"loop in {self.where}: accumulators {live} do not fit the fold contract")
                self.acc = cand[0]
            else:
                self.acc = live[0]
            v0 = loc[self.acc]
            p.check(f"{self.label}: holds on entry", spec.equal(v0, spec.value(z3.IntVal(0))))
        elif isinstance(spec, Inv):
            for n in spec.live:
                if n not in loc:
                    raise Unsupported(f"loop in {self.where}: variable {n} is gone")
            f = spec.inv(z3.IntVal(0), loc)
            for g in f if isinstance(f, list) else [f]:
                p.check(f"{self.label}: holds on entry", g)
        elif isinstance(spec, Collect):
            cand = []
            if spec.find:
                cand = [x for x in (unl(v) if type(v) is not VList else v for v in spec.find(loc)) if type(x) is VList and x.sym is None and list.__len__(x) == 0]
            else:
                for v in loc.values():
                    if type(v) is VList and v.sym is None and list.__len__(v) == 0 and not builtins.any(v is c for c in cand):
                        cand.append(v)
            if len(cand) != 1:
                raise Unsupported(f"loop in {self.where}: {len(cand)} candidate result lists")
            if live and not spec.find:
                raise Unsupported(f"loop in {self.where}: live variables {live} besides the result list")
            self.lst = cand[0]
            p.check(f"{self.label}: holds on entry", SymBool(z3.BoolVal(True)))
        elif isinstance(spec, Filters):
            cand = []
            for n, v in loc.items():
                if type(v) is VList and v.sym is None and list.__len__(v) == 0 and not builtins.any(v is c for _, c in cand):
                    cand.append((n, v))
            self.lists = []
            for match, cond, elem in spec.specs:
                hit = [v for n, v in cand if match(n)]
                if len(hit) != 1:
                    if len(cand) != len(spec.specs):
                        raise Unsupported(f"loop in {self.where}: result lists do not fit the contract")
                    self.lists = [(v, c, e) for (n, v), (_, c, e) in zip(cand, spec.specs)]
                    break
                self.lists.append((hit[0], cond, elem))
            if live:
                raise Unsupported(f"loop in {self.where}: live variables {live} besides the result lists")
            p.check(f"{self.label}: holds on entry", SymBool(z3.BoolVal(True)))
        self.snap = _snapshot([v for k, v in loc.items() if not k.startswith("_vc_")])
        # fork: arbitrary iteration vs. exit
        self.is_arb = p.branch(z3.And(z3.Bool(p.fresh("iter")), self.n > 0))
        if self.is_arb:
            self.i = z3.Int(p.fresh("it"))
            p.add(z3.And(self.i >= 0, self.i < self.n))
            p.ufapps.setdefault("indices", []).append(self.i)
        else:
            self.i = self.n
        if isinstance(spec, Fold):
            if self.is_arb:
                for f in spec.step(self.i) or ():
                    p.add(core.as_z3bool(f))
            v = spec.value(self.i)
            # an in-place updated array keeps its identity
            if isinstance(v0, SymArray) and isinstance(v, SymArray):
                v0.f = v.f
                v = v0
                self.snap[id(v0)] = (v0, ("arr", id(v0.f))) if id(v0) in self.snap else (v0, ("arr", id(v0.f)))
                self.acc_obj = v0
            self.env[self.acc] = v
        elif isinstance(spec, Inv):
            hv = spec.havoc(self.i, loc)
            self.env.update(hv)
            f = spec.inv(self.i, {**loc, **hv})
            for g in f if isinstance(f, list) else [f]:
                p.add(core.as_z3bool(g))
        elif isinstance(spec, Collect):
            self.lst.sym = SymSeq(SymNum(self.i), spec.elem, "collected")
            self.lst.sym.mapped = self.seq
            self.sym0 = self.lst.sym
        elif isinstance(spec, Filters):
            self.sym0 = []
            for lst, cond, elem in self.lists:
                src = SymSeq(SymNum(self.i), lambda k: SymNum(k), "positions")
                lst.sym = filtered(src, lambda k, elem=elem: elem(k.e), lambda k, cond=cond: SymBool(cond(k.e)))
                self.sym0.append(lst.sym)
        elif isinstance(spec, Search) and spec.holds is not None:
            i, holds = self.i, spec.holds
            for j in [z3.IntVal(0), i - 1, *p.ufapps.get("indices", ())]:
                p.add(z3.Implies(z3.And(j >= 0, j < i), core.as_z3bool(holds(j))))
            p.ufapps.setdefault("foralls", []).append((i, holds))
        if p._sat(ms=core.BRANCH_MS) == z3.unsat:
            raise PathEnd("loop cut infeasible")

    def var(self, n):
        return self.env[n]

    def arbitrary(self):
        return self.is_arb

    def once(self):
        return (self.seq.at(self.i),)

    def preserve(self, loc):
        p = core.ctx()
        spec = self.spec
        ch = _changed(self.snap)
        if isinstance(spec, Fold):
            acc_obj = getattr(self, "acc_obj", None)
            ch = [x for x in ch if x is not acc_obj]
        if isinstance(spec, Inv):
            ch = [x for x in ch if not getattr(spec, "may_modify", lambda x: False)(x)]
        if isinstance(spec, Collect):
            lst = self.lst
            ch = [x for x in ch if x is not lst]
        if isinstance(spec, Filters):
            ch = [x for x in ch if not builtins.any(x is v for v, _, _ in self.lists)]
        if ch:
            raise Unsupported(
                f"loop in {self.where} modifies objects outside its contract: {[type(x).__name__ for x in ch][:4]}"
            )
        if isinstance(spec, Fold):
            p.check(f"{self.label}: preserved", spec.equal(loc[self.acc], spec.value(self.i + 1)))
        elif isinstance(spec, Inv):
            f = spec.inv(self.i + 1, loc)
            for g in f if isinstance(f, list) else [f]:  # conjuncts one at a time
                p.check(f"{self.label}: preserved", g)
        elif isinstance(spec, Collect):
            new = self.lst.sym
            if new is self.sym0 or getattr(new, "prefix", None) is not self.sym0:
                p.fail(f"{self.label}: preserved", "the iteration does not append exactly one element")
            else:
                p.check(f"{self.label}: preserved", spec.equal(new.last, spec.elem(self.i)))
        elif isinstance(spec, Filters):
            for (lst, cond, elem), s0 in zip(self.lists, self.sym0):
                new = lst.sym
                if p.branch(cond(self.i)):
                    if getattr(new, "prefix", None) is not s0:
                        p.fail(f"{self.label}: preserved", "an element meeting the condition is not appended once")
                    else:
                        p.check(f"{self.label}: preserved", spec.equal(new.last, elem(self.i)))
                elif new is not s0:
                    p.fail(f"{self.label}: preserved", "an element not meeting the condition is appended")
        elif isinstance(spec, Search) and spec.holds is not None:
            p.check(f"{self.label}: passed-over element satisfies the invariant", spec.holds(self.i))
        raise PathEnd("iteration done")

    def broke(self):
        return None


def is_accum(v):
    return isinstance(v, (int, float, complex, SymNum, SymComplex, SymArray, SymBool, _np.ndarray)) and not isinstance(v, bool)
