"""Trusted contracts of numpy / math on symbolic operands.

Real numpy runs whenever every operand is concrete.  Transcendental functions
are uninterpreted with the instantiated facts listed next to each model.
"""
import math
import types

import numpy as np
import z3

from . import core, ring
from .core import (And, Not, Or, SymArray, SymBool, SymComplex, SymNum, SymSeq, SymStr,
                   Unsupported, as_z3int, arr_map2, eq, is_num, ite, num_z3, obj_map,
                   power, toreal)

R = z3.RealSort()
_F = {}


def uf(name, *sorts):
    k = (name, tuple(str(s) for s in sorts))
    if k not in _F:
        _F[k] = z3.Function(name, *sorts)
    return _F[k]


def is_block(x):
    return type(x).__name__ == "SymBlock"


def blocks():
    from . import blockmodel

    return blockmodel


def real1(name):
    return uf(name, R, R)


# ---------------------------------------------------------------- elementwise
def lift1(f):
    def g(x, *a, **k):
        if isinstance(x, SymArray) or is_block(x):
            return x.map(lambda v: f(v))
        if isinstance(x, SymSeq):
            return SymArray(x.n, lambda i: f(x.at(i)))
        if isinstance(x, np.ndarray):
            if x.dtype != object:
                return None
            return obj_map(x, f)
        if isinstance(x, (list, tuple)):
            return obj_map(np.array(x, dtype=object), f)
        return f(x)

    return g


def _native(v):
    from .helpers import is_sym

    return not is_sym(v)


def sqrt(x):
    if _native(x):
        return math.sqrt(x)
    if isinstance(x, SymComplex):
        raise Unsupported("complex sqrt")
    p = core.ctx()
    e = toreal(num_z3(x))
    f = real1("sqrt")
    if getattr(p, "ring", None) is not None and ring.large(e):
        # only the sign: equal arguments are recognised by their normal forms
        p.trusted("sqrt: sqrt(x)>=0 and sqrt(x)^2=x for x>=0")
        r = f(e)
        p.add(r >= 0)
        return SymNum(r)
    e = z3.simplify(e, som=True)
    r = f(e)
    p.trusted("sqrt: sqrt(x)>=0 and sqrt(x)^2=x for x>=0")
    p.fact(z3.Implies(e >= 0, z3.And(r >= 0, r * r == e)))
    return SymNum(r)


def exp(x):
    if _native(x):
        return np.exp(x)
    p = core.ctx()
    if isinstance(x, SymComplex):
        # e^(a+ib) = e^a (cos b + i sin b)
        s = z3.simplify(x.re.e)
        m = SymNum(z3.RealVal(1)) if (z3.is_rational_value(s) and s.as_fraction() == 0) else exp(x.re)
        return SymComplex(m * cos(x.im), m * sin(x.im))
    e = z3.simplify(toreal(num_z3(x)))
    if z3.is_rational_value(e) and e.as_fraction() == 0:
        return SymNum(z3.RealVal(1))
    r = real1("exp")(e)
    p.trusted("exp: exp(x) > 0, exp(0) = 1")
    p.fact(r > 0)
    return SymNum(r)


def _angle(x):
    return z3.simplify(toreal(num_z3(x)), som=True)


def cos(x):
    if _native(x):
        return math.cos(x)
    return _trig(x)[0]


def sin(x):
    if _native(x):
        return math.sin(x)
    return _trig(x)[1]


def _trig(x):
    p = core.ctx()
    e = _angle(x)
    if z3.is_rational_value(e) and e.as_fraction() == 0:
        return SymNum(z3.RealVal(1)), SymNum(z3.RealVal(0))
    c, s = real1("cos")(e), real1("sin")(e)
    ne = _angle(SymNum(-e))
    c2, s2 = real1("cos")(ne), real1("sin")(ne)
    p.trusted("cos/sin: cos^2+sin^2=1, cos(-x)=cos x, sin(-x)=-sin x")
    p.fact(c * c + s * s == 1)
    p.fact(z3.And(c2 == c, s2 == -s))
    return SymNum(c), SymNum(s)


def tan(x):
    c, s = _trig(x)
    return SymNum(s.e / c.e)


def deg2rad(x):
    if _native(x):
        return math.radians(x)
    return SymNum(toreal(num_z3(x)) * core._pi() / 180)


def rad2deg(x):
    if _native(x):
        return math.degrees(x)
    return SymNum(toreal(num_z3(x)) * 180 / core._pi())


def tanh(x):
    p = core.ctx()
    e = z3.simplify(toreal(num_z3(x)), som=True)
    r = real1("tanh")(e)
    p.trusted("tanh: value in (-1, 1), odd, sign follows the argument")
    p.fact(z3.And(r > -1, r < 1, (r > 0) == (e > 0), (r == 0) == (e == 0)))
    return SymNum(r)


def arctan2(y, x):
    p = core.ctx()
    a, b = toreal(num_z3(y)), toreal(num_z3(x))
    r = uf("atan2", R, R, R)(a, b)
    pi = core._pi()
    p.trusted("atan2: value in [-pi, pi]; sign follows y")
    p.fact(z3.And(r >= -pi, r <= pi))
    p.fact(z3.Implies(a > 0, r > 0))
    p.fact(z3.Implies(a < 0, r < 0))
    return SymNum(r)


def arctan(x):
    p = core.ctx()
    e = toreal(num_z3(x))
    r = real1("atan")(e)
    p.trusted("atan: value in (-pi/2, pi/2), sign follows the argument")
    pi = core._pi()
    p.fact(z3.And(r > -pi / 2, r < pi / 2, (r > 0) == (e > 0), (r == 0) == (e == 0)))
    return SymNum(r)


def log(x):
    r = real1("log")(toreal(num_z3(x)))
    return SymNum(r)


def log10(x):
    r = real1("log10")(toreal(num_z3(x)))
    return SymNum(r)


def uf_pow(a, b):
    p = core.ctx()
    x, y = z3.simplify(toreal(num_z3(a))), z3.simplify(toreal(num_z3(b)))
    r = uf("pow", R, R, R)(x, y)
    p.trusted("pow: x^y > 0 for x > 0; x^0 = 1")
    p.fact(z3.Implies(x > 0, r > 0))
    p.fact(z3.Implies(y == 0, r == 1))
    return SymNum(r)


def py_round(x, nd=None):
    if _native(x):
        return round(x, nd) if nd is not None else round(x)
    if x.is_int:
        return x
    if nd is not None and not isinstance(nd, int):
        raise Unsupported("round with symbolic digits")
    e = x.e
    scale = z3.RealVal(10 ** nd) if nd else z3.RealVal(1)
    y = e * scale
    fl = z3.ToInt(y)
    d = y - z3.ToReal(fl)
    up = z3.Or(d > z3.RealVal("1/2"), z3.And(d == z3.RealVal("1/2"), fl % 2 != 0))
    r = z3.If(up, fl + 1, fl)
    core.ctx().trusted("round() is exact half-even rounding of the real value")
    if nd is None:
        return SymNum(r)
    return SymNum(z3.ToReal(r) / scale)


def floor(x):
    if _native(x):
        return math.floor(x)
    return SymNum(z3.ToInt(x.e)) if not x.is_int else x


def ceil(x):
    if _native(x):
        return math.ceil(x)
    return SymNum(-z3.ToInt(-x.e)) if not x.is_int else x


def np_floor(x):
    return SymNum(toreal(floor(x).e)) if not _native(x) else np.floor(x)


def np_ceil(x):
    return SymNum(toreal(ceil(x).e)) if not _native(x) else np.ceil(x)


def np_rint(x, nd=0):
    r = py_round(x, nd or None)
    return SymNum(toreal(num_z3(r)))


def isnan(x):
    return SymBool(z3.BoolVal(False)) if not _native(x) else bool(np.isnan(x))


def fabs(x):
    return abs(x)


def heaviside(x, h):
    return ite(eq(x, 0), h, ite(x < 0, SymNum(z3.RealVal(0)), SymNum(z3.RealVal(1))))


def angle(z, deg=False):
    z = SymComplex.lift(z)
    r = arctan2(z.im, z.re)
    return rad2deg(r) if deg else r


def real(z):
    return z.real


def imag(z):
    return z.imag


def conj(z):
    return z.conjugate()


def sign(x):
    return ite(x > 0, SymNum(z3.IntVal(1)), ite(x < 0, SymNum(z3.IntVal(-1)), SymNum(z3.IntVal(0))))


def square(x):
    return x * x


# ---------------------------------------------------------------- facade
class Facade(types.ModuleType):
    def __init__(self, real, table):
        super().__init__(real.__name__)
        object.__setattr__(self, "_real", real)
        object.__setattr__(self, "_table", table)

    def __getattr__(self, name):
        t = object.__getattribute__(self, "_table")
        real = object.__getattribute__(self, "_real")
        r = getattr(real, name)
        if name in t and not isinstance(r, type):
            return Dispatch(r, t[name])
        return r


class Dispatch:
    """real function unless an argument is symbolic"""

    def __init__(self, real, model):
        self.real, self.model = real, model
        self.__name__ = getattr(real, "__name__", "fn")

    def __call__(self, *a, **k):
        from .helpers import has_sym

        if core.CTX is None:
            return self.real(*a, **k)
        objs = core.CTX.loop_specs.get("objarrays")
        if objs and self.__name__ in CREATORS:
            r = self.real(*a, **k) if not any(has_sym(x) for x in a) else self.model(*a, **k)
            return to_obj(r)
        if any(has_sym(x) for x in a) or any(has_sym(v) for v in k.values()):
            return self.model(*a, **k)
        return self.real(*a, **k)

    def __getattr__(self, n):
        return getattr(self.real, n)


CREATORS = {"zeros", "ones", "empty", "zeros_like", "ones_like", "full", "eye", "identity", "array", "full_like", "empty_like"}


def to_obj(r):
    if isinstance(r, np.ndarray) and r.dtype.kind in "fciu":
        o = np.empty(r.shape, dtype=object)
        for ix in np.ndindex(*r.shape):
            o[ix] = r[ix].item()
        return o
    return r


def _elt(f):
    g = lift1(f)

    def h(x, *a, **k):
        return g(x)

    return h


def np_array(x, *a, **k):
    from .helpers import unl

    dtype = k.get("dtype", a[0] if a else None)
    x = unl(x)
    if isinstance(x, SymArray) or is_block(x):
        y = x.copy()
    elif isinstance(x, SymSeq):
        y = SymArray(x.n, x.at)
        y.src = x
    elif isinstance(x, (list, tuple, np.ndarray)):
        shape, flat = _nested(x)
        o = np.empty(shape, dtype=object)
        for ix, v in zip(np.ndindex(*shape), flat):
            if dtype in (complex, "complex") and is_num(v):
                v = complex(v)
            o[ix] = v.item() if isinstance(v, np.generic) else v
        return o
    else:
        if isinstance(x, (SymNum, SymComplex, SymBool)):
            if k.get("ndmin"):
                return SymArray(1, lambda i: x)
            return x
        raise Unsupported(f"np.array of {type(x).__name__}")
    if dtype is not None and dtype not in (object,):
        try:
            y = y.astype(dtype)
        except Unsupported:
            raise
    return y


def _nested(x):
    if isinstance(x, np.ndarray):
        return x.shape, list(x.flat)
    if isinstance(x, (list, tuple)):
        subs = [_nested(v) for v in x]
        if not subs:
            return (0,), []
        sh = subs[0][0]
        if any(s[0] != sh for s in subs):
            raise Unsupported("ragged array")
        flat = []
        for s in subs:
            flat += s[1]
        return (len(x),) + sh, flat
    return (), [x]


def np_asarray(x, *a, **k):
    if (isinstance(x, SymArray) or is_block(x)) and not a and not k.get("dtype"):
        return x
    return np_array(x, *a, **k)


def _len_of(shape):
    if isinstance(shape, SymNum):
        return shape
    if isinstance(shape, (tuple, list)) and len(shape) == 1:
        return shape[0]
    if isinstance(shape, (tuple, list)):
        raise Unsupported("symbolic 2-d shape")
    return shape


COMPLEX = (complex, "complex", "complex128", "complex64", np.complex64, np.complex128)


def full_of(shape, z):
    if isinstance(shape, (tuple, list)) and len(shape) > 1:
        b = blocks()
        return b.SymBlock(shape[0], b.cells_of(tuple(int(b.conc(x)) for x in shape[1:]), lambda ix: SymArray(shape[0], lambda i: z)))
    return SymArray(_len_of(shape), lambda i: z)


def np_zeros(shape, *a, **k):
    dt = k.get("dtype", a[0] if a else None)
    z = SymComplex(0, 0) if dt in COMPLEX else SymNum(z3.RealVal(0))
    return full_of(shape, z)


def np_ones(shape, *a, **k):
    dt = k.get("dtype", a[0] if a else None)
    z = SymComplex(1, 0) if dt in COMPLEX else SymNum(z3.RealVal(1))
    return full_of(shape, z)


def np_full(shape, v, *a, **k):
    return full_of(shape, v)


def np_zeros_like(x, *a, **k):
    dt = k.get("dtype", a[0] if a else None)
    if isinstance(x, SymSeq):
        x = SymArray(x.n, x.at)
    if is_block(x):
        return x.map_cells(lambda c: np_zeros_like(c, *a, **k))
    if isinstance(x, SymArray):
        cplx = dt in (complex, "complex") or (dt is None and x.dtype == complex)
        isint = dt is int or (dt is None and x.dtype == int)
        z = SymComplex(0, 0) if cplx else SymNum(z3.IntVal(0) if isint else z3.RealVal(0))
        return SymArray(x.n, lambda i: z)
    if isinstance(x, (SymNum, SymComplex)):
        return SymNum(z3.RealVal(0))
    return obj_map(x, lambda v: 0.0)


def np_ones_like(x, *a, **k):
    z = np_zeros_like(x, *a, **k)
    one = 1.0
    if isinstance(z, SymArray):
        zero = z.f(z3.IntVal(0))
        one = SymComplex(1, 0) if isinstance(zero, SymComplex) else (
            SymNum(z3.IntVal(1)) if zero.is_int else SymNum(z3.RealVal(1)))
        return SymArray(z.n, lambda i: one)
    return SymNum(z3.RealVal(1)) if isinstance(z, SymNum) else obj_map(z, lambda v: 1.0)


def np_full_like(x, v, *a, **k):
    z = np_zeros_like(x, *a, **k)
    if isinstance(z, SymArray):
        zero = z.f(z3.IntVal(0))
        if isinstance(zero, SymNum) and zero.is_int:
            from .helpers import b_int

            v = b_int(v)
        return SymArray(z.n, lambda i: v)
    raise Unsupported("full_like")


def np_linspace(a, b, num=50, endpoint=True, **k):
    n = num_z3(num)
    lo, hi = toreal(num_z3(a)), toreal(num_z3(b))
    d = z3.ToReal(n - 1) if endpoint else z3.ToReal(n)
    core.ctx().trusted("np.linspace(a,b,n)[i] = a + i (b-a)/(n-1)")
    return SymArray(SymNum(n), lambda i: SymNum(lo + z3.ToReal(i) * (hi - lo) / d))


def np_arange(*a, **k):
    a = [x for x in a]
    if len(a) == 1:
        a = [0, a[0], 1]
    if len(a) == 2:
        a = [a[0], a[1], 1]
    lo, hi, st = (num_z3(x) for x in a)
    if all(x.sort() == z3.IntSort() for x in (lo, hi, st)):
        s = z3.simplify(st)
        if z3.is_int_value(s) and s.as_long() == 1:
            n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
            return SymArray(SymNum(n), lambda i: SymNum(z3.simplify(i + lo)))
    raise Unsupported("arange")


def np_any(x, *a, **k):
    if is_block(x):
        return blocks().block_any(x)
    from .helpers import b_any

    return b_any(x.flat if isinstance(x, np.ndarray) else x)


def np_all(x, *a, **k):
    from .helpers import b_all

    if isinstance(x, SymBool):
        return x
    if is_block(x):
        return blocks().block_all(x)
    return b_all(x.flat if isinstance(x, np.ndarray) else x)


def positions(mask):
    """increasing positions where a symbolic mask holds"""
    from .helpers import filtered

    src = core.SymSeq(mask.n if isinstance(mask.n, SymNum) else SymNum(z3.IntVal(mask.n)), lambda i: SymNum(i), "positions")
    kept = filtered(src, lambda v: v, lambda v: mask.f(v.e))
    out = SymArray(kept.n, kept.at)
    out.src = kept
    return out


def np_fftfreq(n, d=1.0, **k):
    """sample frequencies i/(n d), negative ones from (n + 1) // 2 on"""
    core.ctx().trusted("np.fft.fftfreq(n, d)[i] = i/(n d) for i < (n+1)//2, (i-n)/(n d) after")
    nz, step = num_z3(n), toreal(num_z3(d))
    half = (nz + 1) / 2
    return SymArray(SymNum(nz), lambda i: SymNum(z3.ToReal(z3.If(i < half, i, i - nz)) / (z3.ToReal(nz) * step)))


def np_rfftfreq(n, d=1.0, **k):
    core.ctx().trusted("np.fft.rfftfreq(n, d)[i] = i/(n d) for i <= n//2")
    nz, step = num_z3(n), toreal(num_z3(d))
    return SymArray(SymNum(nz / 2 + 1), lambda i: SymNum(z3.ToReal(i) / (z3.ToReal(nz) * step)))


def np_where(c, *a):
    if not a and isinstance(c, SymArray):
        return (positions(c),)
    if len(a) != 2:
        if isinstance(c, np.ndarray) and c.dtype == bool:
            return np.where(c)
        raise Unsupported("np.where(cond)")
    x, y = (SymNum(z3.Real("NaN")) if isinstance(v, float) and v != v else v for v in a)
    if is_block(c):
        g = lambda v, ix: v.cells[ix] if is_block(v) else v
        return type(c)(c.n, blocks().cells_of(c.cells.shape, lambda ix: np_where(c.cells[ix], g(x, ix), g(y, ix))))
    if isinstance(c, SymArray):
        g = lambda v, i: v.f(i) if isinstance(v, SymArray) else v
        return SymArray(c.n, lambda i: ite(c.f(i), g(x, i), g(y, i)))
    if isinstance(c, SymBool):
        return ite(c, x, y)
    if isinstance(c, np.ndarray):
        o = np.empty(c.shape, dtype=object)
        for ix in np.ndindex(*c.shape):
            g = lambda v: v[ix] if isinstance(v, np.ndarray) else v
            o[ix] = ite(c[ix], g(x), g(y)) if isinstance(c[ix], SymBool) else (g(x) if c[ix] else g(y))
        return o
    raise Unsupported("np.where")


def np_abs(x, *a, **k):
    return lift1(abs)(x)


def _bin(f):
    def g(a, b, *r, **k):
        if is_block(a):
            return a._b(b, f)
        if is_block(b):
            return b._b(a, lambda x, y: f(y, x))
        if isinstance(a, (SymArray, np.ndarray)) or isinstance(b, (SymArray, np.ndarray)):
            return arr_map2(a, b, f)
        return f(a, b)

    return g


def minimum(a, b):
    from .helpers import b_min

    return b_min(a, b)


def maximum(a, b):
    from .helpers import b_max

    return b_max(a, b)


def np_min(x, *a, **k):
    from .helpers import b_min

    if isinstance(x, np.ndarray):
        x = list(x.flat)
    return b_min(x)


def np_max(x, *a, **k):
    from .helpers import b_max

    if isinstance(x, np.ndarray):
        x = list(x.flat)
    return b_max(x)


def functional(name, seq):
    """Reduction over a list of symbolic length (numpy's own contract)."""
    j = z3.Int("red!j")
    A = z3.ArraySort(z3.IntSort(), R)
    f = uf(name, A, z3.IntSort(), R)
    core.ctx().trusted(f"np.{name.lower()} over a list is the mathematical reduction")
    return lambda term, n: SymNum(f(z3.Lambda([j], toreal(num_z3(term(j)))), n))


def reduce0(name, fold):
    """np.<name>(list, axis=0)"""

    def g(x, *a, **k):
        from .helpers import unl

        x = unl(x)
        axis = k.get("axis", a[0] if a else None)
        if isinstance(x, SymSeq) and axis == 0:
            probe = x.at(z3.Int("red!j"))
            red = functional(name, x)
            n = x.n.e
            if isinstance(probe, SymArray):
                return SymArray(probe.n, lambda i: red(lambda j: x.at(j).f(i), n))
            return red(lambda j: x.at(j), n)
        if isinstance(x, (list, tuple)) and axis == 0 and any(isinstance(v, SymArray) for v in x):
            r = x[0]
            for v in x[1:]:
                r = arr_map2(r, v, fold) if isinstance(r, SymArray) or isinstance(v, SymArray) else fold(r, v)
            if name == "MEAN":
                r = r / len(x)
            return r
        if isinstance(x, (list, tuple)) and axis in (0, None) and all(not isinstance(v, (list, tuple, np.ndarray, SymArray)) for v in x):
            r = x[0] if x else 1
            for v in x[1:]:
                r = fold(r, v)
            return r / len(x) if name == "MEAN" else r
        if isinstance(x, (SymArray, SymSeq)) and axis is None and name in ("MIN", "MAX"):
            from . import helpers

            return helpers.seq_extreme(x, name.lower())
        if isinstance(x, np.ndarray) and axis is None:
            return g(list(x.flat))
        raise Unsupported(f"np reduction {name} axis={axis} of {type(x).__name__}")

    return g


def np_prod(x, *a, **k):
    if isinstance(x, (SymArray, SymSeq)):
        raise Unsupported("prod of a symbolic array")
    r = 1
    for v in x:
        r = r * v
    return r


def np_sum(x, *a, **k):
    if isinstance(x, SymArray):
        return x.sum()
    if isinstance(x, SymSeq):
        raise Unsupported("sum of a symbolic array")
    axis = k.get("axis", a[0] if a else None)
    if axis is not None:
        raise Unsupported("sum over an axis")
    r = 0
    for v in (x.flat if isinstance(x, np.ndarray) else x):
        r = r + v
    return r


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    f = lambda x, y: abs(x - y) <= atol + rtol * abs(y)
    if isinstance(a, (SymArray, np.ndarray)) or isinstance(b, (SymArray, np.ndarray)):
        return arr_map2(a, b, f)
    return f(a, b)


def np_clip(a, lo, hi):
    def f(v):
        if lo is not None:
            v = ite(v < lo, lo, v)
        if hi is not None:
            v = ite(v > hi, hi, v)
        return v

    return lift1(f)(a)


def np_vectorish(x):
    raise Unsupported("numpy function without a model")


def np_dot(a, b, *r, **k):
    if is_block(a) or is_block(b):
        return blocks().matmul(a, b)
    return np.dot(np.asarray(a, dtype=object), np.asarray(b, dtype=object))


def np_matmul(a, b, *r, **k):
    if is_block(a) or is_block(b):
        return blocks().matmul(a, b)
    return np.dot(np.asarray(a, dtype=object), np.asarray(b, dtype=object))


def np_transpose(a, *r, **k):
    return np.transpose(np.asarray(a, dtype=object), *r)


def np_inv(a):
    a = np.asarray(a, dtype=object)
    hook = core.ctx().loop_specs.get("inv")
    if hook is not None:
        r = hook(a)
        if r is not None:
            return r
    if a.shape == (1, 1):
        o = np.empty((1, 1), dtype=object)
        o[0, 0] = core.np_div(1, a[0, 0])
        return o
    if a.shape != (2, 2):
        raise Unsupported("inverse of a larger symbolic matrix")
    det = a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    p = core.ctx()
    p.trusted("np.linalg.inv of a 2x2 matrix is its exact inverse; singular raises")
    if bool(eq(det, 0)):
        raise np.linalg.LinAlgError("Singular matrix")
    o = np.empty((2, 2), dtype=object)
    o[0, 0], o[0, 1] = core.np_div(a[1, 1], det), core.np_div(-a[0, 1], det)
    o[1, 0], o[1, 1] = core.np_div(-a[1, 0], det), core.np_div(a[0, 0], det)
    return o


def np_det(a):
    a = np.asarray(a, dtype=object)
    if a.shape == (1, 1):
        return a[0, 0]
    if a.shape != (2, 2):
        raise Unsupported("determinant of a larger symbolic matrix")
    hook = core.ctx().loop_specs.get("det")
    if hook is not None:
        return hook(a)
    core.ctx().trusted("np.linalg.det of a 2x2 matrix is its exact determinant")
    return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]


def np_repeat(a, n, axis=None):
    if isinstance(n, SymNum) and not isinstance(a, (SymArray, list, tuple, np.ndarray)):
        return SymArray(n, lambda i: a if isinstance(a, (SymNum, SymComplex, SymBool, SymStr)) else SymNum(toreal(num_z3(a))))
    if isinstance(n, SymNum) or isinstance(a, SymArray):
        raise Unsupported("repeat of a symbolic array")
    return np.repeat(a, n, axis=axis)


def np_nan_to_num(a, *r, **k):
    """exact numbers: nothing to replace"""
    hook = core.ctx().loop_specs.get("nan_to_num")
    if hook is not None:
        hook(a)
    if isinstance(a, SymArray) or is_block(a):
        return a.copy()
    if isinstance(a, (SymNum, SymComplex)):
        return a
    if isinstance(a, np.ndarray) and any(isinstance(x, (SymNum, SymComplex)) for x in a.flat):
        return a.copy()
    return np.nan_to_num(a, *r, **k)


def np_flipud(a):
    return a[::-1]


def np_flip(a, axis=None):
    nd = len(a.shape) if hasattr(a, "shape") else 1
    if axis is None and nd == 1:
        axis = 0
    if axis is None or not isinstance(axis, int) or axis < 0:
        raise core.Unsupported("np.flip of several axes")
    return a[(slice(None),) * axis + (slice(None, None, -1),)] if axis else a[::-1]


def np_concat(xs, *a, **k):
    xs = list(xs)
    if not any(isinstance(x, SymArray) for x in xs):
        out = []
        for x in xs:
            out += list(x) if isinstance(x, (list, tuple, np.ndarray)) else [x]
        return np_array(out)
    r = None
    for x in xs:
        if isinstance(x, (list, tuple, np.ndarray)):
            v = list(x)
            if not v:
                continue
            x = SymArray(len(v), lambda i, v=v: _pick(v, i))
        elif not isinstance(x, SymArray):
            x = SymArray(1, lambda i, x=x: x)
        r = x if r is None else _cat2(r, x)
    return r


def _pick(v, i):
    r = v[-1]
    for q in range(len(v) - 2, -1, -1):
        r = core.ite(SymBool(core.as_z3int(i) == q), v[q], r)
    return r


def _cat2(a, b):
    n = core.as_z3int(a.n)
    return SymArray(SymNum(z3.simplify(n + core.as_z3int(b.n))),
                    lambda i: core.ite(SymBool(core.as_z3int(i) < n), a.f(i), b.f(core.as_z3int(i) - n)))


def np_isin(*a, **k):
    raise Unsupported("np.isin")


def np_append(*a, **k):
    raise Unsupported("np.append")


NP = {
    "sqrt": _elt(sqrt), "exp": _elt(exp), "cos": _elt(cos), "sin": _elt(sin), "tan": _elt(tan), "tanh": _elt(tanh),
    "deg2rad": _elt(deg2rad), "radians": _elt(deg2rad), "rad2deg": _elt(rad2deg),
    "degrees": _elt(rad2deg), "log": _elt(log), "log10": _elt(log10), "arctan": _elt(arctan),
    "arctan2": _bin(arctan2), "floor": _elt(np_floor), "ceil": _elt(np_ceil),
    "abs": np_abs, "absolute": np_abs, "fabs": np_abs, "isnan": _elt(isnan),
    "real": _elt(real), "imag": _elt(imag), "conj": _elt(conj), "conjugate": _elt(conj),
    "square": _elt(square), "sign": _elt(sign),
    "power": _bin(power), "multiply": _bin(lambda a, b: a * b), "add": _bin(lambda a, b: a + b),
    "subtract": _bin(lambda a, b: a - b), "divide": _bin(core.np_div), "true_divide": _bin(core.np_div),
    "minimum": _bin(minimum), "maximum": _bin(maximum), "heaviside": _bin(heaviside),
    "array": np_array, "asarray": np_asarray, "atleast_1d": np_asarray,
    "zeros": np_zeros, "empty": np_zeros, "ones": np_ones, "full": np_full,
    "zeros_like": np_zeros_like, "ones_like": np_ones_like, "full_like": np_full_like,
    "empty_like": np_zeros_like,
    "linspace": np_linspace, "arange": np_arange, "any": np_any, "all": np_all,
    "where": np_where, "min": reduce0("MIN", minimum), "max": reduce0("MAX", maximum),
    "amin": reduce0("MIN", minimum), "amax": reduce0("MAX", maximum),
    "prod": reduce0("PROD", lambda a, b: a * b), "sum": np_sum, "isclose": np_isclose, "clip": np_clip,
    "nan_to_num": np_nan_to_num, "repeat": np_repeat, "dot": np_dot, "matmul": np_matmul, "transpose": np_transpose,
    "nanmin": np_min, "nanmax": np_max,
    "round": lambda x, n=0, **k: lift1(lambda v: np_rint(v, n))(x),
    "round_": lambda x, n=0, **k: lift1(lambda v: np_rint(v, n))(x),
    "around": lambda x, n=0, **k: lift1(lambda v: np_rint(v, n))(x),
    "eye": lambda *a, **k: np_vectorish(a), "identity": lambda *a, **k: np_vectorish(a),
    "mean": reduce0("MEAN", lambda a, b: a + b), "median": lambda *a, **k: np_vectorish(a),
    "interp": lambda *a, **k: np_vectorish(a), "angle": lambda z, deg=False: lift1(lambda v: angle(v, deg))(z),
    "isin": np_isin, "append": np_append, "flipud": np_flipud, "flip": np_flip, "hstack": np_concat,
    "concatenate": np_concat, "atleast_1d": lambda x, *a: x if isinstance(x, SymArray) else np_array([x]),
    "isfinite": _elt(lambda v: SymBool(z3.BoolVal(True))),
    "isinf": _elt(lambda v: SymBool(z3.BoolVal(False))),
}

NP["nonzero"] = lambda c: (positions(c),) if isinstance(c, SymArray) else np.nonzero(c)
NP["flatnonzero"] = lambda c: positions(c) if isinstance(c, SymArray) else np.flatnonzero(c)
NP["logical_and"] = _bin(lambda a, b: a & b)
NP["logical_or"] = _bin(lambda a, b: a | b)

FFT = {"fftfreq": np_fftfreq, "rfftfreq": np_rfftfreq}
LINALG = {"inv": np_inv, "det": np_det}

MATH = {
    "sqrt": sqrt, "exp": exp, "cos": cos, "sin": sin, "tan": tan, "atan2": arctan2, "atan": arctan,
    "floor": floor, "ceil": ceil, "log": log, "log10": log10, "radians": deg2rad,
    "degrees": rad2deg, "fabs": fabs, "isnan": isnan, "trunc": lambda x: core.to_int(x),
    "pow": power,
    "isclose": lambda a, b, rel_tol=1e-09, abs_tol=0.0: Or(
        abs(a - b) <= rel_tol * maximum(abs(a), abs(b)), abs(a - b) <= abs_tol),
    "modf": lambda x: (x - core.SymNum(toreal(core.to_int(x).e)), core.SymNum(toreal(core.to_int(x).e))),
    "isfinite": lambda x: SymBool(z3.BoolVal(True)), "isinf": lambda x: SymBool(z3.BoolVal(False)),
}

_CACHE = {}


def facade(module):
    if isinstance(module, Facade) or not isinstance(module, types.ModuleType):
        return module
    nm = module.__name__
    if nm in _CACHE:
        return _CACHE[nm]
    if nm == "numpy":
        f = Facade(module, NP)
        f.__dict__["linalg"] = Facade(module.linalg, LINALG)
        f.__dict__["fft"] = Facade(module.fft, FFT)
    elif nm == "math":
        f = Facade(module, MATH)
    elif nm == "pandas":
        from .pdmodel import Interval

        f = Facade(module, {})
        f.__dict__["Interval"] = Interval
    else:
        return module
    _CACHE[nm] = f
    return f
