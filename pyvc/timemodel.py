"""Trusted model of pandas timestamps: an instant is an integer number of
nanoseconds since 1970; a timestamp is an instant plus a zone offset."""
import datetime
import types

import pandas as pd
import z3

from . import core
from .core import And, SymBool, SymNum, SymStr, Unsupported, num_z3, toreal
from .helpers import SymOpaque, is_sym, has_sym
from .npmodel import uf

Z = z3.IntSort()
S = z3.StringSort()


class Zone:
    """tzinfo: identified by its offset term and name"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        if isinstance(o, Zone):
            return self.name == o.name
        return str(o) == self.name

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __str__(self):
        return self.name


UTC = Zone("UTC")


def ns_of(t):
    if isinstance(t, SymTimestamp):
        return t.ns
    if isinstance(t, pd.Timestamp):
        return z3.IntVal(pd.Timestamp(t).as_unit("ns").value)
    raise Unsupported(f"timestamp from {type(t)}")


class SymTimedelta(SymOpaque):
    pytype = pd.Timedelta

    def __init__(self, ns):
        self.ns = ns

    def total_seconds(self):
        return SymNum(z3.ToReal(self.ns) / z3.RealVal(1000000000))

    @property
    def value(self):
        return SymNum(self.ns)

    def __deepcopy__(self, m):
        return self

    def __neg__(self):
        return SymTimedelta(-self.ns)


class SymTimestamp(SymOpaque):
    pytype = pd.Timestamp
    __array_ufunc__ = None

    def __init__(self, ns, tz=UTC, off=None):
        self.ns = ns if isinstance(ns, z3.ExprRef) else num_z3(ns)
        self._tz = tz
        self.off = off if off is not None else z3.IntVal(0)  # local = ns + off

    # -- zones
    @property
    def tz(self):
        return self._tz

    tzinfo = tz

    def tz_localize(self, z):
        if self._tz is not None:
            raise TypeError("Cannot localize tz-aware Timestamp")
        if str(z) != "UTC":
            raise Unsupported("localize to a zone")
        return SymTimestamp(self.ns, UTC)

    def tz_convert(self, z):
        if self._tz is None:
            raise TypeError("Cannot convert tz-naive Timestamp")
        if str(z) != "UTC":
            raise Unsupported("convert to a zone")
        return SymTimestamp(self.ns, UTC)

    # -- value
    @property
    def value(self):
        return SymNum(self.ns)

    def order_value(self):
        return self.ns

    @property
    def nanosecond(self):
        return SymNum((self.ns + self.off) % 1000)

    def _field(self, name):
        f = uf("ts." + name, Z, Z)
        r = f(self.ns + self.off)
        return SymNum(r)

    year = property(lambda s: s._field("year"))
    month = property(lambda s: s._field("month"))
    day = property(lambda s: s._field("day"))
    hour = property(lambda s: s._field("hour"))
    minute = property(lambda s: s._field("minute"))
    second = property(lambda s: s._field("second"))
    microsecond = property(lambda s: s._field("microsecond"))

    UNITS = {"ns": 1, "us": 1000, "U": 1000, "ms": 10**6, "L": 10**6, "s": 10**9, "S": 10**9, "min": 60 * 10**9,
             "h": 3600 * 10**9, "H": 3600 * 10**9, "D": 86400 * 10**9}

    def _unit(self, freq):
        if freq not in self.UNITS:
            raise Unsupported("rounding frequency")
        u = self.UNITS[freq]
        l = self.ns + self.off
        return u, l / u, l % u

    def _to(self, l):
        return SymTimestamp(l - self.off, self._tz, self.off)

    def round(self, freq):
        u, q, r = self._unit(freq)
        up = z3.Or(2 * r > u, z3.And(2 * r == u, q % 2 == 1))
        return self._to(z3.If(up, q + 1, q) * u)

    def floor(self, freq):
        u, q, r = self._unit(freq)
        return self._to(q * u)

    def ceil(self, freq):
        u, q, r = self._unit(freq)
        return self._to(z3.If(r > 0, q + 1, q) * u)

    def normalize(self):
        return self.floor("D")

    def timestamp(self):
        core.ctx().trusted("Timestamp.timestamp() is the exact epoch second count")
        return SymNum(z3.ToReal(self.ns) / z3.RealVal(1000000000))

    def isoformat(self, *a, **k):
        core.ctx().trusted("isoformat() is an injective function of instant and zone")
        f = uf("ts.iso", Z, Z, S)
        g = uf("ts.uniso", S, Z)
        r = f(self.ns, self.off)
        core.ctx().fact(g(r) == self.ns)
        return SymStr(r, pieces=("iso", self))

    def date(self):
        return DayOf(self.ns + self.off)

    def text(self, spec=""):
        return self.isoformat()

    # -- order
    def _cmp(self, o, f):
        if isinstance(o, (SymTimestamp, pd.Timestamp)):
            if (self.tz is None) != (o.tz is None):
                raise TypeError("Cannot compare tz-naive and tz-aware timestamps")
            return SymBool(f(self.ns, ns_of(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, (SymTimestamp, pd.Timestamp)):
            if (self.tz is None) != (o.tz is None):
                return False
            return SymBool(self.ns == ns_of(o))
        if isinstance(o, (SymNum, SymStr)) or o is None or isinstance(o, (str, int, float, dict)):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else (not r if r is not NotImplemented else r)

    __hash__ = None

    # -- arithmetic
    def __add__(self, d):
        if isinstance(d, SymTimedelta):
            return SymTimestamp(self.ns + d.ns, self._tz, self.off)
        if isinstance(d, (pd.Timedelta, datetime.timedelta)):
            return SymTimestamp(self.ns + pd.Timedelta(d).value, self._tz, self.off)
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, SymTimedelta):
            return SymTimestamp(self.ns - o.ns, self._tz, self.off)
        if isinstance(o, (pd.Timedelta, datetime.timedelta)):
            return SymTimestamp(self.ns - pd.Timedelta(o).value, self._tz, self.off)
        if isinstance(o, (SymTimestamp, pd.Timestamp)):
            return SymTimedelta(self.ns - ns_of(o))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, pd.Timestamp):
            return SymTimedelta(ns_of(o) - self.ns)
        return NotImplemented

    def __deepcopy__(self, m):
        return self

    def __bool__(self):
        return True


class _TSMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (pd.Timestamp, SymTimestamp))

    def __subclasscheck__(cls, t):
        return issubclass(t, pd.Timestamp)

    def __call__(cls, *a, **k):
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            return make_ts(*a, **k)
        return pd.Timestamp(*a, **k)

    def __getattr__(cls, n):
        return getattr(pd.Timestamp, n)


def seconds_to_ns(x, unit_ns, resolution):
    """a float/int number of seconds as a nanosecond count"""
    if isinstance(x, SymNum) and x.is_int:
        return x.e * unit_ns
    core.ctx().trusted(f"a float number of seconds becomes the nearest multiple of {resolution} ns")
    y = toreal(num_z3(x)) * z3.RealVal(unit_ns)
    n = z3.Int(core.ctx().fresh("ns"))
    half = z3.RealVal(resolution) / 2
    m = z3.Int(core.ctx().fresh("q"))
    f = uf(f"nearest{resolution}", z3.RealSort(), Z)
    q = f(z3.simplify(y / z3.RealVal(resolution)))
    core.ctx().fact(z3.And(z3.ToReal(q) * resolution - y <= half, y - z3.ToReal(q) * resolution <= half))
    return q * resolution


def make_ts(x=None, tz=None, unit=None, **k):
    if isinstance(x, SymTimestamp):
        if tz is not None and x.tz is None:
            return SymTimestamp(x.ns, UTC)
        return x
    if isinstance(x, SymNum):
        u = {None: 1, "ns": 1, "s": 1000000000, "ms": 1000000}[unit]
        ns = x.e if (x.is_int and u == 1) else seconds_to_ns(x, u, 1)
        return SymTimestamp(ns, UTC if tz is not None else None)
    if isinstance(x, SymStr) and x.pieces and x.pieces[0] == "iso":
        core.ctx().trusted("pd.Timestamp(t.isoformat()) is the same instant in the same zone")
        t = x.pieces[1]
        return SymTimestamp(uf("ts.uniso", S, Z)(x.e), UTC if tz is not None else getattr(t, "tz", None), getattr(t, "off", None))
    raise Unsupported(f"pd.Timestamp({type(x).__name__})")


class Timestamp(metaclass=_TSMeta):
    @staticmethod
    def utcfromtimestamp(x):
        if is_sym(x):
            return SymTimestamp(seconds_to_ns(x, 1000000000, 1000), UTC)
        return pd.Timestamp.utcfromtimestamp(x)


class _TDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (pd.Timedelta, SymTimedelta))

    def __subclasscheck__(cls, t):
        return issubclass(t, pd.Timedelta)

    def __call__(cls, *a, **k):
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            if a and isinstance(a[0], SymTimedelta):
                return a[0]
            if set(k) == {"seconds"}:
                return SymTimedelta(seconds_to_ns(k["seconds"], 1000000000, 1))
            if set(k) == {"days"}:
                return SymTimedelta(seconds_to_ns(k["days"], 86400000000000, 1))
            raise Unsupported("pd.Timedelta of a symbolic value")
        return pd.Timedelta(*a, **k)

    def __getattr__(cls, n):
        return getattr(pd.Timedelta, n)


class Timedelta(metaclass=_TDMeta):
    pass


class PdFacade(types.ModuleType):
    def __getattr__(self, n):
        return getattr(pd, n)


def pd_facade():
    f = PdFacade("pandas")
    f.Timestamp = Timestamp
    f.Timedelta = Timedelta
    return f


class SymDate(SymOpaque):
    """datetime.date with a calendar order key"""

    pytype = datetime.date

    def __init__(self, y, m, d):
        p = core.ctx()
        p.trusted("datetime.date orders by (year, month, day) and rejects impossible dates")
        ok = z3.And(m >= 1, m <= 12, d >= 1, d <= 31)
        if not p.branch(ok):
            raise ValueError("day is out of range for month")
        self.key = y * 10000 + m * 100 + d

    @staticmethod
    def of(x):
        if isinstance(x, SymDate):
            return x.key
        return z3.IntVal(x.year * 10000 + x.month * 100 + x.day)

    def __lt__(self, o):
        return SymBool(self.key < SymDate.of(o))

    def __le__(self, o):
        return SymBool(self.key <= SymDate.of(o))

    def __gt__(self, o):
        return SymBool(self.key > SymDate.of(o))

    def __ge__(self, o):
        return SymBool(self.key >= SymDate.of(o))

    def __eq__(self, o):
        return SymBool(self.key == SymDate.of(o))

    __hash__ = None


class DayOf(SymOpaque):
    """the calendar day of a local instant"""

    pytype = datetime.date

    def __init__(self, local):
        self.day = local / 86400000000000

    def isoformat(self):
        p = core.ctx()
        p.trusted("date().isoformat() is an injective function of the calendar day, read back as its midnight")
        f, g = uf("day.iso", Z, S), uf("ts.uniso", S, Z)
        r = f(self.day)
        p.fact(g(r) == self.day * 86400000000000)
        return SymStr(r, pieces=("iso", self))

    def order_value(self):
        return self.day

    def __eq__(self, o):
        if isinstance(o, DayOf):
            return SymBool(self.day == o.day)
        return NotImplemented

    __hash__ = None

    def __deepcopy__(self, m):
        return self


def dt_facade():
    f = types.ModuleType("datetime")
    f.__dict__.update({n: getattr(datetime, n) for n in dir(datetime) if not n.startswith("__")})

    class _DM(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (datetime.date, SymDate))

        def __subclasscheck__(cls, t):
            return issubclass(t, datetime.date)

        def __call__(cls, *a, **k):
            if any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values()):
                y, m, d = (*a, *[k[n] for n in ("year", "month", "day")[len(a):]])
                return SymDate(num_z3(y), num_z3(m), num_z3(d))
            return datetime.date(*a, **k)

        def __getattr__(cls, n):
            return getattr(datetime.date, n)

    class date(metaclass=_DM):
        pass

    f.date = date
    return f
