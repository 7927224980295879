"""Trusted model of pandas.Interval with symbolic ends."""
import pandas as pd
import z3

from . import core
from .core import And, Or, SymBool, as_z3bool


class _IMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (pd.Interval, SymInterval))

    def __subclasscheck__(cls, t):
        return issubclass(t, pd.Interval)

    def __call__(cls, left, right, closed="right"):
        from .helpers import has_sym

        if core.CTX is None or not (has_sym(left) or has_sym(right)):
            return pd.Interval(left, right, closed=closed)
        return SymInterval(left, right, closed)

    def __getattr__(cls, n):
        return getattr(pd.Interval, n)


class Interval(metaclass=_IMeta):
    pass


class SymInterval:
    def __init__(self, left, right, closed):
        core.ctx().trusted("pandas.Interval: closedness, overlap and containment as documented; left > right is a ValueError")
        if closed not in ("left", "right", "both", "neither"):
            raise ValueError(f"invalid option for 'closed': {closed}")
        if core.ctx().branch(as_z3bool(left > right)):
            raise ValueError("left side of interval must be <= right side")
        self.left, self.right, self.closed = left, right, closed
        self.closed_left = closed in ("left", "both")
        self.closed_right = closed in ("right", "both")
        self.open_left, self.open_right = not self.closed_left, not self.closed_right

    @property
    def length(self):
        return self.right - self.left

    @property
    def mid(self):
        return (self.left + self.right) / 2

    def __contains__(self, x):
        return bool(self.holds(x))

    def holds(self, x):
        if isinstance(x, (SymInterval, pd.Interval)):
            raise core.Unsupported("interval in interval")
        return And(self.left <= x if self.closed_left else self.left < x, x <= self.right if self.closed_right else x < self.right)

    def overlaps(self, o):
        a = self.left <= o.right if self.closed_left and o.closed_right else self.left < o.right
        b = o.left <= self.right if o.closed_left and self.closed_right else o.left < self.right
        return And(a, b)
