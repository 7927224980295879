"""What a property module imports in prove mode."""
import z3
from . import core, helpers, npmodel
from .core import (And, Borrow, borrowed, Contract, Implies, Not, Or, PathEnd, SymArray, SymBool, SymComplex,
                   SymNum, SymObj, SymSeq, SymStr, Unsupported, as_z3bool, eq, ite, num_z3, power)
from .helpers import Collect, Filters, Fold, Inv, Search
from .npmodel import cos, exp, sin, sqrt, tanh, uf

R, I, S, B = z3.RealSort(), z3.IntSort(), z3.StringSort(), z3.BoolSort()


def rv(x):
    return SymNum(z3.RealVal(str(x)))


def put(obj, **kw):
    """Place symbolic field values in a real (pydantic) object."""
    priv = getattr(obj, "__pydantic_private__", None) or {}
    for k, v in kw.items():
        if k in priv:
            priv[k] = v
        else:
            obj.__dict__[k] = v
    return obj


def clamp01(x):
    return ite(x < 0, rv(0), ite(x > 1, rv(1), x))


def raises(p, fn, types=Exception):
    """Run fn; the exception raised or None (engine exceptions pass)."""
    try:
        fn()
    except types as e:
        return e
    return None
