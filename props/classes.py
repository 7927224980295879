"""Metadata classes and values for their attributes (run-time contracts)."""
import enum
import importlib
import pkgutil
import types
import typing
import warnings

SKIP = {"Experiment", "TaperWeightKernel"}


def all_classes(prefix=""):
    warnings.simplefilter("ignore")
    import mt_metadata
    from mt_metadata.base import MetadataBase

    for m in pkgutil.walk_packages(mt_metadata.__path__, "mt_metadata."):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    try:
        from loguru import logger

        logger.remove()
    except Exception:
        pass
    out = {}

    def walk(c):
        for s in c.__subclasses__():
            if s.__module__.startswith("mt_metadata.") and s.__name__ not in SKIP:
                n = s.__module__[len("mt_metadata."):] + ":" + s.__name__
                try:
                    s()
                    out[n] = s
                except Exception:
                    pass
            walk(s)

    walk(MetadataBase)
    return {k: v for k, v in out.items() if k.startswith(prefix)}


def kinds(a):
    o = typing.get_origin(a)
    if o in (typing.Union, types.UnionType):
        r = []
        for x in typing.get_args(a):
            r += kinds(x)
        return r
    if o is typing.Annotated:
        return kinds(typing.get_args(a)[0])
    return [a]


def leaves(c, pre="", d=0):
    from mt_metadata.common.mttime import MTime
    from pydantic import BaseModel

    for n, f in c.model_fields.items():
        a = kinds(f.annotation)
        sub = [x for x in a if isinstance(x, type) and issubclass(x, BaseModel) and not issubclass(x, MTime)]
        if sub:
            if d < 4:
                yield from leaves(sub[0], pre + n + ".", d + 1)
        else:
            yield pre + n, a


def dotted(c, n):
    return "." in n


TEXT = ["abc", "a b", "x & y <z>", "007", "1.5", "ünï", "A,B", "true", "w.x.y"]
TIMES = ["2020-01-02T03:04:05+00:00", "1999-12-31T23:59:59.500000+00:00", "2012-06-01T00:00:00+00:00"]
NUMS = [1.5, -2.25, 3.0, 1e-9, 45.123456789, 17, 123.456]


def value(a, rng, name=""):
    from mt_metadata.common.mttime import MTime

    for x in a:
        if isinstance(x, type) and issubclass(x, enum.Enum):
            return rng.choice(list(x)).value
        if typing.get_origin(x) is typing.Literal:
            return rng.choice(typing.get_args(x))
    if any(isinstance(x, type) and issubclass(x, MTime) for x in a):
        return rng.choice(TIMES)
    if str in a and float not in a:
        return rng.choice(TEXT)
    if float in a:
        return rng.choice(NUMS)
    if bool in a:
        return rng.choice([True, False])
    if int in a:
        return rng.choice([1, 7, 12])
    for x in a:
        if typing.get_origin(x) is list:
            t = typing.get_args(x)
            if t and t[0] is str:
                return rng.choice([["a"], ["a", "b"], ["ex", "hy", "hz"]])
            if t and t[0] is float:
                return rng.choice([[1.5], [1.5, 2.0]])
    return None


def leaf_values(cls, rng):
    out = {}
    for n, a in leaves(cls):
        v = value(a, rng, n)
        if v is not None:
            out[n] = v
    return out
