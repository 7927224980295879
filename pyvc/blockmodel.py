"""Arrays with one symbolic leading dimension and concrete trailing ones, and
the part of xarray the transfer-function code relies on (selection, assignment
and re-ordering by coordinate label) as assumed contracts."""
import numpy as np
import z3

from . import core
from .core import SymArray, SymBool, SymNum, SymComplex, Unsupported, as_z3int, ite, num_z3
from .helpers import SymOpaque


def is_block(x):
    return isinstance(x, SymBlock)


def cells_of(shape, f):
    o = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        o[ix] = f(ix)
    return o


class Cells(np.ndarray):
    """a sub-array of symbolic cells that knows the element type it stands for"""

    def __array_finalize__(self, o):
        self._dt = getattr(o, "_dt", None)

    @property
    def dtype(self):
        return self._dt or np.dtype(object)


def typed_cells(o, dt):
    r = o.view(Cells)
    r._dt = np.dtype(dt)
    return r


class SymBlock(SymOpaque):
    """numpy array of shape (n, *tail): one SymArray of length n per trailing cell"""

    pytype = np.ndarray
    __array_ufunc__ = None
    __array_priority__ = 1e10

    def __init__(self, n, cells):
        self.n, self.cells = n, cells

    @classmethod
    def fresh(cls, p, name, n, tail, kind="complex"):
        from .npmodel import uf

        I, R = z3.IntSort(), z3.RealSort()

        def cell(ix):
            t = f"{name}{list(ix)}"
            if kind == "complex":
                a, b = uf(t + ".re", I, R), uf(t + ".im", I, R)
                return SymArray(n, lambda i: SymComplex(SymNum(a(i)), SymNum(b(i))))
            a = uf(t, I, R)
            return SymArray(n, lambda i: SymNum(a(i)))

        return cls(n, cells_of(tail, cell))

    # -- shape
    @property
    def shape(self):
        return (self.n,) + self.cells.shape

    @property
    def ndim(self):
        return 1 + self.cells.ndim

    @property
    def size(self):
        return self.n * int(np.prod(self.cells.shape))

    @property
    def dtype(self):
        return self.cells.flat[0].dtype

    def copy(self):
        return self.map_cells(lambda c: c.copy())

    def __deepcopy__(self, memo):
        return self.copy()

    def map_cells(self, f):
        return SymBlock(self.n, cells_of(self.cells.shape, lambda ix: f(self.cells[ix])))

    def map(self, g):
        return self.map_cells(lambda c: c.map(g))

    def astype(self, t, *a, **k):
        return self.map_cells(lambda c: c.astype(complex if t in (np.complex64, np.complex128, complex) else t))

    def at(self, i):
        """the sub-array at leading index i"""
        return cells_of(self.cells.shape, lambda ix: self.cells[ix].f(i))

    # -- selection
    def _split(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        k = list(k)
        if Ellipsis in [x for x in k if x is Ellipsis]:
            j = [i for i, x in enumerate(k) if x is Ellipsis][0]
            k[j:j + 1] = [slice(None)] * (self.ndim - len(k) + 1)
        if len(k) > self.ndim:
            raise IndexError("too many indices for array")
        rest = tuple(int(x.as_long()) if isinstance(x, z3.IntNumRef) else conc(x) for x in k[1:])
        return k[0], rest

    def __getitem__(self, k):
        head, rest = self._split(k)
        sub = self.cells[rest] if rest else self.cells
        if isinstance(head, slice) and head == slice(None):
            return SymBlock(self.n, cells_of(sub.shape, lambda ix: sub[ix].copy())) if isinstance(sub, np.ndarray) else sub.copy()
        if isinstance(head, slice):
            if isinstance(sub, np.ndarray):
                r = cells_of(sub.shape, lambda ix: sub[ix][head])
                return SymBlock(r.flat[0].n, r)
            return sub[head]
        if isinstance(head, (SymArray, np.ndarray, list)):
            raise Unsupported("mask over a block")
        i = self.cells.flat[0]._norm(head)
        return typed_cells(cells_of(sub.shape, lambda ix: sub[ix].f(i)), self.dtype) if isinstance(sub, np.ndarray) else sub.f(i)

    def __setitem__(self, k, v):
        head, rest = self._split(k)
        full = isinstance(head, slice) and head == slice(None)
        if isinstance(head, slice) and not full or isinstance(head, (SymArray, np.ndarray, list)):
            raise Unsupported("partial block assignment")
        probe = np.empty(self.cells.shape, dtype=object)
        for n, ix in enumerate(np.ndindex(*self.cells.shape)):
            probe[ix] = ix
        sel = probe[rest] if rest else probe
        targets = [sel] if isinstance(sel, tuple) else list(sel.flat)
        tshape = () if isinstance(sel, tuple) else sel.shape
        i = None if full else self.cells.flat[0]._norm(head)
        for q, ix in enumerate(targets):
            val = pick(v, np.unravel_index(q, tshape) if tshape else (), tshape, self.n, full)
            cur = self.cells[ix]
            if full:
                if isinstance(val, SymArray):
                    same_len(val.n, self.n)
                    self.cells[ix] = SymArray(self.n, val.f)
                else:
                    self.cells[ix] = SymArray(self.n, lambda i, val=val: val)
            else:
                f = cur.f
                self.cells[ix] = SymArray(self.n, lambda j, f=f, val=val, i=i: ite(SymBool(core.as_z3int(j) == i), val, f(j)))

    # -- arithmetic
    def _b(self, o, g):
        if isinstance(o, SymBlock):
            if o.cells.shape != self.cells.shape:
                raise Unsupported("broadcast of blocks")
            same_len(o.n, self.n)
            return SymBlock(self.n, cells_of(self.cells.shape, lambda ix: core.arr_map2(self.cells[ix], o.cells[ix], g)))
        if isinstance(o, SymArray):
            raise Unsupported("broadcast of a list over a block")
        if isinstance(o, np.ndarray):
            if o.ndim and o.shape != self.cells.shape[-o.ndim:]:
                raise Unsupported("broadcast of an array over a block")
            return SymBlock(self.n, cells_of(self.cells.shape, lambda ix: self.cells[ix].map(lambda x: g(x, o[ix[len(ix) - o.ndim:]]))))
        return self.map(lambda x: g(x, o))

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._b(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._b(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return self._b(o, core.np_div)

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: core.np_div(b, a))

    def __pow__(self, o):
        return self._b(o, core.power)

    def __neg__(self):
        return self.map(lambda a: -a)

    def __abs__(self):
        return self.map(abs)

    def __eq__(self, o):
        return self._b(o, core.eq)

    def __ne__(self, o):
        return self._b(o, lambda a, b: core.Not(core.eq(a, b)))

    def __gt__(self, o):
        return self._b(o, lambda a, b: a > b)

    def __lt__(self, o):
        return self._b(o, lambda a, b: a < b)

    def __ge__(self, o):
        return self._b(o, lambda a, b: a >= b)

    def __le__(self, o):
        return self._b(o, lambda a, b: a <= b)

    __hash__ = None

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    @property
    def real(self):
        return self.map_cells(lambda c: c.real)

    @property
    def imag(self):
        return self.map_cells(lambda c: c.imag)

    def conj(self):
        return self.map_cells(lambda c: c.conj())

    conjugate = conj

    def all(self):
        return block_all(self)

    def any(self):
        return block_any(self)

    def flatten(self):
        if self.cells.size == 1:
            return self.cells.flat[0].copy()
        raise Unsupported("flattening a block")

    ravel = flatten
    squeeze = lambda self, *a: self.flatten() if self.cells.size == 1 else self

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        head, tail = shape[0], tuple(int(conc(x)) for x in shape[1:])
        if int(np.prod(tail)) != self.cells.size:
            raise Unsupported("reshape across the symbolic dimension")
        if not (isinstance(head, int) and head == -1):
            same_len(head, self.n)
        flat = list(self.cells.flat)
        if not tail:
            return flat[0].copy()
        return SymBlock(self.n, cells_of(tail, lambda ix: flat[int(np.ravel_multi_index(ix, tail))].copy()))

    def __len__(self):
        raise Unsupported("native len() of a symbolic array")

    def __bool__(self):
        raise ValueError("The truth value of an array is ambiguous")

    def __repr__(self):
        return f"SymBlock{self.shape}"


def conc(x):
    if isinstance(x, SymNum):
        s = z3.simplify(x.e)
        if z3.is_int_value(s):
            return s.as_long()
        raise Unsupported("symbolic trailing index")
    return x


def same_len(a, b):
    a, b = as_z3int(a), as_z3int(b)
    if z3.is_true(z3.simplify(a == b)):
        return
    if not core.ctx().branch(a == b):
        raise ValueError("operands could not be broadcast together")


def pick(v, pos, tshape, n, full):
    """the part of v assigned to target cell `pos`"""
    if isinstance(v, SymBlock):
        if not full:
            raise Unsupported("block stored at one index")
        c = v.cells
        if c.shape != tshape:
            if c.shape == () or int(np.prod(c.shape)) == 1 and int(np.prod(tshape)) == 1:
                return c.flat[0]
            raise ValueError("could not broadcast input array")
        return c[pos]
    if isinstance(v, np.ndarray) and v.ndim:
        if full and v.ndim > len(tshape):
            raise Unsupported("concrete list stored in a block")
        if tshape == ():
            if v.size == 1:
                return v.flat[0]
            raise ValueError("setting an array element with a sequence")
        return np.broadcast_to(v, tshape)[pos]
    if isinstance(v, np.ndarray):
        return v.item()
    if isinstance(v, (list, tuple)):
        return pick(np.array(v, dtype=object), pos, tshape, n, full)
    return v


def matmul(a, b):
    if isinstance(a, SymBlock) and isinstance(b, SymBlock):
        same_len(a.n, b.n)
    n = a.n if isinstance(a, SymBlock) else b.n
    x = a.cells if isinstance(a, SymBlock) else np.asarray(a, dtype=object)
    y = b.cells if isinstance(b, SymBlock) else np.asarray(b, dtype=object)
    if x.ndim != 2 or y.ndim != 2 or x.shape[1] != y.shape[0]:
        raise ValueError("matmul: mismatch in core dimension")

    def cell(ix):
        r = None
        for k in range(x.shape[1]):
            u, w = x[ix[0], k], y[k, ix[1]]
            t = w.map(lambda e, u=u: u * e) if not isinstance(u, SymArray) and isinstance(w, SymArray) else u * w
            r = t if r is None else r + t
        return r if isinstance(r, SymArray) else SymArray(n, lambda i: r)

    return SymBlock(n, cells_of((x.shape[0], y.shape[1]), cell))


def block_all(x):
    from .helpers import b_all

    cells = list(x.cells.flat)
    return b_all(SymArray(x.n, lambda i: core.And([c.f(i) for c in cells])))


def block_any(x):
    from .helpers import b_any

    cells = list(x.cells.flat)
    return b_any(SymArray(x.n, lambda i: core.Or([c.f(i) for c in cells])))


# ------------------------------------------------------------------- xarray
class Coord(SymOpaque):
    def __init__(self, name, values):
        self.name, self.values = name, values

    @property
    def data(self):
        return self.values

    @property
    def size(self):
        return self.values.size if hasattr(self.values, "size") else len(self.values)

    def tolist(self):
        return self.values.tolist()

    def __len__(self):
        if isinstance(self.values, SymArray):
            raise Unsupported("native len()")
        return len(self.values)

    def __eq__(self, o):
        return self.values == (o.values if isinstance(o, Coord) else o)

    __hash__ = None

    @property
    def pytype(self):
        import xarray as xr

        return xr.DataArray


class Store:
    """the cells of one variable, shared by an array and its dataset"""

    def __init__(self, n, outs, ins, cell):
        self.n = n
        self.cell = {(o, i): cell(o, i) for o in outs for i in ins}


class SymDA(SymOpaque):
    """xarray.DataArray with dims (period, output, input)"""

    def __init__(self, period, outs, ins, store, name="da", ds=None):
        self.period_values, self.outs, self.ins, self.store, self.name = period, list(outs), list(ins), store, name
        self.attrs = {}
        self.ds = ds

    @property
    def pytype(self):
        import xarray as xr

        return xr.DataArray

    dims = ("period", "output", "input")

    @property
    def n(self):
        return self.store.n

    @property
    def period(self):
        return Coord("period", self.period_values)

    @property
    def output(self):
        return Coord("output", np.array(self.outs))

    @property
    def input(self):
        return Coord("input", np.array(self.ins))

    @property
    def coords(self):
        return {"period": self.period, "output": self.output, "input": self.input}

    @property
    def data(self):
        c = np.empty((len(self.outs), len(self.ins)), dtype=object)
        for a, o in enumerate(self.outs):
            for b, i in enumerate(self.ins):
                c[a, b] = self.store.cell[o, i].copy()
        return SymBlock(self.n, c)

    values = data

    def to_numpy(self):
        return self.data

    @property
    def shape(self):
        return (self.n, len(self.outs), len(self.ins))

    @property
    def loc(self):
        return Loc(self)

    def sel(self, **k):
        return Loc(self)[k]

    def reindex(self, output=None, input=None, **k):
        if k:
            raise Unsupported("reindex over periods")
        outs, ins = output or self.outs, input or self.ins
        if [o for o in outs if o not in self.outs] or [i for i in ins if i not in self.ins]:
            raise Unsupported("reindex with missing labels")
        return SymDA(self.period_values, outs, ins, self.store, self.name)

    def copy(self, *a, **k):
        s = Store(self.n, self.outs, self.ins, lambda o, i: self.store.cell[o, i].copy())
        return SymDA(self.period_values, self.outs, self.ins, s, self.name)


def labels(d, name, have):
    v = d.get(name)
    if v is None:
        return have, False
    if isinstance(v, (str, np.str_)):
        if v not in have:
            raise KeyError(v)
        return [str(v)], True
    if isinstance(v, slice):
        raise Unsupported("label slice")
    v = [str(x) for x in v]
    for x in v:
        if x not in have:
            raise KeyError(x)
    return v, False


class Loc:
    def __init__(self, da):
        self.da = da

    def _sel(self, k):
        if not isinstance(k, dict) or set(k) - {"input", "output"}:
            raise Unsupported("selection")
        return labels(k, "output", self.da.outs) + labels(k, "input", self.da.ins)

    def __getitem__(self, k):
        outs, so, ins, si = self._sel(k)
        d = self.da
        s = Store(d.n, outs, ins, lambda o, i: d.store.cell[o, i].copy())
        r = SymDA(d.period_values, outs, ins, s, d.name)
        if so and si:
            return Scalar(r)
        if so or si:
            raise Unsupported("one-label selection")
        return r

    def __setitem__(self, k, v):
        outs, so, ins, si = self._sel(k)
        d = self.da
        if isinstance(v, SymDA):
            # xarray aligns by label and refuses differing coordinates
            if v.outs != outs or v.ins != ins:
                raise ValueError("coordinate mismatch in assignment")
            v = v.data
        if isinstance(v, SymBlock):
            if v.cells.shape != (len(outs), len(ins)):
                raise ValueError("shape mismatch in assignment")
            same_len(v.n, d.n)
        elif isinstance(v, SymArray) or isinstance(v, np.ndarray) and v.ndim:
            raise Unsupported("assignment of an array of another kind")
        for a, o in enumerate(outs):
            for b, i in enumerate(ins):
                c = v.cells[a, b] if isinstance(v, SymBlock) else SymArray(d.n, lambda j: v)
                d.store.cell[o, i] = SymArray(d.n, c.f)


class Scalar(SymOpaque):
    """one (output, input) element for every period"""

    def __init__(self, da):
        self.da = da
        self.attrs = {}

    @property
    def pytype(self):
        import xarray as xr

        return xr.DataArray

    @property
    def data(self):
        return self.da.data.flatten()

    values = data


class SymDS(SymOpaque):
    """xarray.Dataset of (period, output, input) variables"""

    def __init__(self, period, outs, ins, vars_):
        object.__setattr__(self, "d", {})
        object.__setattr__(self, "attrs", {})
        object.__setattr__(self, "period_values", period)
        for nm, store in vars_.items():
            self.d[nm] = SymDA(period, outs, ins, store, nm, self)

    @property
    def pytype(self):
        import xarray as xr

        return xr.Dataset

    def __getattr__(self, k):
        d = object.__getattribute__(self, "d")
        if k in d:
            return d[k]
        raise AttributeError(k)

    def __getitem__(self, k):
        if k == "period":
            return self.period
        return self.d[k]

    @property
    def period(self):
        return Coord("period", self.period_values)

    def __setitem__(self, k, v):
        if k != "period":
            raise Unsupported("assigning a dataset variable")
        same_len(v.n, self.period_values.n)
        object.__setattr__(self, "period_values", v)
        for da in self.d.values():
            da.period_values = v
