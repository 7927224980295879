"""Storage of transfer functions: blocks, errors, covariances, periods and merging."""

ASSUMPTIONS = [
    "xarray: selection by coordinate label returns the cells with those labels, assignment through .loc stores them, reindex orders by label, sortby/combine_by_coords keep every period (all exercised by the runtime contracts on real xarray)",
    "complex and real numbers are mathematical (no overflow, NaN or rounding)",
]
NOMS = [
    {"ex": "ex", "ey": "ey", "hx": "hx", "hy": "hy", "hz": "hz"},
    {"ex": "e1", "ey": "e2", "hx": "bx", "hy": "by", "hz": "bz"},
]
# what is stored where: variable, outputs, inputs
BLOCKS = {
    "transfer_function": ("transfer_function", ("ex", "ey", "hz"), ("hx", "hy"), "complex"),
    "transfer_function_error": ("transfer_function_error", ("ex", "ey", "hz"), ("hx", "hy"), "real"),
    "transfer_function_model_error": ("transfer_function_model_error", ("ex", "ey", "hz"), ("hx", "hy"), "real"),
    "impedance": ("transfer_function", ("ex", "ey"), ("hx", "hy"), "complex"),
    "impedance_error": ("transfer_function_error", ("ex", "ey"), ("hx", "hy"), "real"),
    "impedance_model_error": ("transfer_function_model_error", ("ex", "ey"), ("hx", "hy"), "real"),
    "tipper": ("transfer_function", ("hz",), ("hx", "hy"), "complex"),
    "tipper_error": ("transfer_function_error", ("hz",), ("hx", "hy"), "real"),
    "tipper_model_error": ("transfer_function_model_error", ("hz",), ("hx", "hy"), "real"),
    "inverse_signal_power": ("inverse_signal_power", ("hx", "hy"), ("hx", "hy"), "complex"),
    "residual_covariance": ("residual_covariance", ("ex", "ey", "hz"), ("ex", "ey", "hz"), "complex"),
}
VARS = {"transfer_function": "complex", "transfer_function_error": "real", "transfer_function_model_error": "real",
        "inverse_signal_power": "complex", "residual_covariance": "complex"}
TFF = "mt_metadata/transfer_functions/core.py:TF."


def contracts():
    from mt_metadata.transfer_functions.core import TF, TFError
    from pyvc.api import And, Contract, Implies, Not, Or, SymArray, SymBool, SymNum, eq, num_z3, raises, sqrt, z3
    from pyvc.blockmodel import Scalar, Store, SymBlock, SymDA, SymDS, cells_of

    out = []
    I, R = z3.IntSort(), z3.RealSort()

    def make(p, nom, multi=True, name="old"):
        """a real TF whose data set has any contents and any number of periods"""
        t = TF()
        t.channel_nomenclature = dict(nom)
        per = p.array(name + "_period")
        n = per.n
        p.assume(n >= (2 if multi else 1))
        chans = [nom[c] for c in ("ex", "ey", "hz", "hx", "hy")]
        stores, before = {}, {}
        for v, kind in VARS.items():
            b = SymBlock.fresh(p, f"{name}.{v}", n, (5, 5), kind)
            st = Store(n, chans, chans, lambda o, i, b=b: b.cells[chans.index(o), chans.index(i)])
            stores[v] = st
            before[v] = dict(st.cell)
        t._transfer_function = SymDS(per, chans, chans, stores)
        return t, per, before

    def cell(t, var, o, i):
        return t._transfer_function.d[var].store.cell[o, i]

    def frame(p, t, before, var=None, outs=(), ins=(), what="the other values are unchanged"):
        """every cell outside var[outs, ins] holds what it held (errors follow from covariances)"""
        derived = "transfer_function_error" if var in ("inverse_signal_power", "residual_covariance") else None
        j = p.index(t._transfer_function.period_values, "j")
        bad = []
        for v in VARS:
            for (o, i), old in before[v].items():
                if v == var and o in outs and i in ins or v == derived:
                    continue
                new = cell(t, v, o, i)
                if new is old or new.f is old.f:
                    continue
                bad.append(eq(new.at(j), old.at(j)))
        p.check(what, And(bad) if bad else SymBool(z3.BoolVal(True)))

    def idx(p, per):
        i = p.index(per)
        p.ufapps.setdefault("indices", []).append(i)
        return i

    def underived(t):
        """errors derived from covariances have their own contract"""
        t._compute_error_from_covariance = lambda: None

    def rp(attr, nom, kind):
        return lambda m: {"attr": attr, "nom": nom, "kind": kind, "n": 3}

    # ------------------------------------------------------------- setters
    def mk_set(attr, ni):
        nom = NOMS[ni]
        var, outs, ins, kind = BLOCKS[attr]
        outs, ins = [nom[c] for c in outs], [nom[c] for c in ins]

        def h(p):
            p.inputs["attr"], p.inputs["nom"] = attr, ni
            t, per, before = make(p, nom)
            underived(t)
            val = SymBlock.fresh(p, "new", per.n, (len(outs), len(ins)), kind)
            kept = val.copy()
            setattr(t, attr, val)
            i = p.index(per)
            for a, o in enumerate(outs):
                for b, c in enumerate(ins):
                    p.check(f"{o}/{c} holds the given value", eq(cell(t, var, o, c).at(i), kept.cells[a, b].at(i)))
            frame(p, t, before, var, outs, ins)
            p.check("periods are unchanged", t._transfer_function.period_values is per)
            # the value is copied: a later change of the argument is not seen
            val[:, 0, 0] = SymArray(per.n, lambda q: val.cells[0, 0].f(q) * 0 + 12345)
            p.check("the given array is copied", eq(cell(t, var, outs[0], ins[0]).at(i), kept.cells[0, 0].at(i)))
            # setting nothing changes nothing
            t2, per2, before2 = make(p, nom)
            underived(t2)
            setattr(t2, attr, None)
            frame(p, t2, before2, what="None changes nothing")

        return h

    def mk_shape(attr, ni):
        nom = NOMS[ni]
        var, outs, ins, kind = BLOCKS[attr]

        def h(p):
            t, per, before = make(p, nom)
            underived(t)
            m = p.int("other_n")
            p.assume(m >= 1)
            p.assume(Not(m == per.n))
            e = raises(p, lambda: setattr(t, attr, SymBlock.fresh(p, "w", m, (len(outs), len(ins)), kind)), TFError)
            p.check("another number of periods is refused", e is not None)
            for tail in [(len(outs) + 1, len(ins)), (len(outs), len(ins) + 1), (1, 1)] + ([(len(ins), len(outs))] if len(outs) != len(ins) else []):
                e = raises(p, lambda: setattr(t, attr, SymBlock.fresh(p, "w", per.n, tail, kind)), TFError)
                p.check(f"shape {tail} is refused", e is not None)
            for v in (3, "text", {"a": 1}):
                e = raises(p, lambda: setattr(t, attr, v), TFError)
                p.check("another type is refused", e is not None)
            frame(p, t, before, what="a refused value changes nothing")

        return h

    def mk_da(attr, ni):
        nom = NOMS[ni]
        var, outs, ins, kind = BLOCKS[attr]
        outs, ins = [nom[c] for c in outs], [nom[c] for c in ins]

        def h(p):
            t, per, before = make(p, nom)
            underived(t)
            blk = SymBlock.fresh(p, "new", per.n, (len(outs), len(ins)), kind)
            src = {(o, c): blk.cells[a, b] for a, o in enumerate(outs) for b, c in enumerate(ins)}
            # any order of the labels
            ro, ri = list(reversed(outs)), list(reversed(ins))
            da = SymDA(per, ro, ri, Store(per.n, outs, ins, lambda o, c: src[o, c]))
            setattr(t, attr, da)
            i = p.index(per)
            for o in outs:
                for c in ins:
                    p.check(f"{o}/{c} holds the value labelled so", eq(cell(t, var, o, c).at(i), src[o, c].at(i)))
            frame(p, t, before, var, outs, ins)
            t, per, before = make(p, nom)
            underived(t)
            bad = [(["q"] + ro[1:], ri), (ro, ["q"] + ri[1:]), (ro[1:], ri), (ro, ri[1:]), (ro + ["q"], ri)]
            if set(ro) != set(ri):
                bad.append((ri, ro))
            for bo, bi in bad:
                blk = SymBlock.fresh(p, "w", per.n, (1, 1), kind)
                da = SymDA(per, bo, bi, Store(per.n, bo, bi, lambda o, c: blk.cells[0, 0]))
                e = raises(p, lambda: setattr(t, attr, da), TFError)
                p.check(f"labels {bo} by {bi} are refused", e is not None)
            m = p.array("longer_period")
            p.assume(And(m.n >= 2, Not(m.n == per.n)))
            blk = SymBlock.fresh(p, "w", m.n, (1, 1), kind)
            da = SymDA(m, ro, ri, Store(m.n, ro, ri, lambda o, c: blk.cells[0, 0]))
            e = raises(p, lambda: setattr(t, attr, da), TFError)
            p.check("another number of periods is refused", e is not None)
            frame(p, t, before, what="a refused value changes nothing")

        return h

    HAS = {"transfer_function": "transfer_function", "impedance": "impedance", "tipper": "tipper",
           "inverse_signal_power": "inverse_signal_power", "residual_covariance": "residual_covariance"}

    def mk_get(attr, ni):
        nom = NOMS[ni]
        var, outs, ins, kind = BLOCKS[attr]
        outs, ins = [nom[c] for c in outs], [nom[c] for c in ins]
        base = attr.replace("_model_error", "").replace("_error", "")
        bvar = BLOCKS[base][0]
        bo, bi = [nom[c] for c in BLOCKS[base][1]], [nom[c] for c in BLOCKS[base][2]]

        def h(p):
            t, per, before = make(p, nom)
            i = idx(p, per)
            got = getattr(t, attr)
            cells = [before[bvar][o, c] for o in bo for c in bi]
            if got is None:
                p.cover("absent")
                p.check("absent only when every value is zero", And([eq(c.at(i), 0) for c in cells]))
                return
            p.cover("present")
            p.check("labels of the block", [sorted(got.outs), sorted(got.ins)] == [sorted(outs), sorted(ins)])
            p.check("periods of the block", got.period_values is per)
            for o in outs:
                for c in ins:
                    p.check(f"{o}/{c} is the stored value", eq(got.store.cell[o, c].at(i), before[var][o, c].at(i)))
            frame(p, t, before)

        def h2(p):
            t, per, before = make(p, nom)
            i = idx(p, per)
            has = getattr(t, "has_" + base)()
            cells = [before[bvar][o, c] for o in bo for c in bi]
            p.check("reported when a value differs from zero", Implies(Or([Not(eq(c.at(i), 0)) for c in cells]), has))
            t2, per2, before2 = make(p, nom, name="zero")
            for o in bo:
                for c in bi:
                    f = before2[bvar][o, c]
                    t2._transfer_function.d[bvar].store.cell[o, c] = SymArray(per2.n, lambda q, f=f: f.f(q) * 0)
            p.check("not reported when they are all zero", Not(getattr(t2, "has_" + base)()))
            frame(p, t, before)

        return h, (h2 if attr == base else None)

    for attr in BLOCKS:
        for ni in (0, 1):
            tag = f"{attr}{' (other names)' if ni else ''}"
            out.append(Contract(f"setting {tag}", [TFF + attr, TFF + "_set_data_array", TFF + "_validate_input_ndarray"], mk_set(attr, ni),
                                replay=("block", rp(attr, ni, "array"))))
            out.append(Contract(f"setting {tag} by label", [TFF + attr, TFF + "_set_data_array", TFF + "_validate_input_dataarray"], mk_da(attr, ni),
                                replay=("block", rp(attr, ni, "labels"))))
            g, g2 = mk_get(attr, ni)
            out.append(Contract(f"reading {tag}", [TFF + attr], g, replay=("block", rp(attr, ni, "read"))))
            if g2:
                out.append(Contract(f"presence of {tag}", [TFF + "has_" + attr], g2, replay=("block", rp(attr, ni, "has"))))
        out.append(Contract(f"refusing other shapes for {attr}", [TFF + attr, TFF + "_set_data_array", TFF + "_validate_input_ndarray"], mk_shape(attr, 0),
                            replay=("block", rp(attr, 0, "shape"))))

    # ---------------------------------------------- errors from covariance
    def mk_cov(first, ni):
        nom = NOMS[ni]

        def h(p):
            p.inputs["nom"] = ni
            t, per, before = make(p, nom)
            for v in ("inverse_signal_power", "residual_covariance"):
                for k, c in list(before[v].items()):
                    t._transfer_function.d[v].store.cell[k] = before[v][k] = SymArray(per.n, lambda q, c=c: c.f(q) * 0)
            res = SymBlock.fresh(p, "res", per.n, (3, 3), "complex")
            isp = SymBlock.fresh(p, "isp", per.n, (2, 2), "complex")
            i = idx(p, per)
            vals = {"residual_covariance": res, "inverse_signal_power": isp}
            second = [k for k in vals if k != first][0]
            setattr(t, first, vals[first])
            for k, b in before["transfer_function_error"].items():
                new = cell(t, "transfer_function_error", *k)
                p.check("one of the two alone changes no error", new.f is b.f or eq(new.at(i), b.at(i)))
            for what in (res, isp):
                k = idx(p, per)
                p.assume(Not(And([eq(c.at(k), 0) for c in what.cells.flat])))
            setattr(t, second, vals[second])
            E, H = ("ex", "ey", "hz"), ("hx", "hy")
            for a, o in enumerate(E):
                for b, c in enumerate(H):
                    want = sqrt(abs(res.cells[a, a].at(i) * isp.cells[b, b].at(i)))
                    p.check(f"error {o}/{c} is sqrt |res {o}{o} isp {c}{c}|", eq(cell(t, "transfer_function_error", nom[o], nom[c]).at(i), want))
            for k, b in before["transfer_function_error"].items():
                if k[0] not in [nom[x] for x in E] or k[1] not in [nom[x] for x in H]:
                    p.check("other errors are unchanged", eq(cell(t, "transfer_function_error", *k).at(i), b.at(i)))
            for v in ("transfer_function", "transfer_function_model_error"):
                for k, b in before[v].items():
                    new = cell(t, v, *k)
                    p.check("the transfer function is unchanged", new.f is b.f or eq(new.at(i), b.at(i)))

        return h

    for first in ("residual_covariance", "inverse_signal_power"):
        for ni in (0, 1):
            out.append(Contract(f"errors from covariances, {first} first{' (other names)' if ni else ''}",
                                [TFF + "residual_covariance", TFF + "inverse_signal_power", TFF + "_compute_error_from_covariance",
                                 TFF + "_compute_impedance_error_from_covariance", TFF + "_compute_tipper_error_from_covariance"], mk_cov(first, ni),
                                replay=("covariance", lambda m, first=first, ni=ni: {"nom": ni, "first": first, "n": 3})))

    # ------------------------------------------------------------- periods
    def h_period(p):
        t, per, before = make(p, NOMS[0])
        i = idx(p, per)
        had = t._transfer_function
        new = p.array("new_period", n=per.n)
        t.period = new
        p.check("the periods are the given ones", eq(t.period.at(i), new.at(i)))
        p.check("as many as before", eq(t.period.n, per.n))
        p.check("the data are kept", t._transfer_function is had)
        frame(p, t, before)
        other = p.array("wrong_period")
        p.assume(And(other.n >= 1, Not(other.n == per.n)))
        had = t._transfer_function.period_values
        e = raises(p, lambda: setattr(t, "period", other), TFError)
        p.check("another number of periods is refused", e is not None)
        p.check("a refused change keeps the periods", t._transfer_function.period_values is had)
        frame(p, t, before, what="a refused change keeps the data")

    out.append(Contract("changing the periods", [TFF + "period"], h_period, replay=("period", lambda m: {"n": 3})))

    def h_freq(p):
        t, per, before = make(p, NOMS[0])
        i = idx(p, per)
        p.assume(Not(per.at(i) == 0))
        p.check("frequency is the reciprocal of the period", eq(t.frequency.at(i) * per.at(i), 1))
        got = []
        saved = TF.period
        try:
            TF.period = property(lambda self: per, lambda self, v: got.append(v))
            f = p.array("f", n=per.n)
            p.assume(f.at(i) > 0)
            t.frequency = f
            p.check("the period is set once", len(got) == 1)
            p.check("to the reciprocal of the frequency", eq(got[0].at(i) * f.at(i), 1))
            t.frequency = None
            p.check("None changes nothing", len(got) == 1)
        finally:
            TF.period = saved

    out.append(Contract("periods and frequencies", [TFF + "frequency"], h_freq, replay=("period", lambda m: {"n": 3})))
    return out


def runtime(reg):
    import numpy as np
    import xarray as xr
    from loguru import logger
    from mt_metadata.transfer_functions.core import TF, TFError
    from pyvc.rt import Skip, require

    logger.remove()
    ALL = ("ex", "ey", "hz", "hx", "hy")

    def near(a, b):
        return a.shape == b.shape and bool((np.abs(a - b) <= 1e-12 + 1e-9 * np.abs(b)).all())

    class Model:
        """what a TF with these names should hold"""

        def __init__(self, nom, period):
            self.nom, self.period = nom, list(period)
            self.v = {v: {(o, i): np.zeros(len(period), complex) for o in ALL for i in ALL} for v in VARS}

        def put(self, attr, arr):
            var, outs, ins, _ = BLOCKS[attr]
            for a, o in enumerate(outs):
                for b, c in enumerate(ins):
                    self.v[var][o, c] = np.array(arr[:, a, b], complex)
            if attr in ("inverse_signal_power", "residual_covariance") and self.has("inverse_signal_power") and self.has("residual_covariance"):
                for o in ("ex", "ey", "hz"):
                    for c in ("hx", "hy"):
                        self.v["transfer_function_error"][o, c] = np.sqrt(np.abs(self.v["residual_covariance"][o, o] * self.v["inverse_signal_power"][c, c])) + 0j

        def get(self, attr):
            var, outs, ins, _ = BLOCKS[attr]
            return np.stack([np.stack([self.v[var][o, c] for c in ins], -1) for o in outs], -2)

        def base(self, attr):
            return attr.replace("_model_error", "").replace("_error", "")

        def has(self, base):
            return bool((self.get(base) != 0).any())

        def compare(self, tf, at_, blocks=BLOCKS):
            ds = tf.dataset
            per = np.asarray(ds.period.data, float)
            if not (per.shape == (len(self.period),) and np.allclose(per, self.period, rtol=1e-12)):
                require(False, f"{at_}: periods {per} instead of {self.period}")
            if blocks:
                if not ((np.asarray(tf.period) == per).all() and np.allclose(np.asarray(tf.frequency, float) * per, 1)):
                    require(False, f"{at_}: periods {tf.period}, frequencies {tf.frequency}")
            for b in ("transfer_function", "impedance", "tipper", "inverse_signal_power", "residual_covariance"):
                if not (bool(getattr(tf, "has_" + b)()) == self.has(b)):
                    require(False, f"{at_}: has_{b} is {getattr(tf, 'has_' + b)()}")
            for attr in blocks:
                var, outs, ins, kind = BLOCKS[attr]
                got = getattr(tf, attr)
                if not self.has(self.base(attr)):
                    if not (got is None):
                        require(False, f"{at_}: {attr} is present although nothing was set")
                    continue
                if not (got is not None):
                    require(False, f"{at_}: {attr} is absent")
                require(sorted(got.coords["output"].data.tolist()) == sorted(self.nom[c] for c in outs)
                        and sorted(got.coords["input"].data.tolist()) == sorted(self.nom[c] for c in ins), f"{at_}: labels of {attr}: {got.coords}")
                arr, lo, li = got.data, got.coords["output"].data.tolist(), got.coords["input"].data.tolist()
                if not (got.dims == ("period", "output", "input") and np.allclose(got.period.data, per, rtol=1e-12)):
                    require(False, f"{at_}: {attr} has dimensions {got.dims}, periods {got.period.data}")
                for o in outs:
                    for c in ins:
                        x = arr[:, lo.index(self.nom[o]), li.index(self.nom[c])]
                        if not (near(x, self.v[var][o, c])):
                            require(False, f"{at_}: {attr} {o}/{c} is {x} instead of {self.v[var][o, c]}")
            for var in VARS:
                arr, lo, li = ds[var].data, ds[var].coords["output"].data.tolist(), ds[var].coords["input"].data.tolist()
                for (o, c), want in self.v[var].items():
                    x = arr[:, lo.index(self.nom[o]), li.index(self.nom[c])]
                    if not (near(x, want)):
                        require(False, f"{at_}: the data set holds {x} for {var} {o}/{c} instead of {want}")

    def periods(rng, n):
        out = sorted(rng.sample([round(10 ** (k / 7), 6) for k in range(-20, 28)], n))
        if rng.random() < 0.4:
            out.reverse()
        if rng.random() < 0.2:
            rng.shuffle(out)
        return out

    def values(seed, n, shape, kind, zero):
        g = np.random.default_rng(seed)
        if kind == "complex":
            a = g.normal(size=(n,) + shape) + 1j * g.normal(size=(n,) + shape)
            if zero == "imag":
                a = 1j * a.imag
        else:
            a = np.abs(g.normal(size=(n,) + shape)) + 0.01
        a = a * (1.0, 1.0, 1e-9, 1.0, 1e9, 1e20, 1e-20)[seed % 7]
        if zero == "all":
            a = a * 0
        if zero == "most":
            m = np.zeros(a.shape, bool)
            m.flat[int(g.integers(a.size))] = True
            a = np.where(m, a, 0)
        return a

    def build(nom, per, how=0):
        if nom == NOMS[0] and how % 2 == 0:
            tf = TF()
            tf.period = np.array(per)
        elif how % 3 == 0:
            tf = TF(frequency=1.0 / np.array(per), channel_nomenclature=dict(nom))
        else:
            tf = TF(period=np.array(per), channel_nomenclature=dict(nom))
        return tf

    def apply(tf, m, op):
        """set a block on the real object and in the model"""
        attr = op["attr"]
        var, outs, ins, kind = BLOCKS[attr]
        n = len(m.period)
        if op["form"] == "none":
            setattr(tf, attr, None)
            return
        if op["form"] == "bad":
            shape = {0: (n + 1, len(outs), len(ins)), 1: (n, len(outs) + 1, len(ins)), 2: (n, len(outs), len(ins) + 1), 3: (n, len(ins) + 2)}[op["seed"] % 4]
            try:
                setattr(tf, attr, np.ones(shape))
            except TFError:
                return
            require(False, f"{attr} accepts the shape {shape} for {n} periods")
        a = values(op["seed"], n, (len(outs), len(ins)), kind, op["zero"])
        if op["form"] == "labels" and n > 1:
            so, si = list(range(len(outs))), list(range(len(ins)))
            g = np.random.default_rng(op["seed"])
            g.shuffle(so), g.shuffle(si)
            setattr(tf, attr, xr.DataArray(a[:, so][:, :, si], dims=["period", "output", "input"], coords={
                "period": np.array(tf.period), "output": [m.nom[outs[k]] for k in so], "input": [m.nom[ins[k]] for k in si]}))
        elif op["form"] == "badlabels" and n > 1:
            lo = [m.nom[o] for o in outs]
            lo[op["seed"] % len(lo)] = "zz"
            try:
                setattr(tf, attr, xr.DataArray(a, dims=["period", "output", "input"], coords={"period": np.array(tf.period), "output": lo, "input": [m.nom[c] for c in ins]}))
            except TFError:
                return
            require(False, f"{attr} accepts the labels {lo}")
        else:
            v = a.tolist() if op["form"] == "list" else a.copy()
            setattr(tf, attr, v)
            if isinstance(v, np.ndarray):
                v += 7
        m.put(attr, a)

    def gen_hist(rng, tier):
        n_cases = 60 if tier == "quick" else 1500
        for _ in range(n_cases):
            n = rng.choice([1, 2, 2, 3, 5])
            ops = []
            for _ in range(rng.randint(2, 7)):
                ops.append({"attr": rng.choice(list(BLOCKS)), "form": rng.choice(["array", "array", "array", "list", "labels", "labels", "badlabels", "bad", "none", "period", "copy"]),
                            "seed": rng.randrange(10**6), "zero": rng.choice(["", "", "", "all", "most", "imag"])})
            yield {"nom": rng.choice([0, 0, 1, 2]), "period": periods(rng, n), "ops": ops, "how": rng.randrange(6)}

    PERM = {"ex": "hy", "ey": "hx", "hx": "ey", "hy": "ex", "hz": "b"}

    @reg.rt("history of settings", gen_hist, ["TF.__init__", "TF._initialize_transfer_function", "TF._set_data_array", "TF.period", "TF.copy", "TF.dataset"],
            "60 random histories of up to 7 assignments, up to 5 periods")
    def history(nom, period, ops, how):
        nom = (NOMS + [PERM])[nom]
        tf = build(nom, period, how)
        m = Model(nom, period)
        m.compare(tf, "after creation", ())
        inv = tf.inverse_channel_nomenclature
        require(inv == {v: k for k, v in nom.items()}, f"inverse names {inv}")
        for k, op in enumerate(ops):
            at_ = f"after step {k} ({op})"
            if op["form"] == "period":
                new = [x * 1.5 for x in m.period] if op["seed"] % 4 else m.period[1:] + m.period[:1]
                if len(new) == 1 and m.period == [1.0]:
                    continue
                if op["seed"] % 3 == 0:
                    try:
                        tf.period = np.array(new + [1e6])
                    except TFError:
                        pass
                    else:
                        require(False, f"{at_}: another number of periods is accepted")
                elif op["seed"] % 3 == 1:
                    tf.period = np.array(new)
                    m.period = new
                else:
                    tf.frequency = 1.0 / np.array(new)
                    m.period = new
            elif op["form"] == "copy":
                c = tf.copy()
                require(c == tf and tf == c and not (c != tf), f"{at_}: a copy differs")
                if tf.has_transfer_function():
                    z = np.array(c._transfer_function.transfer_function.data)
                    c._transfer_function.transfer_function.data[...] = z + 1
                    require(not (c == tf) and c != tf, f"{at_}: differing values compare equal")
                c.latitude, c.station = 11.0, "elsewhere"
                c.period = np.array(m.period) * 3
                require(tf.latitude != 11.0 and tf.station != "elsewhere", f"{at_}: changing a copy changes the original")
            else:
                apply(tf, m, op)
            m.compare(tf, at_, (op["attr"],))
        m.compare(tf, "at the end")

    def gen_block(rng, tier):
        for attr in BLOCKS:
            for nom in (0, 1, 2):
                for kind in ("array", "labels", "has", "shape"):
                    yield {"attr": attr, "nom": nom, "kind": kind, "n": rng.choice([2, 3, 4])}

    @reg.rt("block", gen_block, ["TF setters and getters"], "every block, 3 namings, 4 forms")
    def block(attr, nom, kind, n):
        nom = (NOMS + [PERM])[nom]
        per = [0.5 * 3**k for k in range(n)]
        tf, m = build(nom, per, 1), Model(nom, per)
        base = m.base(attr)
        for q, x in enumerate(dict.fromkeys(["impedance", "tipper", base])):
            apply(tf, m, {"attr": x, "form": "array", "seed": q, "zero": ""})
        if kind == "shape":
            for s in range(4):
                apply(tf, m, {"attr": attr, "form": "bad", "seed": s, "zero": ""})
            apply(tf, m, {"attr": attr, "form": "badlabels", "seed": 1, "zero": ""})
        else:
            for s, z in ((5, ""), (6, "most"), (7, "imag"), (8, "all"), (9, "")):
                apply(tf, m, {"attr": attr, "form": "labels" if kind == "labels" else "array", "seed": s, "zero": z})
                m.compare(tf, f"after setting {attr} ({kind}, {z})", (attr,))
        m.compare(tf, f"after setting {attr} ({kind})")

    def gen_cov(rng, tier):
        for k in range(20 if tier == "quick" else 300):
            yield {"nom": rng.choice([0, 1, 2]), "first": rng.choice(["residual_covariance", "inverse_signal_power"]), "n": rng.choice([1, 2, 3, 7]), "seed": rng.randrange(10**6)}

    @reg.rt("covariance", gen_cov, ["TF.residual_covariance", "TF.inverse_signal_power", "TF._compute_error_from_covariance"], "20 random covariances")
    def covariance(inp):
        nom = (NOMS + [PERM])[inp["nom"]]
        per = [0.5 * 3**k for k in range(inp["n"])]
        tf, m = build(nom, per, 1), Model(nom, per)
        seed = inp.get("seed", 3)
        second = [k for k in ("residual_covariance", "inverse_signal_power") if k != inp["first"]][0]
        for q, a in enumerate(["transfer_function", inp["first"], second]):
            apply(tf, m, {"attr": a, "form": "array", "seed": seed + q, "zero": ""})
            m.compare(tf, f"after setting {a}", (a,))
        e = tf.transfer_function_error
        for o in ("ex", "ey", "hz"):
            for c in ("hx", "hy"):
                want = np.sqrt(np.abs(m.v["residual_covariance"][o, o] * m.v["inverse_signal_power"][c, c]))
                require(np.allclose(e.loc[dict(output=nom[o], input=nom[c])].data, want, rtol=1e-7, atol=0), f"error {o}/{c}")

    def gen_period(rng, tier):
        for n in (1, 2, 3, 6):
            for how in range(3):
                yield {"n": n, "how": how}

    @reg.rt("period", gen_period, ["TF.period", "TF.frequency"], "12 sizes and ways")
    def period(inp):
        n, how = inp["n"], inp.get("how", 1)
        per = [3.0 + k for k in range(n)]
        tf, m = build(NOMS[0], per, how), Model(NOMS[0], per)
        apply(tf, m, {"attr": "transfer_function", "form": "array", "seed": 4, "zero": ""})
        tf.period = np.array(per) * 2
        m.period = [x * 2 for x in per]
        m.compare(tf, "after changing the periods")
        tf.frequency = 1.0 / np.array(per)
        m.period = per
        m.compare(tf, "after changing the frequencies")
        for new in (per[::-1], per[1:] + per[:1], [per[0] / 2] + per[1:], per[:-1] + [per[0]], per):
            if len(set(new)) < n:
                continue
            tf.period = np.array(new)
            m.period = new
            m.compare(tf, "after reordering the periods")
        for v in (per + [99.0], per[:-1] or [1.0, 2.0]):
            try:
                tf.period = np.array(v)
            except TFError:
                m.compare(tf, "after refusing periods")
            else:
                require(False, f"{len(v)} periods accepted for {n}")

    # --------------------------------------------------------------- merge
    def gen_merge(rng, tier):
        for _ in range(40 if tier == "quick" else 600):
            grid = [round(10 ** (k / 5), 6) for k in range(-12, 18)]
            rng.shuffle(grid)
            parts, k = [], rng.randint(2, 3)
            cut = sorted(rng.sample(range(3, 27), k - 1))
            use_ranges = rng.random() < 0.6
            grid_sorted = sorted(grid)
            for q in range(k):
                lo, hi = ([0] + cut)[q], (cut + [30])[q]
                if use_ranges:
                    own = sorted(rng.sample(grid_sorted[lo:hi], rng.randint(1, min(3, hi - lo))))
                    extra = rng.sample(grid_sorted, rng.randint(0, 4))
                    pp = sorted(set(own) | set(extra))
                    a, b = grid_sorted[lo], grid_sorted[hi - 1]
                    part = {"period": pp, "min": None if q == 0 and rng.random() < 0.5 else a, "max": None if q == k - 1 and rng.random() < 0.5 else b}
                else:
                    pp = sorted(rng.sample(grid_sorted[lo:hi], rng.randint(1, min(4, hi - lo))))
                    part = {"period": pp, "min": None, "max": None}
                o = rng.random()
                if o < 0.35:
                    part["period"] = part["period"][::-1]
                elif o < 0.5:
                    rng.shuffle(part["period"])
                parts.append(part)
            rng.shuffle(parts)
            yield {"parts": parts, "ranges": use_ranges, "inplace": rng.random() < 0.4, "nom": rng.choice([0, 1]), "seed": rng.randrange(10**6)}

    @reg.rt("merge", gen_merge, ["TF.merge"], "40 random merges of two or three transfer functions")
    def merge(parts, ranges, inplace, nom, seed):
        nom = NOMS[nom]
        tfs, want = [], {}
        for q, part in enumerate(parts):
            tf, m = build(nom, part["period"], 1), Model(nom, part["period"])
            for r, a in enumerate(["transfer_function", "transfer_function_error", "residual_covariance", "inverse_signal_power"]):
                apply(tf, m, {"attr": a, "form": "array", "seed": seed + 10 * q + r, "zero": ""})
            tf.station = f"s{q}"
            tfs.append((tf, m))
            for k, x in enumerate(m.period):
                if (part["min"] is None or x >= part["min"]) and (part["max"] is None or x <= part["max"]):
                    if x in want:
                        raise Skip("a period is chosen twice")
                    want[x] = {v: {c: a[k] for c, a in m.v[v].items()} for v in VARS}
        if not all(any((p["min"] is None or x >= p["min"]) and (p["max"] is None or x <= p["max"]) for x in p["period"]) for p in parts):
            raise Skip("an empty range")
        if ranges:
            other = [{"tf": t, "period_min": p["min"], "period_max": p["max"]} for (t, _), p in list(zip(tfs, parts))[1:]]
        else:
            other = [t for t, _ in tfs[1:]]
        if len(other) == 1 and seed % 2:
            other = other[0]
        first = tfs[0][0]
        got = first.merge(other, period_min=parts[0]["min"], period_max=parts[0]["max"], inplace=inplace)
        if inplace:
            require(got is None, "merging in place returns something")
            got = first
        for q, (t, m) in enumerate(tfs):
            if not (inplace and q == 0):
                m.compare(t, f"input {q} after merging")
        require(got.station == "s0", f"the station is {got.station}")
        require(got.station_metadata == first.station_metadata, "the metadata are not those of the first")
        ps = [float(x) for x in got.period]
        require(ps == sorted(ps) and len(ps) == len(want) and np.allclose(ps, sorted(want), rtol=1e-12), f"merged periods {ps} instead of {sorted(want)}")
        mm = Model(nom, ps)
        for k, x in enumerate(sorted(want)):
            for v in VARS:
                for c in mm.v[v]:
                    mm.v[v][c][k] = want[x][v][c]
        mm.compare(got, "merged")
        if not inplace:
            got._transfer_function.transfer_function.data[...] = 0
            tfs[0][1].compare(first, "after changing the result")

    # ----------------------------------------------------------- accessors
    def gen_acc(rng, tier):
        for _ in range(25 if tier == "quick" else 300):
            yield {"lat": round(rng.uniform(-90, 90), 5), "lon": round(rng.uniform(-179.9, 179.9), 5), "elev": round(rng.uniform(-100, 4000), 2),
                   "station": rng.choice(["mt01", "my site 7", "A_1", " x"]), "survey": rng.choice(["big survey", "s1", None]), "tf": rng.choice(["one two", "tf_9"]),
                   "ctor": rng.random() < 0.5}

    @reg.rt("accessors", gen_acc, ["TF.station", "TF.survey", "TF.tf_id", "TF.latitude", "TF.longitude", "TF.elevation", "TF.dataset"], "25 random settings")
    def accessors(lat, lon, elev, station, survey, tf, ctor):
        kw = dict(latitude=lat, longitude=lon, elevation=elev, station=station, survey=survey, tf_id=tf)
        if ctor:
            z = values(1, 2, (2, 2), "complex", "")
            t = TF(period=np.array([1.0, 2.0]), impedance=z, **kw)
            require(np.allclose(t.impedance.data, z), "the impedance given on creation is not stored")
        else:
            t = TF()
            for k, v in kw.items():
                setattr(t, k, v)
        require((t.latitude, t.longitude, t.elevation) == (lat, lon, elev), f"position {t.latitude}, {t.longitude}, {t.elevation}")
        require(t.station == station.replace(" ", "_") and t.station_metadata.id == t.station and t.survey_metadata.stations[0].id == t.station, f"station {t.station!r}")
        require(t.survey == (survey or "unkown_survey").replace(" ", "_") and t.survey_metadata.id == t.survey, f"survey {t.survey!r}")
        require(t.tf_id == tf.replace(" ", "_") == t.station_metadata.transfer_function.id, f"id {t.tf_id!r}")
        loc = t.station_metadata.location
        require((loc.latitude, loc.longitude, loc.elevation) == (lat, lon, elev), "the station's location differs")
        a = t.dataset.attrs
        require((a["latitude"], a["longitude"], a["elevation"], a["id"], a["survey"]) == (lat, lon, elev, t.station, t.survey), f"attributes of the data set: {a}")
        require(t != 1 and not (t == "x") and not (t == None), "equal to another type")  # noqa: E711
