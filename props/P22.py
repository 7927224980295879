"""J files and Zonge AVG files: every printed value lands in its cell."""

ASSUMPTIONS = [
    "pandas: selecting the rows whose component begins with a letter and iterating over them gives exactly those rows, in order",
    "float() of a printed token is the number it spells or a ValueError; str() of a float reads back as the same float",
    "cos and sin are uninterpreted real functions of the angle with cos^2+sin^2 = 1; arctan2 gives the angle of a point",
]
JF = "mt_metadata/transfer_functions/io/jfiles/jfile.py:JFile."
JH = "mt_metadata/transfer_functions/io/jfiles/metadata/header.py:Header."
ZF = "mt_metadata/transfer_functions/io/zonge/zonge.py:ZongeMTAvg."
ZH = "mt_metadata/transfer_functions/io/zonge/metadata/header.py:Header."
CELLS = {"xx": (0, 0), "xy": (0, 1), "yx": (1, 0), "yy": (1, 1)}


def cell(comp, up):
    """row and column of a component"""
    if comp[0] == "t":
        b = "xy".index(comp[2])
        return 0, 1 - b if up else b
    a, b = CELLS[comp[1:3]]
    return (1 - a, 1 - b) if up else (a, b)


ZCOMPS = ["zxx", "zxy", "zyx", "zyy", "zxxr", "zxyr", "zyxr", "zyyr"]
TCOMPS = ["tzx", "tzy"]
COLS = ["frequency", "e_magnitude", "b_magnitude", "z_magnitude", "z_phase", "apparent_resistivity", "apparent_resistivity_err", "z_phase_err", "coherency", "fc_use", "fc_try"]


def contracts():
    import types

    import numpy as np

    from pyvc import core
    from pyvc.api import And, Contract, Implies, Not, Or, SymArray, SymBool, SymComplex, SymNum, SymStr, cos, eq, ite, num_z3, raises, sin, sqrt, z3
    from pyvc.blockmodel import SymBlock
    from pyvc.core import SymSeq
    from pyvc.helpers import Inv, SymOpaque, VList
    from pyvc.npmodel import uf
    from mt_metadata.transfer_functions.io.jfiles.jfile import JFile
    from mt_metadata.transfer_functions.io.zonge import zonge as zmod
    from mt_metadata.transfer_functions.io.zonge.zonge import ZongeMTAvg

    out = []
    I, R = z3.IntSort(), z3.RealSort()
    T = SymBool(z3.BoolVal(True))

    # ------------------------------------------------------ magnitude, phase
    def h_complex(p):
        z = ZongeMTAvg()
        if p.choose(2, "arrays"):
            mag, ph = p.array("mag"), p.array("phase")
            ph = SymArray(mag.n, ph.f)
            re, im = z.to_complex(mag, ph)
            i = p.index(mag)
            p.check("one value for each", And(eq(re.n, mag.n), eq(im.n, mag.n)))
            m, a, re, im = mag.at(i), ph.at(i), re.at(i), im.at(i)
        else:
            m, a = p.real("mag"), p.real("phase")
            re, im = z.to_complex(m, a)
        p.check("real part", eq(re, m * cos(a / 1000)))
        p.check("imaginary part", eq(im, m * sin(a / 1000)))

    out.append(Contract("magnitude and phase to complex", ZF + "to_complex", h_complex, replay=("conversions", lambda m: {"re": 3.0, "im": -4.0, "size": 2})))

    def polar(p, re, im):
        """what arctan2 is: the angle of the point"""
        a, b = num_z3(im), num_z3(re)
        t = uf("atan2", R, R, R)(core.toreal(a) if hasattr(core, "toreal") else a, core.toreal(b) if hasattr(core, "toreal") else b)
        r = sqrt(re * re + im * im)
        p.trusted("arctan2(y, x) is the angle of the point (x, y)")
        p.fact(z3.And(num_z3(r * cos(SymNum(t))) == num_z3(re), num_z3(r * sin(SymNum(t))) == num_z3(im)))
        return SymNum(t), r

    def h_polar(p):
        z = ZongeMTAvg()
        if p.choose(2, "arrays"):
            a, b = p.array("re"), p.array("im")
            b = SymArray(a.n, b.f)
            mag, ph = z.to_amp_phase(a, b)
            i = p.index(a)
            p.check("one value for each", And(eq(mag.n, a.n), eq(ph.n, a.n)))
            re, im, m, t = a.at(i), b.at(i), mag.at(i), ph.at(i)
        else:
            re, im = p.real("re"), p.real("im")
            m, t = z.to_amp_phase(re, im)
        w, r = polar(p, re, im)
        p.check("the magnitude", And(m >= 0, eq(m * m, re * re + im * im)))
        p.check("the phase in milliradians", eq(t, w * 1000))
        p.check("magnitude and phase give the value back", And(eq(r * cos(w), re), eq(r * sin(w), im)))

    out.append(Contract("complex to magnitude and phase", ZF + "to_amp_phase", h_polar, replay=("conversions", lambda m: {"re": 3.0, "im": -4.0, "size": 2})))

    # ----------------------------------------------------------- filling AVG
    def mk_fill(letter, up):
        comps = ZCOMPS if letter == "z" else TCOMPS
        shape = (2, 2) if letter == "z" else (1, 2)

        def h(p):
            n, m = p.int("n_freq"), p.int("rows")
            p.assume(And(n >= 1, m >= 0))
            f = {c: uf("row." + c, I, R) for c in COLS}
            kind, pos = uf("row.kind", I, I), uf("pos", R, I)
            own = uf("owner", I, I, I, I)  # the row that fills a cell of a frequency, -1 when none
            names = list(comps)

            def at(i, c):
                return SymNum(f[c](i))

            def where(i):
                """cell of row i as integers"""
                a = b = z3.IntVal(0)
                for k, c in enumerate(names):
                    r_, c_ = cell(c, up)
                    a, b = z3.If(kind(i) == k, z3.IntVal(r_), a), z3.If(kind(i) == k, z3.IntVal(c_), b)
                return a, b

            def known(i):
                """what the file says about row i: its component, a frequency of the list, no other row for its cell"""
                a, b = where(i)
                p.fact(z3.Implies(z3.And(i >= 0, i < m.e), z3.And(kind(i) >= 0, kind(i) < len(names), pos(f["frequency"](i)) >= 0, pos(f["frequency"](i)) < n.e,
                                                                own(pos(f["frequency"](i)), a, b) == i, f["apparent_resistivity"](i) * f["apparent_resistivity_err"](i) >= 0, f["frequency"](i) > 0)))

            class Row(SymOpaque):
                def __init__(self, i):
                    self.i = i
                    known(i)

                @property
                def comp(self):
                    for k, c in enumerate(names[:-1]):
                        if core.ctx().branch(kind(self.i) == k):
                            return c
                    return names[-1]

                def __getattr__(self, k):
                    if k in COLS:
                        return at(self.i, k)
                    raise AttributeError(k)

            class Index(SymOpaque):
                pytype = dict

                def __getitem__(self, x):
                    return SymNum(pos(num_z3(x)))

            class Sub:
                def __init__(self, prefix):
                    self.prefix = prefix

                def itertuples(self, **k):
                    if self.prefix != letter:
                        raise core.Unsupported("rows of another kind")
                    r = VList()
                    r.sym = SymSeq(m, Row, "rows")
                    return r

            class Comp:
                class str:
                    @staticmethod
                    def startswith(x):
                        return Sub(x)

                @staticmethod
                def to_list():
                    return names

            class DF:
                comp = Comp()

                def __getitem__(self, k):
                    return k

            def value(i):
                mag, ph = at(i, "z_magnitude"), at(i, "z_phase")
                s = -1 if letter == "t" and up else 1
                return SymComplex(s * (mag * cos(ph / 1000)), s * (mag * sin(ph / 1000)))

            def err2(i):
                x = at(i, "apparent_resistivity_err") / 100 * at(i, "apparent_resistivity")
                return x * 5 * at(i, "frequency") if letter == "z" else x

            E = uf("row.error", I, R)

            def error(i):
                p.fact(z3.And(E(i) >= 0, E(i) * E(i) == num_z3(err2(i))))
                return SymNum(E(i))

            def owner(fi, ix):
                w = own(fi, ix[0], ix[1])
                known(w)
                a, b = where(w)
                p.fact(z3.And(w >= -1, w < m.e, z3.Implies(w >= 0, z3.And(pos(f["frequency"](w)) == fi, a == ix[0], b == ix[1]))))
                return w

            def filled(fi, ix, i, cplx):
                """the content after i rows"""
                w = owner(fi, ix)
                hit = SymBool(z3.And(w >= 0, w < i))
                if cplx:
                    v = value(w)
                    return SymComplex(ite(hit, v.re, SymNum(z3.RealVal(0))), ite(hit, v.im, SymNum(z3.RealVal(0))))
                return ite(hit, error(w), SymNum(z3.RealVal(1)))

            def find(loc):
                bs = [v for v in loc.values() if isinstance(v, SymBlock)]
                bs = [b for k, b in enumerate(bs) if not any(b is x for x in bs[:k])]
                a, b = [x for x in bs if x.dtype == complex], [x for x in bs if x.dtype != complex]
                if len(a) != 1 or len(b) != 1:
                    raise core.Unsupported("the arrays being filled were not found")
                return a[0], b[0]

            def spec(loop, loc, nm):
                za, ze = find(loc)

                def havoc(i, env):
                    for blk, c in ((za, True), (ze, False)):
                        for ix in np.ndindex(*shape):
                            blk.cells[ix] = SymArray(n, lambda q, ix=ix, c=c: filled(q, ix, i, c))
                    return {}

                def inv(i, env):
                    q = z3.Int("any_frequency")
                    p.fact(z3.And(q >= 0, q < n.e))
                    r = []
                    for ix in np.ndindex(*shape):
                        r.append(eq(za.cells[ix].f(q), filled(q, ix, i, True)))
                        r.append(eq(ze.cells[ix].f(q), filled(q, ix, i, False)))
                    return r

                iv = Inv("the rows so far are in their cells, other cells are empty", [], havoc, inv)
                iv.may_modify = lambda x: any(x is y for b in (za, ze) for y in [b, b.cells] + list(b.cells.flat))
                return iv

            p.loop_specs["*"] = spec
            z = ZongeMTAvg()
            z.z_positive = "up" if up else "down"
            z.df, z.n_freq, z.freq_index_dict = DF(), n, Index()
            r = z._fill_z() if letter == "z" else z._fill_t()
            p.check("values and errors for every frequency", And(eq(r[0].n, n), eq(r[1].n, n)))
            p.check("of the shape of a tensor", r[0].shape[1:] == shape and r[1].shape[1:] == shape)
            i = p.int("a row")
            p.assume(And(i >= 0, i < m))
            row = Row(i.e)
            c = cell(row.comp, up)
            fi = pos(f["frequency"](i.e))
            p.check("the value of a row is in its cell", eq(r[0].cells[c].f(fi), value(i.e)))
            e = r[1].cells[c].f(fi)
            p.check("the error of a row is in its cell", And(e >= 0, eq(e * e, err2(i.e))))
            q = p.int("a frequency")
            p.assume(And(q >= 0, q < n))
            for ix in np.ndindex(*shape):
                none = SymBool(owner(q.e, ix) < 0)
                p.check("a cell without a row is empty", Implies(none, And(eq(r[0].cells[ix].f(q.e), SymComplex(0, 0)), eq(r[1].cells[ix].f(q.e), 1))))

        return h

    for letter in "zt":
        for up in (False, True):
            out.append(Contract(f"{'impedance' if letter == 'z' else 'tipper'} of an AVG file, z positive {'up' if up else 'down'}",
                                [ZF + ("_fill_z" if letter == "z" else "_fill_t"), ZF + "_get_comp_index", ZF + "to_complex"], mk_fill(letter, up), replay=("reading an AVG file", lambda m, up=up: {"seed": 5 + up})))

    def h_other(p):
        z = ZongeMTAvg()
        z.z_positive = "sideways"
        p.check("another direction is refused", isinstance(raises(p, z._get_comp_index), ValueError))
        z.df = types.SimpleNamespace(comp=types.SimpleNamespace(to_list=lambda: ["zxx", "zxy"]))
        p.check("no tipper without its components", z._fill_t() == (None, None))

    out.append(Contract("other directions, no tipper", [ZF + "_get_comp_index", ZF + "_fill_t"], h_other))

    # ---------------------------------------------------------- writing AVG
    def mk_table(up, tipper):
        def h(p):
            z = ZongeMTAvg()
            z.z_positive = "up" if up else "down"
            nf = 1

            def arr(name, shape, cplx):
                a = np.empty((nf,) + shape, dtype=object)
                for ix in np.ndindex(*a.shape):
                    t = name + "".join(map(str, ix))
                    a[ix] = SymComplex(p.real(t + "r"), p.real(t + "i")) if cplx else p.real(t)
                return a

            z.z, z.z_err = arr("z", (2, 2), True), arr("ze", (2, 2), False)
            if tipper:
                z.t, z.t_err = arr("t", (1, 2), True), arr("te", (1, 2), False)
            z.frequency = [p.real("f0")]
            p.assume(z.frequency[0] > 0)
            for v in z.z.flat:
                p.assume(v.re > 0)
            got = []

            class Table:
                def __init__(self, rows):
                    got.extend(rows)
                    self.comp = types.SimpleNamespace(unique=lambda: [r["comp"] for r in rows])

            old, zmod.pd = zmod.pd, types.SimpleNamespace(DataFrame=Table)
            try:
                z._create_dataframe_from_arrays()
            finally:
                zmod.pd = old
            want = ZCOMPS[:4] + (TCOMPS if tipper else [])
            for c in want:
                rows = [r for r in got if r["comp"] == c]
                p.check(f"one row for {c} of a frequency", len(rows) == nf)
                r = rows[0]
                src, s = (z.z, 1) if c[0] == "z" else (z.t, -1 if up else 1)
                v = src[(0,) + cell(c, up)]
                re, im = s * v.re, s * v.im
                w, mag = polar(p, re, im)
                p.check(f"frequency of {c}", eq(r["frequency"], z.frequency[0]))
                p.check(f"magnitude of {c}", And(r["z_magnitude"] >= 0, eq(r["z_magnitude"] * r["z_magnitude"], re * re + im * im)))
                p.check(f"phase of {c}", eq(r["z_phase"], w * 1000))
                if c[0] == "z":
                    p.check(f"apparent resistivity of {c}", eq(r["apparent_resistivity"] * 5 * z.frequency[0], re * re + im * im))
            if not tipper:
                p.check("no tipper rows without a tipper", not any(r["comp"][0] == "t" for r in got))

        return h

    for up in (False, True):
        for tip in (False, True):
            out.append(Contract(f"rows of an AVG file, z positive {'up' if up else 'down'}{', with tipper' if tip else ''}", [ZF + "_create_dataframe_from_arrays", ZF + "to_amp_phase"],
                                mk_table(up, tip), bounded="one frequency", replay=("writing an AVG file", lambda m, up=up, tip=tip: {"seed": 3, "up": up, "tipper": tip})))

    def h_nothing(p):
        z = ZongeMTAvg()
        p.check("nothing to write", isinstance(raises(p, z._create_dataframe_from_arrays), ValueError))

    out.append(Contract("nothing to write", ZF + "_create_dataframe_from_arrays", h_nothing))

    # --------------------------------------------------------------- J files
    class Tok(SymOpaque):
        """a printed token that is a number or not"""

        pytype = str

        def __init__(self, ok, v):
            self.ok, self.v = ok, v

        def __float_sym__(self):
            if self.ok is True or core.ctx().branch(self.ok):
                return self.v
            raise ValueError("could not convert string to float")

        def lower(self):
            return self

        def strip(self, *a):
            return self

        def startswith(self, x, *a):
            return False

    class Line(SymOpaque):
        pytype = str

        def __init__(self, toks):
            self.toks = toks

        def strip(self, *a):
            return self

        rstrip = lstrip = strip

        def lower(self):
            return self

        def contains(self, x):
            return SymBool(z3.BoolVal(False))

        def startswith(self, x, *a):
            return False

        def split(self, *a):
            return list(self.toks)

    def j_file(lines):
        jf = JFile()
        jf.fn = "x.j"
        jf._validate_j_file = lambda: lines
        jf.header = types.SimpleNamespace(read_header=lambda x: None, read_metadata=lambda x: None, station=None, elevation=0.0, latitude=0.0, longitude=0.0)
        return jf

    def mk_j(layout, wild):
        """layout: list of (block name, [periods as printed]); the values of row `wild` may be missing or no numbers"""

        def h(p):
            lines = ["# comment", "> LATITUDE = 1.0\n", "st01\n"]
            vals = {}
            row = 0
            for name, pers in layout:
                lines += [name + " S.I.\n", f"{len(pers)}\n"]
                for q in pers:
                    ts = []
                    for k in range(3):
                        v = p.real(f"v{row}_{k}")
                        if row == wild:
                            ok = p.bool(f"ok{row}_{k}")
                            ts.append(Tok(ok.e if hasattr(ok, "e") else ok, v))
                            vals.setdefault((name.lower(), float(q)), []).append((ok, v))
                        else:
                            p.assume(Not(eq(v, -999)))
                            ts.append(Tok(True, v))
                            vals.setdefault((name.lower(), float(q)), []).append((True, v))
                    lines.append(Line([q] + ts + ["0.5", "0.4"]))
                    row += 1
            jf = j_file(lines)
            p.loop_specs["objarrays"] = True
            jf.read()
            tip = any(n.lower() == "tzx" for n, _ in layout)
            pers = sorted({float(q) for n, qs in layout for q in qs if float(q) != 0 and float(q) != -999 and (n[0].lower() == "z" or tip)})
            p.check("the station", jf.header.station == "st01")
            have = [1.0 / float(x) for x in jf.frequency]
            p.check("every period once", len(have) == len(pers) and all(abs(a - b) < 1e-12 * b for a, b in zip(sorted(have), pers)))
            for q in pers:
                at = [k for k, x in enumerate(have) if abs(x - q) < 1e-12 * q]
                if len(at) != 1:
                    return
                k = at[0]
                for comps, arr, err in ((ZCOMPS[:4], jf.z, jf.z_err), (TCOMPS, jf.t, jf.t_err)):
                    for c in comps:
                        ix = (k,) + cell(c, False)
                        v = vals.get((c, q)) if (c[0] == "z" or tip) else None
                        if v is None:
                            p.check(f"no {c} at {q}: zero", And(eq(arr[ix], SymComplex(0, 0)), eq(err[ix], 0)))
                            continue
                        w = [x if ok is True else ite(And(ok, Not(eq(x, -999))), x, SymNum(z3.RealVal(0))) for ok, x in v]
                        p.check(f"{c} at {q}", eq(SymComplex.lift(arr[ix]), SymComplex(w[0], w[1])))
                        p.check(f"error of {c} at {q}", eq(err[ix], w[2]))

        return h

    layouts = {
        "four components": [(c, ["1.500000"]) for c in ("ZXX", "ZXY", "ZYX", "ZYY")],
        "components in another order, with tipper": [("TZY", ["2.0"]), ("ZYY", ["2.0"]), ("TZX", ["2.0"]), ("ZXY", ["2.0"]), ("ZYX", ["2.0"]), ("ZXX", ["2.0"])],
        "periods missing in some components": [("ZXX", ["0.25", "4.0"]), ("ZXY", ["4.0"]), ("ZYX", ["-999.0000", "0.25"]), ("TZX", ["16.0"]), ("TZY", ["0.25"])],
        "periods in different orders": [("ZXY", ["10.0", "2.0", "100.0"]), ("ZYX", ["100.0", "10.0", "2.0"])],
    }
    for name, lay in layouts.items():
        rows = sum(len(q) for _, q in lay)
        for wild in sorted({0, rows - 1}):
            if float([q for _, qs in lay for q in qs][wild]) == -999:
                continue
            out.append(Contract(f"J file of {name}, row {wild + 1} with any text", JF + "read", mk_j(lay, wild), bounded="files of 2 to 6 blocks with 1 to 3 periods; every number and one row of any text",
                                replay=("reading a J file", lambda m: {"seed": 11})))
    return out


def runtime(reg):
    import functools
    import math
    import random
    import tempfile
    from pathlib import Path

    import numpy as np
    import pyproj
    from loguru import logger

    from pyvc.rt import Skip, close, require
    from mt_metadata.transfer_functions.core import TF
    from mt_metadata.transfer_functions.io.jfiles.jfile import JFile
    from mt_metadata.transfer_functions.io.jfiles.metadata.header import Header as JHeader
    from mt_metadata.transfer_functions.io.zonge.metadata.header import Header as ZHeader
    from mt_metadata.transfer_functions.io.zonge.zonge import ZongeMTAvg

    logger.remove()
    if not hasattr(pyproj.CRS.from_user_input, "cache_info"):
        pyproj.CRS.from_user_input = functools.lru_cache(maxsize=None)(pyproj.CRS.from_user_input)

    # --------------------------------------------------- magnitude and phase
    def gen_conv(rng, tier):
        vals = [0.0, 1.0, -1.0, 3.5, -4.25, 1e-9, -1e6, 2.5e3]
        for a in vals:
            for b in vals:
                yield {"re": a, "im": b, "size": 0}
        for n in (1, 2, 5):
            for _ in range(5):
                yield {"re": rng.uniform(-100, 100), "im": rng.uniform(-100, 100), "size": n}

    @reg.rt("conversions", gen_conv, ["to_complex", "to_amp_phase"], "64 points, arrays of up to 5")
    def conversions(re, im, size):
        z = ZongeMTAvg()
        re, im = float(re), float(im)
        if not (math.isfinite(re) and math.isfinite(im)):
            raise Skip
        a, b = (re, im) if not size else (np.array([re * (k + 1) for k in range(size)]), np.array([im - k for k in range(size)]))
        mag, ph = z.to_amp_phase(a, b)
        x, y = z.to_complex(mag, ph)
        for m, f, r, i, rr, ii in zip(*[np.atleast_1d(v) for v in (mag, ph, a, b, x, y)]):
            want = abs(complex(r, i))
            require(close(m, want, 1e-12, 1e-15), f"the magnitude of {complex(r, i)} is {m}")
            require(close(f, math.atan2(i, r) * 1000, 1e-12, 1e-9), f"the phase of {complex(r, i)} is {f} mrad")
            require(abs(complex(rr, ii) - complex(r, i)) <= 1e-9 * want + 1e-15, f"{complex(r, i)} becomes {complex(rr, ii)}")

    # ------------------------------------------------------ reading AVG files
    def avg_text(rng, empty_runs=False):
        """text of a file, and what it says"""
        base = rng.sample([0.001, 0.0125, 0.5, 1.0, 4.0, 32.0, 256.0, 8192.0, 7.3242e-4, 100.0], rng.randint(1, 6))
        comps = rng.sample(ZCOMPS[:4], rng.choice([4, 4, 4, 2, 1, 3]))
        if rng.random() < 0.6:
            comps += ["tzx"] + (["tzy"] if rng.random() < 0.8 else [])
            rng.shuffle(comps)
        said = {"lat": round(rng.uniform(-89, 89), 7), "lon": round(rng.uniform(-179, 179), 7), "type": rng.choice(["MT", "AMT", "CSAMT", "NSAMT"]), "station": str(rng.randint(1, 99)), "len": rng.randint(1, 300),
                "hpr": [round(rng.uniform(-90, 90), 1), 0.0, 180.0], "version": rng.choice(["3.11n applied 2022/08/02", "3.10m applied 2021/01/27"]), "time": "23:46:18.000", "date": "05/16/2022", "gdp": rng.choice(["Zen", "GDP32"]), "prog": rng.choice(["4457:ZenACQv5.22", "12:x"]),
                "smooth": rng.choice(["None", "Minimal", "Robust"]), "flip": rng.choice(["Yes", "No"]), "box": rng.random() < 0.8}
        lines = [" ", f"$Survey.Type={said['type']}", "$Tx.Type=Natural ", f"$MTEdit:Version={said['version']}", f"$MTEdit:Auto.PhaseFlip={said['flip']}", f"$MTEdit:PhaseSlope.Smooth={said['smooth']}", "$MTEdit:PhaseSlope.toZmag=No",
                 f"$GDP.Date={said['date']}", f"$GDP.Time={said['time']}", f"$GDP.Type={said['gdp']}", f"$GDP.ProgVer={said['prog']}", "$Unit.Length=m", f"$GPS.Lat={said['lat']}", f"$GPS.Lon={said['lon']}", "$GPS.Datum=WGS84",
                 f"$Rx.GdpStn= {said['station']}", "$Rx.HPR=" + ",".join(f"{x:g}" for x in said["hpr"]), " "]
        rows, ch = {}, {}
        for c in comps:
            loc, rem = {"zxx": ("Ex", "Hx"), "zxy": ("Ex", "Hy"), "zyx": ("Ey", "Hx"), "zyy": ("Ey", "Hy"), "tzx": ("Hz", "Hx"), "tzy": ("Hz", "Hy")}[c]
            ch[c] = {"len": rng.randint(1, 200), "az": [round(rng.uniform(0, 180), 1) for _ in "ab"], "incl": [rng.randint(0, 90) for _ in "ab"], "num": [str(rng.randint(1, 9)) for _ in "ab"], "center": [float(rng.randint(1000, 9999)), float(rng.randint(10000, 99999)), 12.5]}
            d = ch[c]
            lines += [f"$Rx.Cmp = {c.capitalize()} ", f"$Rx.Length={d['len']} m", "$Rx.Center=" + ":".join(f"{x:g}" for x in d["center"]) + " m"] + (["$Ch.GdpBox=17,18"] if said["box"] else []) + ["$Ch.Stn=22,23",
                      "$Ch.Number=" + ",".join(d["num"]), f"$Ch.Cmp={loc},{rem}", "$Ch.Azimuth=" + ",".join(f"{x:g}" for x in d["az"]), "$Ch.Incl=" + ",".join(map(str, d["incl"])),
                      "Skp,Freq,      E.mag,      B.mag,      Z.mag,      Z.phz,   ARes.mag,   ARes.%err,Z.perr,  Coher,   FC.NUse,FC.NTry"]
            fs = [f for f in base if rng.random() < 0.8] or base[:1]
            if rng.random() < 0.5:
                rng.shuffle(fs)
            for f in fs:
                e = {"f": f, "mag": round(rng.uniform(0, 100), 3), "ph": round(rng.uniform(-3141, 3141), 1), "res": round(rng.uniform(0.1, 1000), 2), "err": round(rng.uniform(0, 200), 1), "perr": round(rng.uniform(-900, 900), 1)}
                star = rng.random() < 0.2
                if star:
                    e["err"] = 0.5
                rows[(c, f)] = e
                lines.append(f"{rng.choice([0, 1, 2])}, {f!r}, 1.5000E+00, 2.5000E+00, {e['mag']!r}, {e['ph']!r}, {e['res']!r}, {'*' if star else repr(e['err'])}, {e['perr']!r}, 0.9, 10, 20")
            lines.append(" ")
        return "\n".join(lines) + "\n", said, rows, ch, comps

    def gen_seed(n):
        def g(rng, tier):
            for s in range(n if tier == "quick" else 6 * n):
                yield {"seed": s}

        return g

    def tensors(rows, comps, up):
        fs = sorted({f for _, f in rows})
        z, ze = np.zeros((len(fs), 2, 2), complex), np.ones((len(fs), 2, 2))
        t, te = np.zeros((len(fs), 1, 2), complex), np.ones((len(fs), 1, 2))
        for (c, f), e in rows.items():
            i = fs.index(f)
            v = e["mag"] * complex(math.cos(e["ph"] / 1000), math.sin(e["ph"] / 1000))
            if c[0] == "z":
                z[(i,) + cell(c, up)] = v
                ze[(i,) + cell(c, up)] = math.sqrt(e["err"] / 100 * e["res"] * 5 * f)
            else:
                t[(i,) + cell(c, up)] = -v if up else v
                te[(i,) + cell(c, up)] = math.sqrt(e["err"] / 100 * e["res"])
        return fs, z, ze, t, te

    def same(what, got, want, tol=1e-9):
        got = np.asarray(got)
        require(got.shape == want.shape, f"{what} has the shape {got.shape} instead of {want.shape}")
        bad = ~(np.abs(got - want) <= tol * (1 + np.abs(want)))
        if bad.any():
            ix = tuple(int(x) for x in np.argwhere(bad)[0])
            require(False, f"{what}{list(ix)} is {got[ix]} instead of {want[ix]}")

    def gen_table(rng, tier):
        for up in (False, True):
            for k in range(8 if tier == "quick" else 40):
                yield {"up": up, "seed": k}

    @reg.rt("tensors of a table with reference components", gen_table, [ZF + "_fill_z", ZF + "_fill_t"], "16 tables of 1 to 10 components")
    def table(up, seed):
        import pandas as pd

        rng = random.Random(f"table{seed}")
        group = rng.choice([ZCOMPS[:4], ZCOMPS[4:]])  # a component and its reference share a cell
        rows = {}
        for c in rng.sample(group, rng.randint(1, 4)) + TCOMPS:
            for f in rng.sample([0.25, 1.0, 8.0], rng.randint(1, 3)):
                rows[(c, f)] = {"mag": rng.uniform(0, 100), "ph": rng.uniform(-3000, 3000), "res": rng.uniform(1, 100), "err": rng.uniform(0, 100), "perr": rng.uniform(-900, 900)}
        fs, Z, ZE, T, TE = tensors(rows, [c for c, _ in rows], up)
        z = ZongeMTAvg(z_positive="up" if up else "down")
        z.df = pd.DataFrame([dict(comp=c, frequency=f, z_magnitude=e["mag"], z_phase=e["ph"], apparent_resistivity=e["res"], apparent_resistivity_err=e["err"], z_phase_err=e["perr"]) for (c, f), e in rows.items()])
        z.n_freq, z.freq_index_dict = len(fs), {f: i for i, f in enumerate(fs)}
        for names, got, want in (("z z_err", z._fill_z(), (Z, ZE)), ("t t_err", z._fill_t(), (T, TE))):
            for k, g, w in zip(names.split(), got, want):
                same(k, g, w)

    def scratch(name, text):
        d = tempfile.TemporaryDirectory()
        p = Path(d.name) / name
        p.write_text(text)
        return d, p

    @reg.rt("reading an AVG file", gen_seed(40), [ZF + "read", ZF + "_fill_z", ZF + "_fill_t", ZH + "read_header"], "40 files of 1 to 6 components and 1 to 6 frequencies")
    def read_avg(seed):
        rng = random.Random(f"avg{seed}")
        text, said, rows, ch, comps = avg_text(rng)
        up = bool(seed % 2)
        d, p = scratch("x.avg", text)
        with d:
            z = ZongeMTAvg(z_positive="up" if up else "down")
            z.read(p)
            fs, Z, ZE, Tt, TE = tensors(rows, comps, up)
            same("frequency", z.frequency, np.array(fs))
            require(z.n_freq == len(fs), f"n_freq is {z.n_freq} for {len(fs)} frequencies")
            same("z", z.z, Z)
            same("z_err", z.z_err, ZE)
            if "tzx" in comps:
                same("t", z.t, Tt)
                same("t_err", z.t_err, TE)
            else:
                require(z.t is None and z.t_err is None or "tzy" in comps, "a tipper is made up for a file without one")
            h = z.header
            for k, want in (("latitude", said["lat"]), ("longitude", said["lon"]), ("station", said["station"]), ("instrument_type", said["gdp"].upper()), ("firmware", said["prog"].split(":")[0]), ("start_time", "2022-05-16T23:46:18+00:00")):
                got = getattr(h, k)
                require(close(got, want) if isinstance(want, float) else got == want, f"the {k} of the header is {got!r} instead of {want!r}")
            require(str(getattr(h.survey.type, "value", h.survey.type)).upper() == said["type"], f"the survey type is {h.survey.type} instead of {said['type']}")
            require([float(x) for x in h.rx.h_p_r] == said["hpr"], f"the angles of the receiver are {h.rx.h_p_r} instead of {said['hpr']}")
            if "zxx" in comps:
                require(close(h.easting, ch["zxx"]["center"][0]) and close(h.northing, ch["zxx"]["center"][1]), f"the centre is {h.center_location} instead of {ch['zxx']['center']}")
                require(h.instrument_id == ("17" if said["box"] else None), f"the instrument is {h.instrument_id!r}, and the header says {'17' if said['box'] else 'nothing'}")
            sm = z.station_metadata
            require(sm.id == said["station"], f"the station is {sm.id!r} instead of {said['station']!r}")
            require(close(sm.location.latitude, said["lat"]) and close(sm.location.longitude, said["lon"]), f"the station is at {sm.location.latitude}, {sm.location.longitude}")
            require(sm.transfer_function.software.version == said["version"].split()[0], f"the version is {sm.transfer_function.software.version!r}")
            require(sm.transfer_function.id == said["station"] and list(sm.transfer_function.runs_processed) == ["001"], "the transfer function does not name its station and run")
            pp = {x.split("=")[0]: x.split("=")[1] for x in sm.transfer_function.processing_parameters}
            for k, want in (("mtedit.auto.phase_flip", said["flip"]), ("mtedit.phase_slope.smooth", said["smooth"])):
                require(pp.get(k, "").lower() == want.lower(), f"{k} is {pp.get(k)!r} instead of {want!r}")
            r = sm.runs[0]
            require(str(r.time_period.start) == "2022-05-16T23:46:18+00:00" == str(sm.time_period.start), f"the run starts at {r.time_period.start}")
            want = (["ex", "ey", "hx", "hy"] if "zxy" in comps else []) + (["hz"] if "tzx" in comps else [])
            require(sorted(r.channels_recorded_all) == sorted(want), f"the channels are {r.channels_recorded_all} instead of {want}")
            for c, src, k, turn in (("ex", "zxy", 0, 0), ("ey", "zyx", 0, 90), ("hx", "zyx", 1, 0), ("hy", "zxy", 1, 90)):
                if c not in want:
                    continue
                q = r.get_channel(c)
                if src not in comps:
                    require(close(q.measurement_azimuth, said["hpr"][0] + turn), f"the azimuth of {c} is {q.measurement_azimuth} instead of {said['hpr'][0] + turn}")
                    continue
                for at, w in (("measurement_azimuth", ch[src]["az"][k]), ("translated_azimuth", ch[src]["az"][k]), ("measurement_tilt", ch[src]["incl"][k])):
                    require(close(getattr(q, at), w), f"the {at} of {c} is {getattr(q, at)} instead of {w}")
                if c[0] == "e":
                    require(close(q.dipole_length, ch[src]["len"]), f"the length of {c} is {q.dipole_length} instead of {ch[src]['len']}")
                else:
                    require(q.sensor.id == ch[src]["num"][k], f"the sensor of {c} is {q.sensor.id!r} instead of {ch[src]['num'][k]!r}")
            # into a transfer function
            tf = TF()
            tf.from_avg(z)
            same("period of the transfer function", np.sort(tf.period), np.sort(1 / np.array(fs)))
            order = [int(np.argmin(np.abs(tf.period - 1 / f))) for f in fs]
            if {"zxx", "zxy", "zyx", "zyy"} <= set(comps):
                same("impedance of the transfer function", np.asarray(tf.impedance)[order], Z)
                same("impedance error of the transfer function", np.asarray(tf.impedance_error)[order], ZE)
            if "tzx" in comps:
                same("tipper of the transfer function", np.asarray(tf.tipper)[order], Tt)
                same("tipper error of the transfer function", np.asarray(tf.tipper_error)[order], TE)
            require(tf.station == said["station"], f"the station of the transfer function is {tf.station!r}")

    # ------------------------------------------------------ writing AVG files
    def gen_write(rng, tier):
        for s in range(12 if tier == "quick" else 60):
            for up in (False, True):
                for tip in (False, True):
                    yield {"seed": s, "up": up, "tipper": tip}

    @reg.rt("writing an AVG file", gen_write, [ZF + "write", ZF + "_create_dataframe_from_arrays", ZF + "read", ZH + "write_header"], "48 transfer functions of 1 to 6 periods, both directions, with and without a tipper")
    def write_avg(seed, up, tipper):
        rng = random.Random(f"w{seed}")
        n = rng.randint(1, 6)
        fs = np.array(rng.sample([0.001, 0.0125, 0.5, 1.0, 4.0, 32.0, 256.0, 8192.0, 100.0], n))
        if rng.random() < 0.5:
            fs = np.sort(fs)

        def cplx(shape, s):
            return np.array([complex(rng.uniform(-s, s), rng.uniform(-s, s)) for _ in range(int(np.prod(shape)))]).reshape(shape)

        z = ZongeMTAvg(z_positive="up" if up else "down")
        z.frequency, z.z, z.z_err = fs.copy(), cplx((n, 2, 2), 50), np.abs(cplx((n, 2, 2), 1))
        if seed % 3 == 0:
            z.z[0, 1, 1] = 0
        if tipper:
            z.t, z.t_err = cplx((n, 1, 2), 1), np.abs(cplx((n, 1, 2), 0.1))
        hd = {"latitude": round(rng.uniform(-80, 80), 6), "longitude": round(rng.uniform(-170, 170), 6), "station": str(rng.randint(1, 99))}
        if seed % 2:
            for k, v in hd.items():
                setattr(z.header, k, v)
            z.header.rx.h_p_r = [12.5, 0.0, 180.0]
            z.header.survey.type = "MT"
            z.header.m_t_edit.version = "3.11n applied 2022/08/02"
        zz, tt = z.z.copy(), None if z.t is None else z.t.copy()
        with tempfile.TemporaryDirectory() as d:
            z.write(Path(d) / "o.avg")
            r = ZongeMTAvg(z_positive=z.z_positive)
            r.read(Path(d) / "o.avg")
            same("frequency", r.frequency, np.sort(fs), 6e-5)
            order = np.argsort(fs)
            same("z", r.z, zz[order], 1.2e-4)
            if tipper:
                same("t", r.t, tt[order], 1.2e-4)
            else:
                require(r.t is None, "a tipper is made up")
            if seed % 2:
                for k, v in hd.items():
                    got = getattr(r.header, k)
                    require(close(got, v, 1e-6, 1e-6) if isinstance(v, float) else got == v, f"the {k} written as {v!r} is read as {got!r}")
                require(list(r.header.rx.h_p_r) == [12.5, 0.0, 180.0], f"the angles are read as {r.header.rx.h_p_r}")
                require(str(getattr(r.header.survey.type, "value", r.header.survey.type)) == "MT", f"the survey type is read as {r.header.survey.type}")
                require(r.header.m_t_edit.version.lower() == "3.11n applied 2022/08/02", f"the version is read as {r.header.m_t_edit.version!r}")
            tf = TF()
            tf.from_avg(r)
            same("impedance of the transfer function", np.asarray(tf.impedance)[[int(np.argmin(np.abs(tf.period - 1 / f))) for f in r.frequency]], r.z)
            a = tf.to_avg()
            a.z_positive = "down"
            a.write(Path(d) / "o2.avg")
            q = ZongeMTAvg()
            q.read(Path(d) / "o2.avg")
            same("z written from the transfer function", q.z, zz[order], 2.5e-4)

    # -------------------------------------------------------- reading J files
    def jtext(rng):
        base = rng.sample(["1.333333", "2.000000", "0.2500000", "64.55000", "10.75000", "0.004", "1024.0", "16.12500", "3.0", "100.0"], rng.randint(1, 6))
        said = {"lat": round(rng.uniform(-89, 89), 5), "lon": round(rng.uniform(-179, 179), 5), "elev": round(rng.uniform(-100, 4000), 2), "az": round(rng.uniform(0, 359), 2), "deltat": rng.choice([0.1, -8.0, 0.25, -512.0, -0.5]), "tbw": 2.0, "nfft": float(rng.randint(100, 9000)), "uin": rng.choice([0.0, -0.5]),
                "station": rng.choice(["BP05", "mt001", "s1"]), "title": rng.choice(["BIRRP Version 5 basic mode output", "BIRRP Version 5 advanced mode output"])}
        nb = rng.randint(1, 3)
        blocks = [{"ncomp": rng.randint(1, 4), "filnam": f"/data/{rng.choice(['flat', 'lon', 'elev', 'd'])}/f{k}.txt", "nskip": rng.randint(0, 99), "nread": rng.randint(1000, 50000), "nfil": k} for k in range(nb)]
        angles = [{"theta1": round(rng.uniform(0, 90), 3), "theta2": round(rng.uniform(0, 180), 3), "phi": round(rng.uniform(-20, 20), 3)} for _ in range(rng.randint(1, 3))]
        lines = ["#" + said["title"], "#outputs=       2 inputs=       2 references=       2", f"#tbw=   {said['tbw']:.6f}     deltat=  {said['deltat']!r}    ", f"#nfft=    {said['nfft']:.0f} nsctinc=       2 nsctmax=       7", f"#uin=   {said['uin']!r}     ainlin=  -999.0000     ainuin=  0.9990000    ", "# npcs=       1 nar=       3"]
        for b in blocks:
            lines += [f"#nfil=       {b['nfil']}", f"#ncomp=       {b['ncomp']}", f"#filnam={b['filnam']}      ", f"#nskip=       {b['nskip']} nread=   {b['nread']}"]
        for a in angles:
            lines.append(f"#theta1=   {a['theta1']!r}     theta2=   {a['theta2']!r}     phi=   {a['phi']!r}    ")
        blank = rng.random() < 0.3
        text = (lambda v: " " * 12 if blank else repr(v))
        lines += [f">LATITUDE  ={text(said['lat'])}", f">LONGITUDE ={text(said['lon'])}", f">ELEVATION ={text(said['elev'])}", f">AZIMUTH   =   {said['az']!r}", said["station"] + "      "]
        if blank:
            said.update(lat=0.0, lon=0.0, elev=0.0)
        rows = {}
        comps = rng.sample(["zxx", "zxy", "zyx", "zyy"], rng.choice([4, 4, 4, 2, 1])) + (["tzx", "tzy"] if rng.random() < 0.6 else [])
        if rng.random() < 0.3:
            rng.shuffle(comps)
        for c in comps:
            lines.append(f"{c.upper()} S.I." if c[0] == "z" else c.upper())
            ps = [x for x in base if rng.random() < 0.8] or base[:1]
            if rng.random() < 0.3:
                rng.shuffle(ps)
            pad = rng.randint(0, 2)
            lines.append(str(len(ps) + pad))
            for x in ps:
                v = [round(rng.uniform(-3000, 3000), 4), round(rng.uniform(-900, 900), 4), round(rng.uniform(0, 100), 4)]
                w = [repr(q) for q in v]
                k = rng.random()
                if k < 0.1:
                    j = rng.randrange(3)
                    w[j], v[j] = rng.choice(["-999.0000", "NaN", "*****", "-9.99e2"]), 0.0
                elif k < 0.15:
                    w[2], v[2] = "inf", 1e6
                rows[(c, float(x))] = v
                lines.append("    " + "       ".join([x] + w + ["0.5000000", "0.4335710"]) + "    ")
            lines += ["   -999.0000" + "      -999.0000" * 5] * pad
        return "\n".join(lines) + "\n", said, blocks, angles, rows, comps

    @reg.rt("reading a J file", gen_seed(60), [JF + "read", JF + "_validate_j_file", JH + "read_header", JH + "read_metadata", JF + "station_metadata"], "60 files of 1 to 6 components and 1 to 6 periods")
    def read_j(seed):
        rng = random.Random(f"j{seed}")
        text, said, blocks, angles, rows, comps = jtext(rng)
        d, p = scratch("x.j", text)
        with d:
            j = JFile()
            j.read(p)
            use = {k: v for k, v in rows.items() if k[0][0] == "z" or any(c == "tzx" for c, _ in rows)}
            ps = sorted({x for _, x in use})
            got = sorted(1.0 / j.frequency)
            require(len(got) == len(ps) and all(close(a, b, 1e-12) for a, b in zip(got, ps)), f"the periods are {got} instead of {ps}")
            require(np.allclose(j.periods, 1 / j.frequency), "periods are not the reciprocals of the frequencies")
            pos = {x: int(np.argmin(np.abs(j.periods - x))) for x in ps}
            n = len(ps)
            z, ze, t, te = np.zeros((n, 2, 2), complex), np.zeros((n, 2, 2)), np.zeros((n, 1, 2), complex), np.zeros((n, 1, 2))
            for (c, x), v in use.items():
                a, b = (z, ze) if c[0] == "z" else (t, te)
                ix = (pos[x],) + (CELLS[c[1:]] if c[0] == "z" else (0, "xy".index(c[2])))
                a[ix], b[ix] = complex(v[0], v[1]), v[2]
            for k, w in (("z", z), ("z_err", ze), ("t", t), ("t_err", te)):
                same(k, getattr(j, k), w)
            h = j.header
            for k, w in (("latitude", said["lat"]), ("longitude", said["lon"]), ("elevation", said["elev"]), ("azimuth", said["az"]), ("station", said["station"]), ("title", said["title"])):
                g = getattr(h, k)
                require(close(g, w) if isinstance(w, float) else g == w, f"the {k} is {g!r} instead of {w!r}")
            for k, w in (("tbw", said["tbw"]), ("deltat", said["deltat"]), ("nfft", said["nfft"]), ("uin", said["uin"]), ("outputs", 2), ("inputs", 2), ("references", 2), ("nsctinc", 2), ("nsctmax", 7), ("ainlin", -999.0), ("ainuin", 0.999), ("npcs", 1), ("nar", 3)):
                require(close(getattr(h.birrp_parameters, k), w), f"{k} is {getattr(h.birrp_parameters, k)!r} instead of {w!r}")
            require(len(h.data_blocks) == len(blocks), f"{len(h.data_blocks)} blocks instead of {len(blocks)}")
            for i, (g, w) in enumerate(zip(h.data_blocks, blocks)):
                for k in ("ncomp", "filnam", "nskip", "nread"):
                    require(getattr(g, k) == w[k], f"{k} of block {i} is {getattr(g, k)!r} instead of {w[k]!r}")
            require(len(h.angles) == len(angles), f"{len(h.angles)} angles instead of {len(angles)}")
            for i, (g, w) in enumerate(zip(h.angles, angles)):
                for k in w:
                    require(close(getattr(g, k), w[k]), f"{k} of the angles {i} is {getattr(g, k)!r} instead of {w[k]!r}")
            sm = j.station_metadata
            require(sm.id == said["station"], f"the station is {sm.id!r}")
            L = sm.location
            require(close(L.latitude, said["lat"]) and close(L.longitude, said["lon"]) and close(L.elevation, said["elev"]), f"the station is at {L.latitude}, {L.longitude}, {L.elevation}")
            rate = -said["deltat"] if said["deltat"] < 0 else 1 / said["deltat"]
            require(close(sm.runs[0].sample_rate, rate), f"the sample rate is {sm.runs[0].sample_rate} instead of {rate}")
            want = (["ex", "ey", "hx", "hy"] if (z != 0).any() else []) + (["hz"] if (t != 0).any() else [])
            require(sorted(sm.runs[0].channels_recorded_all) == sorted(want), f"the channels are {sm.runs[0].channels_recorded_all} instead of {want}")
            pp = {x.split(" = ")[0]: x.split(" = ")[1] for x in sm.transfer_function.processing_parameters}
            for k in ("tbw", "deltat", "nfft"):
                require(k in pp and close(float(pp[k]), said[k]), f"the processing parameter {k} is {pp.get(k)} instead of {said[k]}")
            tf = TF()
            tf.from_jfile(j)
            at = [int(np.argmin(np.abs(tf.period - x))) for x in j.periods]
            require(len(tf.period) == n, f"the transfer function has {len(tf.period)} periods instead of {n}")
            same("impedance of the transfer function", np.asarray(tf.impedance)[at], z)
            same("impedance error of the transfer function", np.asarray(tf.impedance_error)[at], ze)
            if (t != 0).any():
                same("tipper of the transfer function", np.asarray(tf.tipper)[at], t)
                same("tipper error of the transfer function", np.asarray(tf.tipper_error)[at], te)
            require(tf.station == said["station"] and close(tf.latitude, said["lat"]) and close(tf.longitude, said["lon"]), f"the transfer function is of {tf.station} at {tf.latitude}, {tf.longitude}")

    # ---------------------------------------------------------- header lines
    def gen_line(rng, tier):
        names = ["outputs", "tbw", "deltat", "nfft", "nskip", "nread", "theta1", "phi", "filnam"]
        for s in range(60 if tier == "quick" else 400):
            k = rng.randint(1, 4)
            pairs = [[nm, rng.choice([str(rng.randint(-999, 9999)), f"{rng.uniform(-10, 10):.6f}", "-999.0000", "/a/b_c.txt", "1.0E-3"])] for nm in rng.sample(names, k)]
            yield {"pairs": pairs, "gap": rng.choice(["", " ", "       "]), "lead": rng.choice(["", " ", "  "])}

    @reg.rt("header lines", gen_line, [JH + "_read_header_line"], "60 lines of up to 4 pairs with any spacing")
    def header_line(pairs, gap, lead):
        line = "#" + lead + "     ".join(f"{k}={gap}{v}" for k, v in pairs) + "    \n"
        got = JHeader()._read_header_line(line)
        require(list(got) == [k for k, _ in pairs], f"{line!r} has the keys {list(got)}")
        for k, v in pairs:
            try:
                w = float(v)
            except ValueError:
                w = v
            require(got[k] == w and type(got[k]) is type(w), f"{k} of {line!r} is {got[k]!r} instead of {w!r}")

    # --------------------------------------------------------------- setters
    def gen_set(rng, tier):
        for s in range(10 if tier == "quick" else 50):
            yield {"lat": round(rng.uniform(-89, 89), 5), "lon": round(rng.uniform(-179, 179), 5), "station": rng.choice(["22", "mt01"]), "length": rng.choice([50.0, 100.0, 12.5])}

    @reg.rt("setting the metadata of an AVG file", gen_set, [ZF + "station_metadata", ZH + "__setattr__", ZH + "latitude", ZH + "longitude", ZH + "station"], "10 stations")
    def set_avg(lat, lon, station, length):
        from mt_metadata.timeseries import Electric, Run, Station

        sm = Station(id=station)
        sm.location.latitude, sm.location.longitude = lat, lon
        r = Run(id="001")
        r.add_channel(Electric(component="ex", dipole_length=length))
        sm.add_run(r)
        z = ZongeMTAvg()
        z.station_metadata = sm
        h = z.header
        require(h.station == station and close(h.latitude, lat) and close(h.longitude, lon) and close(h.rx.length, length), f"the header says {h.station}, {h.latitude}, {h.longitude}, {h.rx.length}")
        require(close(h.gps.lat, lat) and close(h.gps.lon, lon), f"the GPS says {h.gps.lat}, {h.gps.lon}")
        for v in (f" {lat} ", lat):
            g = ZHeader()
            g.latitude, g.longitude, g.elevation, g.station = v, f"{lon}", f"{length}", station
            require(close(g.latitude, lat) and close(g.longitude, lon) and close(g.elevation, length) and g.station == station, f"the header says {g.station}, {g.latitude}, {g.longitude}, {g.elevation}")
        for k in ("latitude", "longitude", "elevation"):
            try:
                setattr(ZHeader(), k, "north")
            except ValueError:
                continue
            require(False, f"a {k} of 'north' is accepted")
