"""Frequency bands and Fourier harmonics."""

ASSUMPTIONS = [
    "pandas DataFrame column selection, sort_values and iloc are exercised by runtime contracts, not modelled",
    "numpy.fft.fftfreq and pandas.Interval are as documented",
]
BF = "mt_metadata/common/band.py:Band."
FB = "mt_metadata/processing/aurora/frequency_bands.py:FrequencyBands."
DL = "mt_metadata/processing/aurora/decimation_level.py:"
WF = "mt_metadata/processing/window.py:"
PF = "mt_metadata/processing/aurora/processing.py:Processing."
CLOSED = {"left": (True, False), "right": (False, True), "both": (True, True)}


def contracts():
    from mt_metadata.common.band import Band
    from mt_metadata.processing.aurora import decimation_level as dlm
    from mt_metadata.processing.aurora import processing as prm
    from mt_metadata.processing.aurora.decimation_level import DecimationLevel
    from mt_metadata.processing.aurora.frequency_bands import FrequencyBands
    from mt_metadata.processing.aurora.processing import Processing
    from mt_metadata.processing.fourier_coefficients.decimation import Decimation as FCDecimation
    from mt_metadata.processing import window as wm
    from pyvc import core
    from pyvc.api import And, Contract, I, Implies, Not, Or, R, SymArray, SymBool, SymNum, SymSeq, eq, num_z3, put, raises, z3
    from pyvc.helpers import Inv, VList

    out = []

    def within(lo, hi, closed, v):
        a, b = CLOSED[closed]
        return And(v >= lo if a else v > lo, v <= hi if b else v < hi)

    def band(p, closed="left", name=""):
        b = Band(closed=closed)
        lo, hi = p.real(name + "lo"), p.real(name + "hi")
        p.assume(lo <= hi)
        put(b, frequency_min=lo, frequency_max=hi)
        p.inputs[name + "closed"] = closed
        return b, lo, hi

    def rp_select(m):
        return {"closed": m.get("closed", "left"), "lo": m.get("lo", 0.0), "hi": m.get("hi", 1.0), "freqs": sorted(m.get("f") or [0.0, 1.0])}

    # ------------------------------------------------------------ selection
    def mk_select(closed):
        def h(p):
            b, lo, hi = band(p, closed)
            f = p.array("f")
            i = p.index(f)
            p.ufapps.setdefault("indices", []).append(i)
            ix = b._indices_from_frequencies(f)
            m = core.as_z3int(ix.n)
            j, k = z3.Int("j"), z3.Int("k")
            p.assume(z3.And(0 <= j, j < k, k < m))
            xj, xk = ix.at(j), ix.at(k)
            p.check("selected in order, each once", And(xj >= 0, xj < xk, xk < f.n))
            p.check("a selected frequency lies in the band", within(lo, hi, closed, f.at(num_z3(xj))))
            src = getattr(ix, "src", None)
            if src is None:
                raise core.Unsupported("selection in another form")
            r = src.rank(i)
            p.check("every frequency in the band is selected", Implies(within(lo, hi, closed, f.at(i)), And(SymBool(z3.And(r >= 0, r < m)), eq(ix.at(r), SymNum(i)))))

        return h

    for c in CLOSED:
        out.append(Contract(f"harmonics selected by a band closed {c}", [BF + "_indices_from_frequencies", BF + "lower_closed", BF + "upper_closed", BF + "to_interval"],
                            mk_select(c), replay=("selection", rp_select)))

    def mk_range(closed):
        def h(p):
            b, lo, hi = band(p, closed)
            f = p.array("f")
            i = p.index(f)
            p.ufapps.setdefault("indices", []).append(i)
            e = raises(p, lambda: b.set_indices_from_frequencies(f))
            if e is not None:
                p.check("an error is an IndexError for a band without harmonics", And(SymBool(z3.BoolVal(isinstance(e, IndexError))), Not(within(lo, hi, closed, f.at(i)))))
                return
            a, z = b.index_min, b.index_max
            p.check("first and last harmonic are in the band", And(a >= 0, a <= z, z < f.n, within(lo, hi, closed, f.at(num_z3(a))), within(lo, hi, closed, f.at(num_z3(z)))))
            p.check("no harmonic of the band is outside its index range", Implies(within(lo, hi, closed, f.at(i)), And(a <= SymNum(i), SymNum(i) <= z)))

        return h

    for c in CLOSED:
        out.append(Contract(f"index range of a band closed {c}", BF + "set_indices_from_frequencies", mk_range(c), replay=("selection", rp_select)))

    def h_in(p):
        b, lo, hi = band(p, "left")
        f = p.array("f")
        v = b.in_band_harmonics(f)
        j = p.index(v, "j")
        ix = b._indices_from_frequencies(f)
        p.check("frequencies of the band", within(lo, hi, "left", v.at(j)))
        p.check("as many as are selected", eq(v.n, SymNum(core.as_z3int(v.n))))

    out.append(Contract("frequencies of the harmonics of a band", BF + "in_band_harmonics", h_in, replay=("selection", rp_select)))

    def h_hi(p):
        b = Band()
        a, z = p.int("a"), p.int("z")
        p.assume(And(a >= 0, a <= z))
        put(b, index_min=a, index_max=z)
        v = b.harmonic_indices
        j = p.index(v, "j")
        p.check("from the first to the last, both included", And(eq(v.n, z - a + 1), eq(v.at(j), a + SymNum(j))))

    out.append(Contract("harmonic indices of a band", BF + "harmonic_indices", h_hi, replay=("geometry", lambda m: {"lo": 1.0, "hi": 2.0, "a": m.get("a", 0), "z": m.get("z", 0)})))

    # ------------------------------------------------------------- geometry
    def rp_geo(m):
        return {"lo": m.get("lo", 1.0), "hi": m.get("hi", 2.0), "closed": m.get("closed", "left"), "kind": m.get("kind", "geometric")}

    def mk_center(kind):
        def h(p):
            b, lo, hi = band(p)
            p.assume(lo > 0)
            p.inputs["kind"] = kind
            put(b, center_averaging_type=type(b.center_averaging_type)(kind))
            c = b.center_frequency
            if kind == "geometric":
                p.check("center is the geometric mean", And(c >= 0, eq(c * c, lo * hi)))
            else:
                p.check("center is the arithmetic mean", eq(c + c, lo + hi))
            p.assume(c > 0)
            p.check("width", eq(b.width, hi - lo))
            p.check("center period", eq(b.center_period * c, 1))
            p.check("fractional bandwidth", eq(b.fractional_bandwidth * c, hi - lo))
            q = b.Q
            if isinstance(q, float):
                p.check("infinite quality of a band without width", And(SymBool(z3.BoolVal(q == float("inf"))), eq(hi, lo)))
            else:
                p.check("quality factor", eq(q * (hi - lo), c))
            p.check("bounds", And(eq(b.lower_bound, lo), eq(b.upper_bound, hi)))

        return h

    for kind in ("geometric", "arithmetic"):
        out.append(Contract(f"{kind} center, width and quality", [BF + x for x in ("center_frequency", "center_period", "width", "fractional_bandwidth", "Q", "lower_bound", "upper_bound")],
                            mk_center(kind), replay=("geometry", rp_geo)))

    def mk_two(c1, c2):
        def h(p):
            a, lo, hi = band(p, c1)
            b, lo2, hi2 = band(p, c2, "o")
            x = p.real("x")
            if p.choose(2, "question"):
                r = SymBool(core.as_z3bool(a.contains(b)))
                p.check("contains: both edges of the other are in the band", eq(r, And(within(lo, hi, c1, lo2), within(lo, hi, c1, hi2))))
            else:
                r = SymBool(core.as_z3bool(a.overlaps(b)))
                both = And(within(lo, hi, c1, x), within(lo2, hi2, c2, x))
                p.check("overlaps when they share a frequency", Implies(both, r))
                p.assume(And(lo < hi, lo2 < hi2))
                left, right = core.ite(lo >= lo2, lo, lo2), core.ite(hi <= hi2, hi, hi2)
                mid = (left + right) / 2
                p.check("bands that overlap share a frequency", Implies(r, And(within(lo, hi, c1, mid), within(lo2, hi2, c2, mid))))

        return h

    def rp_two(m):
        return {"a": [m.get("lo", 0.0), m.get("hi", 1.0), m.get("closed", "left")], "b": [m.get("olo", 0.0), m.get("ohi", 1.0), m.get("oclosed", "left")]}

    for c1 in CLOSED:
        for c2 in CLOSED:
            out.append(Contract(f"overlap and containment {c1}/{c2}", [BF + "overlaps", BF + "contains"], mk_two(c1, c2), replay=("two bands", rp_two)))

    # ------------------------------------------------------------- harmonics
    def harmonics(p, fn, n, fs):
        f = fn()
        i = p.index(f)
        p.check("the harmonics below half the window", eq(f.n, SymNum(num_z3(n) / 2)))
        p.check("k-th harmonic is k times the rate over the window length", eq(f.at(i) * n, SymNum(z3.ToReal(i)) * fs))

    def sizes(p):
        n, fs = p.int("n"), p.real("fs")
        p.assume(And(n >= 1, fs > 0))
        return n, fs

    rp_h = lambda m: {"n": m.get("n", 4), "fs": m.get("fs", 1.0)}

    def h_h1(p):
        n, fs = sizes(p)
        harmonics(p, lambda: wm.get_fft_harmonics(n, fs), n, fs)

    def h_h2(p):
        n, fs = sizes(p)
        harmonics(p, lambda: dlm.get_fft_harmonics(n, fs), n, fs)

    def h_h3(p):
        n, fs = sizes(p)
        w = wm.Window()
        put(w, num_samples=n)
        harmonics(p, lambda: w.fft_harmonics(fs), n, fs)

    def h_h4(p):
        n, fs = sizes(p)
        d = DecimationLevel()
        put(d.decimation, sample_rate=fs)
        put(d.stft.window, num_samples=n)
        harmonics(p, lambda: d.fft_frequencies, n, fs)
        p.check("spacing of the harmonics", eq(d.frequency_sample_interval * n, fs))

    def h_h5(p):
        n, fs = sizes(p)
        d = FCDecimation()
        put(d.time_series_decimation, sample_rate=fs)
        put(d.short_time_fourier_transform.window, num_samples=n)
        harmonics(p, lambda: d.fft_frequencies, n, fs)

    for nm, fn, h in (("function of the window module", WF + "get_fft_harmonics", h_h1), ("function of the decimation level module", DL + "get_fft_harmonics", h_h2),
                      ("window", WF + "Window.fft_harmonics", h_h3), ("decimation level", [DL + "DecimationLevel.fft_frequencies", DL + "DecimationLevel.frequency_sample_interval"], h_h4),
                      ("Fourier coefficient decimation", "mt_metadata/processing/fourier_coefficients/decimation.py:Decimation.fft_frequencies", h_h5)):
        out.append(Contract(f"harmonics: {nm}", fn, h, replay=("harmonics", rp_h)))

    # -------------------------------------------------- bands of a level
    def level_of(p, n=None):
        lo, hi = z3.Function("index_min", I, I), z3.Function("index_max", I, I)

        def elem(i):
            b = Band()
            put(b, index_min=SymNum(lo(i)), index_max=SymNum(hi(i)))
            p.fact(z3.And(lo(i) >= 0, lo(i) <= hi(i)))
            return b

        bands = p.seq("bands", elem) if n is None else [elem(z3.IntVal(i)) for i in range(n)]
        d = DecimationLevel()
        put(d, bands=VList([]) if n is None and not isinstance(bands, list) else list(bands))
        if isinstance(bands, SymSeq):
            d.bands.sym = bands
        return d, bands, lo, hi

    def h_bounds(p):
        d, bands, lo, hi = level_of(p)
        if isinstance(bands, list):
            raise core.Unsupported("bounded")
        i = z3.Int("any")
        p.assume(z3.And(i >= 0, i < bands.n.e))
        for nm, f, v in (("lower", lo, d.lower_bounds), ("upper", hi, d.upper_bounds)):
            if not isinstance(v, SymArray):
                raise core.Unsupported("bounds in another form")
            p.check(f"one {nm} bound per band", eq(v.n, bands.n))
            j, k = z3.Int("j" + nm), z3.Int("k" + nm)
            p.assume(z3.And(0 <= j, j < k, k < bands.n.e))
            p.check(f"{nm} bounds are in order", v.at(j) <= v.at(k))
            src = getattr(v, "src", None)
            if src is None or not hasattr(src, "rank"):
                raise core.Unsupported("not a sorted list")
            r = src.rank(i)
            p.check(f"each band's {nm} bound is among them", And(SymBool(z3.And(r >= 0, r < bands.n.e)), eq(v.at(r), SymNum(f(i)))))

    out.append(Contract("index bounds of the bands of a level", [DL + "DecimationLevel.lower_bounds", DL + "DecimationLevel.upper_bounds"], h_bounds,
                        replay=("level", lambda m: {"seed": 1, "n": 3})))

    # ------------------------------------------------ assigning bands
    def mk_assign(nlev, form):
        def h(p):
            fs = p.real("fs")
            p.assume(fs > 0)
            levels = list(range(nlev))
            factors = {k: p.int(f"d{k}") for k in levels}
            sizes_ = {k: p.int(f"n{k}") for k in levels}
            one = p.int("one")
            for v in [*factors.values(), *sizes_.values(), one]:
                p.assume(v >= 1)
            edges, lows, highs = {}, {}, {}
            for k in levels:
                lows[k], highs[k] = z3.Function(f"low{k}", I, R), z3.Function(f"high{k}", I, R)
                edges[k] = p.seq(f"edges{k}", lambda i, k=k: (SymNum(lows[k](i)), SymNum(highs[k](i))))
            axes = {}
            first, last = z3.Function("first", I, R, R, I), z3.Function("last", I, R, R, I)
            # callees by contract: the harmonic axis and the index range of a band
            key = {}

            def freqs(self):
                a = ("axis", self.decimation.sample_rate, self.stft.window.num_samples, self.decimation.level)
                key[id(a)] = len(key)
                axes[id(a)] = a
                return a

            def set_idx(self, f):
                if not (isinstance(f, tuple) and f[0] == "axis"):
                    raise core.Unsupported("indices from something else")
                lv = z3.IntVal(f[3])
                self.__dict__["index_min"] = SymNum(first(lv, num_z3(self.frequency_min), num_z3(self.frequency_max)))
                self.__dict__["index_max"] = SymNum(last(lv, num_z3(self.frequency_min), num_z3(self.frequency_max)))

            old = DecimationLevel.fft_frequencies, Band.set_indices_from_frequencies
            DecimationLevel.fft_frequencies, Band.set_indices_from_frequencies = property(freqs), set_idx
            made = []

            def construct(*a, **k_):
                if a or k_:
                    raise core.Unsupported("levels built another way")
                d = DecimationLevel()
                put(d, bands=VList([]))
                made.append(d)
                return d

            def mkband(lv, lo, hi):
                b = Band()
                put(b, decimation_level=lv, frequency_min=SymNum(lo), frequency_max=SymNum(hi),
                    index_min=SymNum(first(z3.IntVal(lv), lo, hi)), index_max=SymNum(last(z3.IntVal(lv), lo, hi)))
                return b

            def same(b, lv, lo, hi):
                return And(SymBool(z3.BoolVal(b.decimation_level == lv)), eq(b.frequency_min, SymNum(lo)), eq(b.frequency_max, SymNum(hi)),
                           eq(b.index_min, SymNum(first(z3.IntVal(lv), lo, hi))), eq(b.index_max, SymNum(last(z3.IntVal(lv), lo, hi))))

            def spec(loop, loc, names):
                d = made[-1]
                lv = len(made) - 1

                def havoc(i, env):
                    d.bands.sym = SymSeq(SymNum(i), lambda k: mkband(lv, lows[lv](k), highs[lv](k)), "bands so far")
                    return {}

                def inv(i, env):
                    s = d.bands.sym
                    if s is None:
                        return SymBool(z3.BoolVal(list.__len__(d.bands) == 0 and z3.is_int_value(i) and i.as_long() == 0))
                    if getattr(s, "prefix", None) is not None:
                        return And(eq(s.n, SymNum(i)), same(s.last, lv, lows[lv](i - 1), highs[lv](i - 1)))
                    return eq(s.n, SymNum(i))

                iv = Inv("the given bands so far, in order", [], havoc, inv)
                iv.may_modify = lambda x: x is d or x is d.bands
                return iv

            p.loop_specs["*"] = spec
            p.loop_specs[("construct", "DecimationLevel")] = construct
            c = Processing()
            put(c, decimations=[])
            before = DecimationLevel()
            c.decimations.append(before)
            try:
                if form == "one size":
                    c.assign_bands(edges, fs, factors, one)
                else:
                    c.assign_bands(edges, fs, factors, sizes_)
            finally:
                DecimationLevel.fft_frequencies, Band.set_indices_from_frequencies = old
            now = list(c.decimations)
            p.check("levels are added after those that were there", len(now) == nlev + 1 and now[0] is before)
            for k in levels:
                d = now[k + 1]
                p.check("level number", d.decimation.level == k)
                p.check("factor of the level", eq(d.decimation.factor, factors[k]))
                div = SymNum(z3.IntVal(1))
                for _ in range(k):
                    div = div * factors[k]
                p.check("sample rate is divided by the factor once per level", eq(d.decimation.sample_rate * div, fs))
                p.check("window length", eq(d.stft.window.num_samples, one if form == "one size" else sizes_[k]))
                s = d.bands.sym if type(d.bands) is VList else None
                if s is None:
                    p.check("bands of the level", And(SymBool(z3.BoolVal(isinstance(edges[k], list) and len(d.bands) == len(edges[k]))),
                                                      *[same(b, k, lows[k](z3.IntVal(j)), highs[k](z3.IntVal(j))) for j, b in enumerate(d.bands)]))
                else:
                    i = z3.Int(f"anyband{k}")
                    p.assume(z3.And(i >= 0, i < edges[k].n.e))
                    p.check("bands of the level", And(eq(s.n, edges[k].n), same(s.at(i), k, lows[k](i), highs[k](i))))

        return h

    for nlev in (1, 2, 3):
        for form in ("one size", "sizes"):
            out.append(Contract(f"bands of {nlev} level(s), {form}", [PF + "assign_bands", PF + "add_decimation_level", DL + "DecimationLevel.add_band"], mk_assign(nlev, form),
                                replay=("assigning bands", lambda m: {"seed": 1, "levels": 3, "one": False})))

    # ------------------------------------------- order of a band collection
    return out


# ------------------------------------------------------------------ runtime
def runtime(reg):
    import warnings

    import numpy as np
    import pandas as pd
    from mt_metadata.common.band import Band
    from mt_metadata.processing.aurora.decimation_level import DecimationLevel, _df_from_bands, get_fft_harmonics as dl_harmonics
    from mt_metadata.processing.aurora.frequency_bands import FrequencyBands
    from mt_metadata.processing.aurora.processing import Processing
    from mt_metadata.processing.fourier_coefficients.decimation import Decimation as FCDecimation
    from mt_metadata.processing.window import Window, get_fft_harmonics
    from pyvc.rt import Skip, close, require

    try:
        from loguru import logger

        logger.remove()
    except ImportError:
        pass
    warnings.simplefilter("ignore")

    def within(lo, hi, closed, v):
        a, b = CLOSED[closed]
        return (v >= lo if a else v > lo) and (v <= hi if b else v < hi)

    def g_select(rng, tier):
        while True:
            n = rng.randint(1, 12)
            fs = [round(rng.uniform(0, 3), rng.choice((0, 1, 3))) for _ in range(n)]
            fs = sorted(set(fs))
            lo = rng.choice(fs + [rng.uniform(0, 3)])
            hi = rng.choice([f for f in fs if f >= lo] + [lo + rng.uniform(0, 2)])
            yield {"closed": rng.choice(list(CLOSED)), "lo": lo, "hi": hi, "freqs": fs}

    @reg.rt("selection", g_select, [BF + "_indices_from_frequencies", BF + "set_indices_from_frequencies", BF + "in_band_harmonics", BF + "harmonic_indices"], "axes of up to 12 frequencies")
    def selection(inp):
        lo, hi, closed = inp["lo"], inp["hi"], inp["closed"]
        if not lo <= hi:
            raise Skip
        f = np.array(inp["freqs"], dtype=float)
        keep = f.copy()
        b = Band(frequency_min=lo, frequency_max=hi, closed=closed, decimation_level=0)
        want = [i for i, v in enumerate(inp["freqs"]) if within(lo, hi, closed, v)]
        require(list(b._indices_from_frequencies(f)) == want, "the harmonics selected are not those in the band")
        require(list(b.in_band_harmonics(f)) == [inp["freqs"][i] for i in want], "frequencies of the band")
        require((b.lower_closed, b.upper_closed) == CLOSED[closed], "closed ends")
        if want:
            b.set_indices_from_frequencies(f)
            require((b.index_min, b.index_max) == (want[0], want[-1]), "index range of the band")
            require(list(b.harmonic_indices) == list(range(want[0], want[-1] + 1)), "harmonic indices")
        else:
            try:
                b.set_indices_from_frequencies(f)
            except Exception:
                pass
            else:
                require(False, "a band without harmonics gets indices")
        require((b.frequency_min, b.frequency_max, b.closed) == (lo, hi, closed), "the band changed")
        require(np.array_equal(f, keep), "the frequencies changed")

    def g_geo(rng, tier):
        while True:
            lo = 10 ** rng.uniform(-5, 3)
            a = rng.randint(0, 50)
            yield {"lo": lo, "hi": rng.choice([lo, lo * (1 + rng.random() * 3)]), "kind": rng.choice(["geometric", "arithmetic"]), "closed": rng.choice(list(CLOSED)), "a": a, "z": a + rng.randint(0, 20)}

    @reg.rt("geometry", g_geo, [BF + x for x in ("center_frequency", "width", "Q", "harmonic_indices", "fractional_bandwidth", "center_period")], "positive edges")
    def geometry(inp):
        lo, hi = inp["lo"], inp["hi"]
        if not 0 < lo <= hi:
            raise Skip
        b = Band(frequency_min=lo, frequency_max=hi, closed=inp.get("closed", "left"), decimation_level=0, center_averaging_type=inp.get("kind", "geometric"), index_min=inp.get("a", 0), index_max=inp.get("z", 3))
        c = (lo * hi) ** 0.5 if inp.get("kind", "geometric") == "geometric" else (lo + hi) / 2
        require(close(b.center_frequency, c, abs_=0), "center frequency")
        require(close(b.center_period, 1 / c, abs_=0), "center period")
        require(close(b.width, hi - lo, abs_=1e-12 * hi), "width")
        require(close(b.fractional_bandwidth, (hi - lo) / c, abs_=1e-9), "fractional bandwidth")
        if hi == lo:
            require(b.Q == float("inf"), "quality of a band without width")
        else:
            require(close(b.Q, c / (hi - lo)), "quality")
        require(list(b.harmonic_indices) == list(range(inp.get("a", 0), inp.get("z", 3) + 1)), "harmonic indices")
        require(b.name == f"{(lo + hi) / 2:.6f}", "name of an unnamed band")
        require(Band(frequency_min=lo, frequency_max=hi, name="mine").name == "mine", "given name")

    def g_two(rng, tier):
        v = [0.0, 0.5, 1.0, 1.5, 2.0, 3.0]
        while True:
            a = sorted(rng.choice(v) for _ in range(2))
            b = sorted(rng.choice(v) for _ in range(2))
            yield {"a": a + [rng.choice(list(CLOSED))], "b": b + [rng.choice(list(CLOSED))]}

    @reg.rt("two bands", g_two, [BF + "overlaps", BF + "contains"], "edges on a grid")
    def two(inp):
        (l1, h1, c1), (l2, h2, c2) = inp["a"], inp["b"]
        if not (l1 <= h1 and l2 <= h2):
            raise Skip
        a, b = Band(frequency_min=l1, frequency_max=h1, closed=c1), Band(frequency_min=l2, frequency_max=h2, closed=c2)
        require(bool(a.contains(b)) == (within(l1, h1, c1, l2) and within(l1, h1, c1, h2)), "contains")
        if l1 < h1 and l2 < h2:
            m = (max(l1, l2) + min(h1, h2)) / 2
            require(bool(a.overlaps(b)) == (within(l1, h1, c1, m) and within(l2, h2, c2, m)), "overlaps")
            require(bool(a.overlaps(b)) == bool(b.overlaps(a)), "overlap is symmetric")

    def g_h(rng, tier):
        while True:
            yield {"n": rng.randint(1, 300), "fs": rng.choice([1.0, 8.0, 4096.0, rng.uniform(0.001, 1000)])}

    @reg.rt("harmonics", g_h, [WF + "get_fft_harmonics", DL + "get_fft_harmonics", WF + "Window.fft_harmonics", DL + "DecimationLevel.fft_frequencies"], "windows of up to 300 samples")
    def harm(inp):
        n, fs = inp["n"], inp["fs"]
        if n < 1 or fs <= 0:
            raise Skip
        want = [k * fs / n for k in range(n // 2)]
        d, fc = DecimationLevel(), FCDecimation()
        d.decimation.sample_rate = fc.time_series_decimation.sample_rate = fs
        d.stft.window.num_samples = fc.stft.window.num_samples = n
        for nm, v in (("window module", get_fft_harmonics(n, fs)), ("decimation level module", dl_harmonics(n, fs)), ("window", Window(num_samples=n).fft_harmonics(fs)),
                      ("level", d.fft_frequencies), ("Fourier coefficient level", fc.fft_frequencies)):
            require(len(v) == len(want) and np.allclose(v, want, rtol=1e-12, atol=0), f"harmonics of the {nm}")
        require(close(d.frequency_sample_interval, fs / n, abs_=0), "spacing")

    def g_coll(rng, tier):
        while True:
            yield {"seed": rng.randrange(10**9), "n": rng.randint(0, 6), "how": rng.choice(["array", "frame", "setter"]), "by": rng.choice(["lower_bound", "upper_bound", "center_frequency", None]),
                   "direction": rng.choice(["increasing_frequency", "increasing_period"]), "ties": rng.random() < 0.4}

    @reg.rt("collection", g_coll, [FB + x for x in ("bands", "band", "sort", "band_edges", "band_centers", "validate")], "up to 6 bands")
    def collection(inp):
        import random

        rng = random.Random(inp["seed"])
        rows = []
        for _ in range(inp["n"]):
            lo = rng.choice([0.5, 1.0, 2.0]) if inp["ties"] else rng.uniform(0.001, 10)
            rows.append((lo, lo * (rng.choice([1.5, 2.0, 4.0]) if inp["ties"] else 1 + 3 * rng.random())))
        arr = np.array(rows, dtype=float).reshape(-1, 2)
        if inp["how"] == "frame":
            given = pd.DataFrame({"upper_bound": arr[:, 1], "extra": 1, "lower_bound": arr[:, 0]}, index=list(range(10, 10 + len(rows))))
        else:
            given = arr.copy()
        keep = given.copy()
        c = FrequencyBands(given) if inp["how"] != "setter" else FrequencyBands()
        if inp["how"] == "setter":
            c.band_edges = given
        pair = lambda bs: [(b.lower_bound, b.upper_bound) for b in bs]
        center = lambda r: (r[0] * r[1]) ** 0.5
        keyf = {"lower_bound": lambda r: r[0], "upper_bound": lambda r: r[1], "center_frequency": center}
        require(c.number_of_bands == len(rows), "number of bands")
        require(pair(c.bands()) == rows and pair(c.band(i) for i in range(len(rows))) == rows, "bands in the order given")
        require([tuple(r) for r in c.array] == rows, "band edges")
        require(np.allclose(c.band_centers(), [center(r) for r in rows]), "centers")
        require(np.allclose(c.band_centers("period"), [1 / center(r) for r in rows]), "center periods")
        by, direction = inp["by"], inp["direction"]
        got = pair(c.bands(direction=direction, sortby=by))
        require(got == pair(c.bands(direction=direction, sortby=by, rtype="generator")), "list and generator")
        require(sorted(got) == sorted(rows), "every band once")
        if by or direction == "increasing_period":
            k = [keyf[by or "center_frequency"](r) for r in got]
            require(all((a <= b * (1 + 1e-12)) if direction == "increasing_frequency" else (a >= b * (1 - 1e-12)) for a, b in zip(k, k[1:])), "sorted by the criterion in the direction")
        else:
            require(got == rows, "kept in order")
        require(pair(c.bands()) == rows, "iterating changed the collection")
        if by:
            for asc in (True, False):
                s = FrequencyBands(given)
                s.sort(by=by, ascending=asc)
                got = pair(s.bands())
                k = [keyf[by](r) for r in got]
                require(sorted(got) == sorted(rows) and all((a <= b * (1 + 1e-12)) if asc else (a >= b * (1 - 1e-12)) for a, b in zip(k, k[1:])), "sorting")
                require(pair(s.band(i) for i in range(len(rows))) == got, "i-th band")
        v = FrequencyBands(given)
        v.validate()
        k = [center(r) for r in pair(v.bands())]
        require(sorted(pair(v.bands())) == sorted(rows) and all(a <= b * (1 + 1e-12) for a, b in zip(k, k[1:])), "validated bands rise in center frequency")
        require(given.equals(keep) if inp["how"] == "frame" else np.array_equal(given, keep), "the given edges changed")

    def g_level(rng, tier):
        while True:
            yield {"seed": rng.randrange(10**9), "n": rng.randint(0, 6)}

    @reg.rt("level", g_level, [DL + "DecimationLevel." + x for x in ("add_band", "lower_bounds", "upper_bounds", "bands_dataframe", "band_edges", "frequency_bands_obj", "harmonic_indices")] + [DL + "_df_from_bands"], "up to 6 bands")
    def level(inp):
        import random

        rng = random.Random(inp["seed"])
        d = DecimationLevel()
        info = []
        cuts = sorted(rng.sample(range(0, 60), 2 * inp["n"]))
        pairs = [(cuts[2 * i], cuts[2 * i + 1]) for i in range(inp["n"])]
        rng.shuffle(pairs)
        given = []
        for a, z in pairs:
            lo, hi = a * 0.5 + rng.random() / 9, z * 0.5 + 0.2
            kw = dict(decimation_level=2, index_min=a, index_max=z, frequency_min=lo, frequency_max=hi)
            b = Band(**kw)
            given.append(b.to_dict() if rng.random() < 0.3 else b)
            info.append((a, z, lo, hi))
        if rng.random() < 0.3:
            d.bands = given
        else:
            for g in given:
                d.add_band(g)
        require([(b.index_min, b.index_max, b.frequency_min, b.frequency_max) for b in d.bands] == info, "bands of the level in the order added")
        require(list(d.lower_bounds) == sorted(r[0] for r in info) and list(d.upper_bounds) == sorted(r[1] for r in info), "index bounds")
        require(list(d.harmonic_indices) == sorted(i for r in info for i in range(r[0], r[1] + 1)), "harmonic indices")
        df = d.bands_dataframe
        require([tuple(x) for x in df[["lower_bound_index", "upper_bound_index", "frequency_min", "frequency_max"]].values.tolist()] == sorted(info), "table of the bands")
        require(set(df["decimation_level"]) <= {3}, "EMTF decimation level of the table")
        require([tuple(x) for x in d.band_edges] == [r[2:] for r in sorted(info)], "band edges")
        require([(b.lower_bound, b.upper_bound) for b in d.frequency_bands_obj().bands()] == [r[2:] for r in sorted(info)], "band collection of the level")
        require([(b.index_min, b.index_max) for b in d.bands] == [r[:2] for r in info], "asking changed the level")

    def g_assign(rng, tier):
        while True:
            yield {"seed": rng.randrange(10**9), "levels": rng.randint(1, 4), "one": rng.random() < 0.5}

    @reg.rt("assigning bands", g_assign, [PF + "assign_bands", PF + "band_edges_dict", PF + "get_decimation_level", PF + "add_decimation_level"], "up to 4 levels")
    def assigning(inp):
        import random

        rng = random.Random(inp["seed"])
        fs = rng.choice([1.0, 8.0, 150.0, rng.uniform(1, 1000)])
        f = rng.choice([1, 2, 3, 4, 5])
        factors = {k: (1 if k == 0 else f) for k in range(inp["levels"])}
        sizes = {k: rng.choice([64, 128, 255, 256]) for k in range(inp["levels"])}
        size = rng.choice([64, 100, 128])
        edges, expect = {}, {}
        order = list(range(inp["levels"]))
        rng.shuffle(order)
        for k in order:
            n = size if inp["one"] else sizes[k]
            rate = fs / f**k
            axis = [i * (rate / n) for i in range(n // 2)]
            rows, want = [], []
            for _ in range(rng.randint(1, 4)):
                a = rng.randint(1, n // 2 - 6)
                z = rng.randint(a + 1, n // 2 - 2)
                lo, hi = (a - 0.5) * rate / n, (z + 0.5) * rate / n
                rows.append((lo, hi))
                want.append((a, z))
            edges[k], expect[k] = rows, want
        c = Processing()
        first = DecimationLevel()
        first.decimation.level = 9
        if rng.random() < 0.4:
            c.add_decimation_level(first)
        had = len(c.decimations)
        ed = {k: (np.array(v) if rng.random() < 0.5 else list(v)) for k, v in edges.items()}
        c.assign_bands(ed, fs, factors, size if inp["one"] else sizes)
        require(len(c.decimations) == had + inp["levels"] == c.num_decimation_levels, "one level is added per key")
        require([d.decimation.level for d in c.decimations] == [9] * had + sorted(edges), "levels in order")
        for k in edges:
            d = c.get_decimation_level(k)
            require(d is [x for x in c.decimations if x.decimation.level == k][0], "level by its number")
            require(d.decimation.factor == factors[k], "factor")
            require(close(d.decimation.sample_rate, fs / f**k, abs_=0), "sample rate of the level")
            require(d.stft.window.num_samples == (size if inp["one"] else sizes[k]), "window length")
            require([(b.frequency_min, b.frequency_max) for b in d.bands] == [tuple(r) for r in edges[k]], "bands of the level")
            require([b.decimation_level for b in d.bands] == [k] * len(edges[k]), "decimation level of the bands")
            require([(b.index_min, b.index_max) for b in d.bands] == expect[k], "index ranges of the bands")
        for j, d in enumerate(c.decimations):
            require(np.array_equal(np.array(c.band_edges_dict[j]), np.array(d.band_edges)), "edges by position")
