"""Windows, decimation cascades, processing levels and stored Fourier coefficients."""

ASSUMPTIONS = [
    "scipy.signal.get_window returns the taper of the type, arguments and length it is given",
    "numpy.sum of an array is a function of its values and length",
]
WF = "mt_metadata/processing/window.py:Window."
DL = "mt_metadata/processing/aurora/decimation_level.py:DecimationLevel."
PF = "mt_metadata/processing/aurora/processing.py:Processing."
FC = "mt_metadata/processing/fourier_coefficients/decimation.py:"
CHECKED = ("sample_rate", "method", "prewhitening_type", "recoloring", "pre_fft_detrend_type", "min_num_stft_windows", "window")


def contracts():
    from mt_metadata.common import TimePeriod
    from mt_metadata.processing import window as wm
    from mt_metadata.processing.aurora.decimation_level import DecimationLevel
    from mt_metadata.processing.aurora.processing import Processing
    from mt_metadata.processing.fourier_coefficients import decimation as fcm
    from mt_metadata.processing.fourier_coefficients.decimation import Decimation as FCDecimation
    from pyvc import core
    from pyvc.api import And, Collect, Contract, I, Implies, Not, Or, R, SymArray, SymBool, SymNum, SymObj, SymSeq, SymStr, eq, num_z3, put, raises, z3
    from pyvc.helpers import Inv, SymOpaque, VList
    from pyvc.npmodel import np_sum

    out = []
    T = lambda b: SymBool(z3.BoolVal(bool(b)))
    lift = lambda v: v if isinstance(v, SymBool) else T(v)

    # --------------------------------------------------------------- window
    def h_adv(p):
        w = wm.Window()
        n, o = p.int("n"), p.int("o")
        put(w, num_samples=n, overlap=o)
        p.check("advance is the length minus the overlap", eq(w.num_samples_advance, n - o))

    rp_w = lambda m: {"n": m.get("n", 8), "o": m.get("o", 2), "m": m.get("m", 1), "N": m.get("N", 8)}
    out.append(Contract("advance of a window", WF + "num_samples_advance", h_adv, replay=("window numbers", rp_w)))

    def h_fit(p):
        d = FCDecimation()
        n, o, m, N = p.int("n"), p.int("o"), p.int("m"), p.int("N")
        p.assume(And(n >= 1, o >= 0, o < n, m >= 1, N >= 0))
        put(d.short_time_fourier_transform.window, num_samples=n, overlap=o)
        put(d.short_time_fourier_transform, min_num_stft_windows=m)
        r = lift(d.is_valid_for_time_series_length(N))
        # the last of m windows starts at (m - 1) advances and needs n samples
        p.check("long enough exactly when the last window fits", eq(r, (m - 1) * (n - o) + n <= N))

    out.append(Contract("length needed for the minimum number of windows", FC + "Decimation.is_valid_for_time_series_length", h_fit, replay=("window numbers", rp_w)))

    def mk_taper(normal, change):
        def h(p):
            n, n2 = p.int("n"), p.int("n2")
            p.assume(And(n >= 1, n2 >= 1, Not(eq(n, n2))))
            a1 = p.real("a1")
            calls = []
            g = z3.Function("taper", I, I, I, R)

            class Sig:
                @staticmethod
                def get_window(args, k, *r, **kw):
                    if not isinstance(args, tuple):
                        args = (args,)
                    calls.append((args, k))
                    c = len(calls)
                    return SymArray(k, lambda i, c=c, k=k: SymNum(g(z3.IntVal(c), num_z3(k), i)))

            old = wm.ssig
            wm.ssig = Sig
            try:
                w = wm.Window(type="kaiser", normalized=normal)
                put(w, num_samples=n, additional_args={"beta": a1})
                t = w.taper()
                i = p.index(t)
                first = t.at(i)
                want = SymArray(n, lambda k: SymNum(g(z3.IntVal(1), num_z3(n), k)))
                s = np_sum(want)
                if normal:
                    p.check("normalised taper is divided by its sum", Implies(Not(eq(s, 0)), eq(first * s, want.at(i))))
                else:
                    p.check("taper as it is", eq(first, want.at(i)))
                p.check("one coefficient per sample", eq(t.n, n))
                p.check("of the type, arguments and length of the window", And(T(len(calls) == 1 and len(calls[0][0]) == 2 and calls[0][0][0] == "kaiser"), eq(calls[0][0][1], a1), eq(calls[0][1], n)))
                again = w.taper()
                p.check("the same taper when nothing changed", eq(again.at(i), first))
                if change == "type":
                    w.type = "hann"
                    put(w, additional_args={})
                elif change == "length":
                    put(w, num_samples=n2)
                elif change == "normalisation":
                    w.normalized = not normal
                else:
                    a2 = p.real("a2")
                    p.assume(Not(eq(a1, a2)))
                    put(w, additional_args={"beta": a2})
                k = len(calls)
                t2 = w.taper()
                if change == "normalisation":
                    c = len(calls)
                    base = SymArray(n, lambda q: SymNum(g(z3.IntVal(c), num_z3(n), q)))
                    j = p.index(t2, "j")
                    s2 = np_sum(base)
                    p.check("taper follows the normalisation", Implies(Not(eq(s2, 0)), eq(t2.at(j) * s2, base.at(j))) if not normal else eq(t2.at(j), base.at(j)))
                else:
                    p.check("taper is made again after a change", len(calls) == k + 1)
                    args, m = calls[-1]
                    p.check("with the new type, arguments and length", And(T(args[0] == ("hann" if change == "type" else "kaiser") and len(args) == (1 if change == "type" else 2)),
                                                                        eq(m, n2 if change == "length" else n), eq(t2.n, m), eq(args[1], a2) if change == "arguments" else T(True)))
            finally:
                wm.ssig = old

        return h

    for normal in (True, False):
        for change in ("type", "length", "arguments", "normalisation"):
            out.append(Contract(f"taper {'normalised' if normal else 'plain'}, then another {change}", WF + "taper", mk_taper(normal, change),
                                replay=("taper", lambda m, normal=normal, change=change: {"seed": 1, "type": "kaiser", "n": 8, "normal": normal, "change": change})))

    # -------------------------------------------------------------- cascade
    def mk_cascade(period):
        def h(p):
            fs = p.real("fs")
            f = z3.Function("factor", I, R)
            rate = z3.Function("rate", I, R)

            def elem(i):
                p.fact(z3.Implies(i >= 0, f(i) > 0))
                return SymNum(f(i))

            fac = p.seq("factors", elem, minlen=1)
            p.assume(fs > 0)
            p.add(rate(0) == num_z3(fs))
            tp = TimePeriod(start="2020-01-01T00:00:00", end="2020-01-02T00:00:00") if period else None

            def construct(*a, **k):
                if a or k:
                    raise core.Unsupported("levels built another way")
                return FCDecimation()

            def good(d, i):
                t = d.time_series_decimation
                lab = d.id if isinstance(d.id, SymStr) else SymStr(z3.StringVal(d.id))
                return And(eq(SymNum(num_z3(t.level)), SymNum(i)), eq(t.factor, SymNum(f(i))), eq(t.sample_rate, SymNum(rate(i))),
                           eq(lab, SymStr(z3.IntToStr(i))), T(not period or (d.time_period.start == tp.start and d.time_period.end == tp.end)))

            def make(i):
                d = FCDecimation()
                put(d, id=SymStr(z3.IntToStr(i)))
                put(d.time_series_decimation, level=SymNum(i), factor=SymNum(f(i)), sample_rate=SymNum(rate(i)))
                if period:
                    put(d, time_period=tp)
                return d

            used = []

            def spec(loop, loc, names):
                live = [n for n in names if "rate" in n and n not in ("initial_sample_rate",)]
                lists = []
                for v in loc.values():
                    if type(v) is VList and v.sym is None and list.__len__(v) == 0 and not any(v is c for c in lists):
                        lists.append(v)
                if len(live) != 1 or len(lists) != 1:
                    raise core.Unsupported("no running rate and result list")
                v, lst = live[0], lists[0]
                used.append(lst)

                def havoc(i, env):
                    lst.sym = SymSeq(SymNum(i), make, "levels so far")
                    p.fact(z3.Implies(i >= 1, rate(i) * f(i) == rate(i - 1)))
                    elem(i)
                    return {v: SymNum(rate(i - 1))}

                def inv(i, env):
                    s = lst.sym
                    if s is None:
                        return T(z3.is_int_value(i) and i.as_long() == 0)
                    r = eq(s.n, SymNum(i))
                    if getattr(s, "prefix", None) is not None:
                        r = And(r, good(s.last, i - 1))
                    if v in env and isinstance(env[v], SymNum):
                        r = And(r, Or(SymBool(i <= 0), eq(env[v], SymNum(rate(i - 1)))))
                    return r

                iv = Inv("levels so far, running rate is that of the last", [], havoc, inv)
                iv.may_modify = lambda x: x is lst
                return iv

            p.loop_specs["*"] = spec
            p.loop_specs[("construct", "Decimation")] = construct
            r = fcm.fc_decimations_creator(fs, fac, time_period=tp)
            if not used:
                for i, d in enumerate(r):
                    if i:
                        p.fact(rate(i) * f(i) == rate(i - 1))
                    p.check("levels", good(d, z3.IntVal(i)))
                p.check("one level per factor", len(r) == len(fac))
                return
            s = r.sym
            i = z3.Int("any")
            p.assume(z3.And(i >= 0, i < fac.n.e))
            p.check("one level per factor", eq(s.n, fac.n))
            p.check("levels numbered from 0, each rate the one before over the factor", good(s.at(i), i))

        return h

    for period in (False, True):
        out.append(Contract(f"cascade of decimations{' with a time period' if period else ''}", FC + "fc_decimations_creator", mk_cascade(period),
                            replay=("cascade", lambda m: {"fs": 8.0, "factors": [1.0, 4.0, 2.0], "period": True})))

    def h_default(p):
        fs = p.real("fs")
        p.assume(fs > 0)
        r = fcm.fc_decimations_creator(fs, max_levels=3)
        p.check("default cascade", len(r) == 3)
        d = 1
        for i, x in enumerate(r):
            d *= 4 if i else 1
            p.check("default levels", And(T(x.time_series_decimation.level == i and x.time_series_decimation.factor == (4 if i else 1)), eq(x.time_series_decimation.sample_rate * d, fs)))

    out.append(Contract("default cascade", FC + "fc_decimations_creator", h_default, replay=("cascade", lambda m: {"fs": 8.0, "factors": None, "period": False})))

    # --------------------------------------------------- levels of a configuration
    def h_levels(p):
        seq = p.seq("levels", lambda i: SymObj(DecimationLevel, key=SymNum(i)))
        p.loop_specs["*"] = lambda loop, loc, names: Collect("each level once", lambda i: SymObj(DecimationLevel, key=SymNum(i)), equal=lambda a, b: eq(a.key, b.key))
        r = Processing.validate_decimations(seq, None)
        s = r.sym if type(r) is VList else None
        if s is None:
            p.check("each level once, in order", And(T(isinstance(seq, list) and len(r) == len(seq)), *[eq(a.key, b.key) for a, b in zip(r, seq)]))
            return
        i = z3.Int("any")
        p.assume(z3.And(i >= 0, i < seq.n.e))
        p.check("as many levels as given", eq(s.n, seq.n))
        p.check("each level once, in order", eq(s.at(i).key, SymNum(i)))

    out.append(Contract("levels given to a configuration", PF + "validate_decimations", h_levels, replay=("levels", lambda m: {"seed": 1, "n": 2, "form": "list"})))

    def h_emtf(p):
        fs = p.real("fs")
        p.assume(fs > 0)
        c = Processing()
        ls = []
        for k in range(3):
            d = DecimationLevel()
            d.decimation.level = k
            ls.append(d)
        put(c, decimations=[ls[1], ls[0], ls[2]])
        c.assign_decimation_level_data_emtf(fs)
        for k, d in enumerate(ls):
            p.check("rate and factor of a level", And(eq(d.decimation.sample_rate * 4**k, fs), T(d.decimation.factor == (4 if k else 1))))

    out.append(Contract("EMTF decimation", PF + "assign_decimation_level_data_emtf", h_emtf, replay=("levels", lambda m: {"seed": 1, "n": 3, "form": "list"})))

    # ------------------------------------------------- stored coefficients
    class Win(SymOpaque):
        """a window, equal to another or not"""

        pytype = wm.Window

        def __init__(self, same):
            self.same = same

        def __eq__(self, o):
            return self.same if o is not self else True

        def __ne__(self, o):
            return Not(self == o)

        __hash__ = None

        def text(self, spec=""):
            return SymStr(z3.StringVal("a window"))

    HARM = ([None], [-1], [[-1]], [[0, 1, 2, 3, 4]], [[1, 2]], [3])

    def level(p, harm=(2, 3)):
        d = DecimationLevel(input_channels=["hx", "hy"], output_channels=["ex"], reference_channels=["rx", "ry"])
        from mt_metadata.common.band import Band

        if harm:
            d.bands.append(Band(decimation_level=0, index_min=harm[0], index_max=harm[1], frequency_min=1.0, frequency_max=2.0))
        return d

    def mk_consistent(remote):
        def h(p):
            d = level(p)
            fc = FCDecimation()
            names = ["hx", "hy", "ex", "hz"] if not remote else ["rx", "ry"]
            miss = p.choose(2, "channel missing")
            hv = HARM[p.choose(len(HARM), "harmonics")][0]
            kept = hv is None or hv == -1 or hv == [-1] or {2, 3} <= set(hv if isinstance(hv, list) else [hv])
            put(fc, channels_estimated=names[1:] if miss else names)
            vals = {}
            same = p.bool("same window")
            for nm in CHECKED:
                if nm == "window":
                    a, b = Win(same), Win(same)
                elif nm == "recoloring":
                    a, b = p.bool("rec1"), p.bool("rec2")
                elif nm == "sample_rate":
                    a, b = p.real("fs1"), p.real("fs2")
                elif nm == "min_num_stft_windows":
                    a, b = p.int("w1"), p.int("w2")
                else:
                    a, b = p.string(nm + "1"), p.string(nm + "2")
                vals[nm] = same if nm == "window" else eq(a, b)
                put(d.decimation if nm == "sample_rate" else d.stft, **{nm: a})
                put(fc.time_series_decimation if nm == "sample_rate" else fc.short_time_fourier_transform, **{nm: b})
            put(fc.short_time_fourier_transform, harmonic_indices=hv)
            r = lift(d.is_consistent_with_archived_fc_parameters(fc, remote))
            p.check("accepted exactly when everything agrees", eq(r, And(T(not miss and kept), *vals.values())))

        return h

    for remote in (False, True):
        out.append(Contract(f"stored coefficients of the {'remote' if remote else 'local'} station", DL + "is_consistent_with_archived_fc_parameters", mk_consistent(remote),
                            replay=("stored coefficients", lambda m, remote=remote: {"seed": 1, "remote": remote, "differ": None, "harm": "all", "filter": "same"})))

    def h_alias(p):
        d, fc = level(p), FCDecimation()
        put(fc, channels_estimated=["hx", "hy", "ex"])
        mine = p.string("mine")
        put(d.decimation, anti_alias_filter=mine)
        how = p.choose(2, "theirs")
        theirs = p.string("theirs") if how else None
        put(fc.time_series_decimation, anti_alias_filter=theirs)
        agree = eq(mine, theirs) if how else eq(mine, SymStr(z3.StringVal("default")))
        e = []
        try:
            r = d.is_consistent_with_archived_fc_parameters(fc, False)
        except NotImplementedError as err:
            e.append(err)
        p.check("another anti alias filter is refused, never accepted", eq(T(not e), agree))
        if not e:
            p.check("everything else agrees", lift(r))

    out.append(Contract("anti alias filters", DL + "is_consistent_with_archived_fc_parameters", h_alias,
                        replay=("stored coefficients", lambda m: {"seed": 1, "remote": False, "differ": None, "harm": "all", "filter": "other"})))

    def mk_made(remote, ignore):
        def h(p):
            d = level(p)
            same = p.bool("same window")
            p.assume(same)
            vals = {"window": Win(same), "recoloring": p.bool("rec"), "min_num_stft_windows": p.int("w"), "method": p.string("method"),
                    "prewhitening_type": p.string("pre"), "pre_fft_detrend_type": p.string("det")}
            put(d.stft, **vals)
            fs, fac, aaf, lev = p.real("fs"), p.real("fac"), p.string("aaf"), p.int("lev")
            p.assume(lev >= 0)
            put(d.decimation, sample_rate=fs, factor=fac, anti_alias_filter=aaf, level=lev)
            fc = d.to_fc_decimation(remote=remote, ignore_harmonic_indices=ignore)
            t, s = fc.time_series_decimation, fc.short_time_fourier_transform
            p.check("decimation is taken over", And(eq(t.sample_rate, fs), eq(t.factor, fac), eq(t.anti_alias_filter, aaf), eq(t.level, lev)))
            for nm, v in vals.items():
                if nm != "window":
                    p.check(f"{nm} is taken over", eq(getattr(s, nm), v))
            p.check("channels", fc.channels_estimated == (["rx", "ry"] if remote else ["hx", "hy", "ex"]))
            p.check("harmonics", s.harmonic_indices is None if ignore else s.harmonic_indices == [2, 3])
            p.check("they agree with the level they were made from", lift(d.is_consistent_with_archived_fc_parameters(fc, remote)))

        return h

    for remote in (False, True):
        for ignore in (True, False):
            out.append(Contract(f"coefficient parameters of a level, {'remote' if remote else 'local'}, {'all' if ignore else 'needed'} harmonics",
                                [DL + "to_fc_decimation", DL + "is_consistent_with_archived_fc_parameters"], mk_made(remote, ignore),
                                replay=("made from a level", lambda m, remote=remote, ignore=ignore: {"seed": 1, "remote": remote, "ignore": ignore})))
    return out


# ------------------------------------------------------------------ runtime
def runtime(reg):
    import random

    import numpy as np
    import scipy.signal as ssig
    from mt_metadata.common import TimePeriod
    from mt_metadata.common.band import Band
    from mt_metadata.processing.aurora.decimation_level import DecimationLevel
    from mt_metadata.processing.aurora.processing import Processing
    from mt_metadata.processing.aurora.station import Station
    from mt_metadata.processing.fourier_coefficients.decimation import Decimation as FCDecimation, fc_decimations_creator, get_degenerate_fc_decimation
    from mt_metadata.processing.window import Window
    from pyvc.rt import Skip, close, require

    try:
        from loguru import logger

        logger.remove()
    except ImportError:
        pass

    def g_w(rng, tier):
        while True:
            n = rng.randint(1, 300)
            o = rng.randint(0, n - 1)
            m = rng.randint(1, 12)
            need = n + (m - 1) * (n - o)
            yield {"n": n, "o": o, "m": m, "N": max(0, need + rng.choice([-1, 0, 1, rng.randint(-need, 400)]))}

    @reg.rt("window numbers", g_w, [WF + "num_samples_advance", FC + "Decimation.is_valid_for_time_series_length"], "windows of up to 300 samples")
    def numbers(inp):
        n, o, m, N = inp["n"], inp["o"], inp["m"], inp["N"]
        if not (n >= 1 and 0 <= o < n and m >= 1):
            raise Skip
        d = FCDecimation()
        d.stft.window.num_samples, d.stft.window.overlap, d.stft.min_num_stft_windows = n, o, m
        require(d.stft.window.num_samples_advance == n - o, "advance")
        windows = 0 if N < n else 1 + (N - n) // (n - o)
        require(bool(d.is_valid_for_time_series_length(N)) == (windows >= m), "long enough exactly when the minimum number of windows fits")

    TYPES = {"boxcar": [], "triang": [], "blackman": [], "hamming": [], "hann": [], "bartlett": [], "flattop": [], "parzen": [], "bohman": [], "blackmanharris": [], "nuttall": [], "barthann": [],
             "kaiser": [3.5], "gaussian": [2.0], "general_gaussian": [1.5, 2.0], "dpss": [1.5], "chebwin": [60.0]}

    def g_t(rng, tier):
        while True:
            yield {"seed": rng.randrange(10**9), "type": rng.choice(list(TYPES)), "n": rng.randint(6, 64), "normal": rng.random() < 0.6, "change": rng.choice(["type", "length", "arguments", "normalisation"])}

    @reg.rt("taper", g_t, [WF + "taper"], "windows of up to 64 samples")
    def taper(inp):
        rng = random.Random(inp["seed"])
        args = lambda t: {f"a{i}": v for i, v in enumerate(TYPES[t])}
        w = Window(type=inp["type"], num_samples=inp["n"], normalized=inp["normal"], additional_args=args(inp["type"]))

        def right(t, n, normal, av, why):
            v = ssig.get_window((t, *av), n)
            got = w.taper()
            require(len(got) == n and np.allclose(got, v / v.sum() if normal else v, rtol=1e-10, atol=1e-14), why)
            if normal:
                require(abs(float(np.sum(got)) - 1) < 1e-9, "normalised taper sums to 1")

        t, n, normal, av = inp["type"], inp["n"], inp["normal"], TYPES[inp["type"]]
        right(t, n, normal, av, "taper of the window")
        right(t, n, normal, av, "taper again")
        c = inp["change"]
        if c == "type":
            t = rng.choice([x for x in TYPES if x != t])
            av = TYPES[t]
            w.type = t
            w.additional_args = args(t)
        elif c == "length":
            n = n + 3
            w.num_samples = n
        elif c == "arguments":
            if not av:
                raise Skip
            av = [v + 0.5 for v in av]
            w.additional_args = {f"a{i}": v for i, v in enumerate(av)}
        else:
            normal = not normal
            w.normalized = normal
        right(t, n, normal, av, f"taper after another {c}")

    def g_c(rng, tier):
        while True:
            yield {"fs": rng.choice([1.0, 8.0, 4096.0, rng.uniform(0.1, 1000)]), "factors": rng.choice([None, [rng.choice([1.0, 2.0, 4.0, 5.0, 1.5]) for _ in range(rng.randint(1, 6))]]), "period": rng.random() < 0.5}

    @reg.rt("cascade", g_c, [FC + "fc_decimations_creator", FC + "get_degenerate_fc_decimation"], "up to 6 levels")
    def cascade(inp):
        fs, factors = inp["fs"], inp["factors"]
        tp = TimePeriod(start="2020-01-01T00:00:00", end="2020-01-02T00:00:00") if inp["period"] else None
        keep = list(factors) if factors else None
        r = fc_decimations_creator(fs, factors, time_period=tp) if factors else fc_decimations_creator(fs, max_levels=4, time_period=tp)
        require(factors == keep, "the factors changed")
        want = factors or [1, 4, 4, 4]
        require(len(r) == len(want), "one level per factor")
        rate = fs
        for i, (d, f) in enumerate(zip(r, want)):
            rate = rate / f if i else fs
            t = d.time_series_decimation
            require((t.level, t.factor, d.id) == (i, f, str(i)), "number, factor and id of a level")
            require(close(t.sample_rate, rate, abs_=0), "sample rate of a level")
            if tp is not None:
                require(d.time_period.start == tp.start and d.time_period.end == tp.end, "time period of a level")
        g = get_degenerate_fc_decimation(fs)
        require(len(g) == 1 and g[0].time_series_decimation.level == 0 and close(g[0].time_series_decimation.sample_rate, fs, abs_=0) and g[0].time_series_decimation.factor == 1, "single level")

    def g_l(rng, tier):
        while True:
            yield {"seed": rng.randrange(10**9), "n": rng.randint(0, 5), "form": rng.choice(["list", "dict", "one", "add", "mixed", "constructor", "reload"])}

    @reg.rt("levels", g_l, [PF + x for x in ("validate_decimations", "add_decimation_level", "get_decimation_level", "decimations_dict", "assign_decimation_level_data_emtf", "set_input_channels", "validate_processing")], "up to 5 levels")
    def levels(inp):
        rng = random.Random(inp["seed"])
        n, form = inp["n"], inp["form"]
        if form == "one":
            n = 1
        ls = []
        nums = list(range(n))
        rng.shuffle(nums)
        for k in nums:
            d = DecimationLevel()
            d.decimation.level = k
            d.decimation.sample_rate = 10.0 + k
            d.stft.window.num_samples = 100 + k
            d.estimator.engine = rng.choice(["RME_RR", "RME"])
            d.reference_channels = ["rx", "ry"]
            ls.append(d)
        engines = [d.estimator.engine for d in ls]
        c = Processing()
        if form == "list":
            c.decimations = list(ls)
        elif form == "dict":
            c.decimations = {d.decimation.level: d for d in ls}
        elif form == "one":
            c.decimations = ls[0]
        elif form == "constructor":
            c = Processing(decimations=list(ls))
        elif form == "mixed":
            c.decimations = [d.to_dict() if i % 2 else d for i, d in enumerate(ls)]
        else:
            for i, d in enumerate(ls):
                c.add_decimation_level(d if i % 2 == 0 else d.to_dict())
        if form == "reload":
            e = Processing()
            e.from_dict(c.to_dict())
            c = e
        state = lambda: [(d.decimation.level, d.decimation.sample_rate, d.stft.window.num_samples) for d in c.decimations]
        want = [(k, 10.0 + k, 100 + k) for k in nums]
        require(state() == want, "each level once, in the order given")
        require(c.num_decimation_levels == n and set(c.decimations_dict) == set(nums), "number of levels")
        for k in nums:
            require(c.get_decimation_level(k).stft.window.num_samples == 100 + k, "level by its number")
        try:
            c.get_decimation_level(n + 3)
        except KeyError:
            pass
        else:
            require(False, "a level that is not there")
        for setter, attr in ((c.set_input_channels, "input_channels"), (c.set_output_channels, "output_channels"), (c.set_reference_channels, "reference_channels")):
            v = [rng.choice("abcdef") + str(i) for i in range(rng.randint(1, 3))]
            others = [a for a in ("input_channels", "output_channels", "reference_channels") if a != attr]
            was = [[list(getattr(d, a)) for a in others] for d in c.decimations]
            setter(v)
            require(all(list(getattr(d, attr)) == v for d in c.decimations), f"{attr} of every level")
            require([[list(getattr(d, a)) for a in others] for d in c.decimations] == was, f"{attr} and nothing else")
            for d in c.decimations:
                require(d.local_channels == d.input_channels + d.output_channels, "local channels")
        c.set_default_input_output_channels()
        c.set_default_reference_channels()
        nm = c.channel_nomenclature
        for d in c.decimations:
            require((d.input_channels, d.output_channels, d.reference_channels) == (nm.default_input_channels, nm.default_output_channels, nm.default_reference_channels), "default channels")
        c.drop_reference_channels()
        require(all(list(d.reference_channels) == [] for d in c.decimations), "reference channels dropped")
        require(state() == want, "channels and nothing else")
        c.stations.local.id = "mt01"
        remote = rng.random() < 0.5
        if remote:
            c.stations.add_remote(Station(id="rr01"))
        c.validate_processing(None)
        got = [str(getattr(d.estimator.engine, "value", d.estimator.engine)) for d in c.decimations]
        was = [str(getattr(e, "value", e)) for e in engines]
        require(got == (was if remote else ["RME"] * n), "engines after validation")
        fs = rng.choice([8.0, 150.0])
        c.assign_decimation_level_data_emtf(fs)
        for d in c.decimations:
            k = d.decimation.level
            require(close(d.decimation.sample_rate, fs / 4**k, abs_=0) and d.decimation.factor == (4 if k else 1), "EMTF decimation")

    VALUES = {"sample_rate": [1.0, 2.0], "method": ["fft", "wavelet", "other"], "prewhitening_type": ["first difference", "other"], "recoloring": [True, False],
              "pre_fft_detrend_type": ["linear", "other", ""], "min_num_stft_windows": [0, 1, 5]}

    def make_level(rng):
        d = DecimationLevel(input_channels=["hx", "hy"], output_channels=rng.choice([["ex", "ey"], ["ex", "ey", "hz"]]), reference_channels=rng.choice([["rx", "ry"], ["hx", "hy"], ["ex", "hx"], ["hz"]]))
        for k, v in VALUES.items():
            setattr(d.decimation if k == "sample_rate" else d.stft, k, rng.choice(v))
        d.decimation.factor, d.decimation.level = rng.choice([1.0, 4.0]), rng.randint(0, 4)
        d.stft.window = Window(num_samples=rng.choice([64, 128]), overlap=rng.choice([8, 16]), type=rng.choice(["hann", "boxcar"]))
        a = 2
        for _ in range(rng.randint(0, 3)):
            z = a + rng.randint(0, 3)
            d.add_band(Band(decimation_level=0, index_min=a, index_max=z, frequency_min=float(a), frequency_max=float(z)))
            a = z + 1
        return d

    def g_s(rng, tier):
        while True:
            yield {"seed": rng.randrange(10**9), "remote": rng.random() < 0.5, "differ": rng.choice([None, None, *CHECKED, "channel"]), "harm": rng.choice(["all", "list -1", "none", "enough", "short", "single"]),
                   "filter": rng.choice(["same", "same", "same", "none", "other"])}

    @reg.rt("stored coefficients", g_s, [DL + "is_consistent_with_archived_fc_parameters"], "up to 3 bands")
    def stored(inp):
        rng = random.Random(inp["seed"])
        d = make_level(rng)
        fc = FCDecimation()
        ch = list(d.reference_channels if inp["remote"] else d.local_channels)
        rng.shuffle(ch)
        differ = inp["differ"]
        fc.channels_estimated = ch[1:] if differ == "channel" else ch + ["extra"]
        for k, v in VALUES.items():
            mine = getattr(d.decimation if k == "sample_rate" else d.stft, k)
            w = [x for x in v if x != mine] if differ == k else [mine]
            setattr(fc.time_series_decimation if k == "sample_rate" else fc.stft, k, rng.choice(w))
        fc.stft.window = Window(num_samples=d.stft.window.num_samples, overlap=d.stft.window.overlap + (1 if differ == "window" else 0), type=d.stft.window.type)
        need = sorted({i for b in d.bands for i in range(b.index_min, b.index_max + 1)})
        have = {"all": -1, "list -1": [-1], "none": None, "enough": sorted(set(need) | {0, 40}), "short": need[1:] + [90], "single": 2}[inp["harm"]]
        fc.stft.harmonic_indices = have
        missing = have not in (-1, [-1], None) and not set(need) <= set(have if isinstance(have, list) else [have])
        if inp["filter"] != "same":
            fc.time_series_decimation.anti_alias_filter = None if inp["filter"] == "none" else "fir"
        before = (d.to_dict(), fc.to_dict())
        try:
            r = d.is_consistent_with_archived_fc_parameters(fc, inp["remote"])
        except NotImplementedError:
            require(inp["filter"] == "other", "refused for another filter")
            return
        require(inp["filter"] != "other" or not r, "accepted with another filter")
        require(bool(r) == (differ is None and not missing) or inp["filter"] == "other", "accepted exactly when everything agrees")
        require((d.to_dict(), fc.to_dict()) == before, "comparing changed something")

    def g_m(rng, tier):
        while True:
            yield {"seed": rng.randrange(10**9), "remote": rng.random() < 0.5, "ignore": rng.random() < 0.5}

    @reg.rt("made from a level", g_m, [DL + "to_fc_decimation"], "up to 3 bands")
    def made(inp):
        rng = random.Random(inp["seed"])
        d = make_level(rng)
        before = d.to_dict()
        fc = d.to_fc_decimation(remote=inp["remote"], ignore_harmonic_indices=inp["ignore"])
        require(d.to_dict() == before, "the level changed")
        t, s = fc.time_series_decimation, fc.stft
        require((t.sample_rate, t.factor, t.level, t.anti_alias_filter, fc.id) == (d.decimation.sample_rate, d.decimation.factor, d.decimation.level, d.decimation.anti_alias_filter, str(d.decimation.level)), "decimation is taken over")
        for k in VALUES:
            if k != "sample_rate":
                require(getattr(s, k) == getattr(d.stft, k), f"{k} is taken over")
        require(s.window == d.stft.window, "window is taken over")
        require(list(fc.channels_estimated) == list(d.reference_channels if inp["remote"] else d.local_channels), "channels")
        require(s.harmonic_indices is None if inp["ignore"] else list(s.harmonic_indices) == list(d.harmonic_indices), "harmonics")
        require(d.is_consistent_with_archived_fc_parameters(fc, inp["remote"]) is True, "the level agrees with the parameters made from it")
