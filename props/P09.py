"""Filter responses: each filter type evaluates its defining formula."""

ASSUMPTIONS = [
    "scipy.signal.freqs_zpk(z, p, k, w) is k * prod(iw - z) / prod(iw - p), scipy.signal.freqz(b, w, fs) the DFT of b at w/fs, "
    "interp1d an interpolant through its nodes (each exercised by the run-time contracts against an independent evaluation)",
]


def contracts():
    import math
    import types

    import mt_metadata.timeseries.filters.fir_filter as mf
    import mt_metadata.timeseries.filters.frequency_response_table_filter as mt
    import mt_metadata.timeseries.filters.pole_zero_filter as mz
    from mt_metadata.timeseries.filters import (CoefficientFilter, FIRFilter, FrequencyResponseTableFilter,
                                                PoleZeroFilter, TimeDelayFilter)
    from pyvc.api import (And, Contract, Implies, Not, Or, R, SymArray, SymBool, SymComplex, SymNum, cos, eq, ite,
                          num_z3, put, raises, rv, sin, uf, z3, I)
    from pyvc.core import as_z3int, toreal

    out = []

    def fr(p):
        f = p.array("f")
        p.assume(SymBool(as_z3int(f.n) >= 1))
        return f

    def spec_complex(p, h, f, want, text):
        p.check("one value per frequency", eq(h.n, f.n))
        i = p.index(f)
        g, w = SymComplex.lift(h.at(i)), want(f.at(i), i)
        p.check(text + " (real part)", eq(g.re, w.re))
        p.check(text + " (imaginary part)", eq(g.im, w.im))

    def label(arr, **named):
        """which of the filter's arrays a library function was given"""
        k = z3.Int("label!k")
        x = arr.at(k) if isinstance(arr, SymArray) else None
        for n, a in named.items():
            if x is None:
                continue
            y = a.at(k)
            xs = [x.re, x.im] if isinstance(x, SymComplex) else [x]
            ys = [y.re, y.im] if isinstance(y, SymComplex) else [y]
            if len(xs) == len(ys) and all(z3.simplify(num_z3(u)).eq(z3.simplify(num_z3(v))) for u, v in zip(xs, ys)) \
                    and z3.simplify(as_z3int(arr.n)).eq(z3.simplify(as_z3int(a.n))):
                return n
        return "other"

    # coefficient
    def h_coef(p):
        f, g = fr(p), p.real("gain")
        k = put(CoefficientFilter(), gain=g)
        spec_complex(p, k.complex_response(f), f, lambda x, i: SymComplex(g, rv(0)), "the gain at every frequency")

    out.append(Contract("coefficient response", "CoefficientFilter.complex_response", h_coef,
                        replay=("response", lambda m: {"type": "coefficient", "gain": m["gain"], "f": m["f"]})))

    # delay
    def h_delay(p):
        f, g, d = fr(p), p.real("gain"), p.real("delay")
        k = put(TimeDelayFilter(), gain=g, delay=d)
        h = k.complex_response(f)

        def want(x, i):
            a = x * (2 * math.pi) * d
            return SymComplex(g * cos(a), -g * sin(a))

        spec_complex(p, h, f, want, "gain times exp(-i 2 pi f delay)")

    out.append(Contract("delay response", "TimeDelayFilter.complex_response", h_delay,
                        replay=("response", lambda m: {"type": "time delay", "gain": m["gain"], "delay": m["delay"], "f": m["f"]})))

    # poles and zeros
    def h_zpk(p):
        f, g, nf = fr(p), p.real("gain"), p.real("norm")
        z, q = p.array("zeros", kind="complex"), p.array("poles", kind="complex")
        k = put(PoleZeroFilter(), gain=g, normalization_factor=nf, zeros=z, poles=q)
        fre, fim = uf("ZPK.re", R, R), uf("ZPK.im", R, R)

        def zpk(zz, pp, gain, worN=None, **kw):
            p.trusted("scipy.signal.freqs_zpk contract")
            lab = (label(zz, zeros=z, poles=q), label(pp, zeros=z, poles=q))
            nm = "" if lab == ("zeros", "poles") else ".wrong"
            a, b = uf("ZPK.re" + nm, R, R), uf("ZPK.im" + nm, R, R)
            return worN, worN.map(lambda w: SymComplex(SymNum(a(toreal(num_z3(w)))), SymNum(b(toreal(num_z3(w))))) * gain)

        real = mz.signal
        mz.signal = types.SimpleNamespace(freqs_zpk=zpk)
        try:
            h = k.complex_response(f)
        finally:
            mz.signal = real

        def want(x, i):
            w = toreal(num_z3(x * (2 * math.pi)))
            return SymComplex(SymNum(fre(w)), SymNum(fim(w))) * (g * nf)

        spec_complex(p, h, f, want, "gain * normalization * prod(iw - zeros) / prod(iw - poles) at w = 2 pi f")

    def rp_zpk(m):
        c = lambda v: [list(x) for x in (v or [])]
        return {"type": "zpk", "gain": m["gain"], "norm": m["norm"], "zeros": c(m.get("zeros")), "poles": c(m.get("poles")),
                "f": m["f"]}

    out.append(Contract("pole zero response", ["PoleZeroFilter.complex_response", "PoleZeroFilter.total_gain"], h_zpk,
                        replay=("response", rp_zpk)))

    # FIR
    def mk_fir(sym, dc):
        def h(p):
            f, g, rate = fr(p), p.real("gain"), p.real("rate")
            c = p.array("coef")
            p.assume(And(rate > 0, g > 0, SymBool(as_z3int(c.n) >= 1)))
            k = put(FIRFilter(symmetry=sym), gain=g, decimation_input_sample_rate=rate, coefficients=c)
            gf = rv(0)
            if dc:
                k.__dict__["gain_frequency"] = 0.0
            else:
                gf = p.real("gain_frequency")
                p.assume(gf > 0)
                put(k, gain_frequency=gf)
            n = as_z3int(c.n)
            full = c if sym == "NONE" else SymArray(
                SymNum(2 * n), lambda i: ite(SymBool(as_z3int(i) < n), c.at(i), c.at(2 * n - 1 - as_z3int(i))))
            sc = k.symmetry_corrected_coefficients
            p.check("length of the impulse response", eq(sc.n, full.n))
            j = z3.Int(p.fresh("j"))
            p.assume(z3.And(j >= 0, j < as_z3int(full.n)))
            p.check("impulse response", eq(sc.at(j), full.at(j)))
            fre, fim = uf("FIR.re", R, R), uf("FIR.im", R, R)

            def at(x):
                e = z3.simplify(toreal(num_z3(x)))
                return SymComplex(SymNum(fre(e)), SymNum(fim(e)))

            def freqz(b, worN=None, fs=None, **kw):
                p.trusted("scipy.signal.freqz contract: response at 2 pi worN / fs")
                a = worN if isinstance(worN, SymArray) else SymArray(1, lambda i: worN)
                return a, a.map(lambda w: at(SymNum(num_z3(w) / num_z3(fs))))

            c0 = SymComplex.lift(at(gf / rate))
            mag = abs(c0)
            p.assume(mag > 0)
            tot = c.sum() if sym == "NONE" else None
            real = mf.signal
            mf.signal = types.SimpleNamespace(freqz=freqz)
            try:
                hh = k.complex_response(f)
                u = k.unscaled_complex_response(f)
            finally:
                mf.signal = real
            i = p.index(f)
            ui, hi = SymComplex.lift(u.at(i)), SymComplex.lift(hh.at(i))
            w = at(f.at(i) / rate)
            p.check("unscaled response is the transform of the taps", And(eq(ui.re, w.re), eq(ui.im, w.im)))
            p.check("one value per frequency", eq(hh.n, f.n))
            if not dc:
                # |H(gain_frequency)| == gain
                p.check("scaled by gain / |H(gain frequency)|", And(eq(hi.re * mag, w.re * g), eq(hi.im * mag, w.im * g)))
            else:
                s = k.symmetry_corrected_coefficients.sum()
                p.check("scaled by gain / sum of taps", Implies(Not(eq(s, rv(0))), And(eq(hi.re * s, w.re * g), eq(hi.im * s, w.im * g))))

        return h

    rpf = lambda sym, dc: (lambda m: {"type": "fir", "gain": m["gain"], "rate": m["rate"], "coef": m["coef"], "sym": sym,
                                      "gf": 0.0 if dc else m["gain_frequency"], "f": m["f"]})
    for sym in ("NONE", "EVEN"):
        for dc in (False, True):
            out.append(Contract(f"fir response {sym}{'/dc' if dc else ''}",
                                ["FIRFilter.complex_response", "FIRFilter.unscaled_complex_response",
                                 "FIRFilter.symmetry_corrected_coefficients", "FIRFilter.coefficient_gain",
                                 "FIRFilter.corrective_scalar"], mk_fir(sym, dc), replay=("response", rpf(sym, dc))))

    # table
    def h_fap(p):
        f, g = fr(p), p.real("gain")
        tf, ta, tp = p.array("tf"), p.array("ta"), p.array("tp")
        p.assume(SymBool(z3.And(as_z3int(tf.n) >= 2, as_z3int(tf.n) == as_z3int(ta.n), as_z3int(tf.n) == as_z3int(tp.n))))
        k = put(FrequencyResponseTableFilter(), gain=g, frequencies=tf, amplitudes=ta, phases=tp)

        def interp1d(x, y, **kw):
            p.trusted("scipy interp1d contract: a function of the query frequency through the table")
            nm = f"INT.{label(x, tf=tf, ta=ta, tp=tp)}.{label(y, tf=tf, ta=ta, tp=tp)}"
            if kw.get("assume_sorted"):
                nm += ".sorted"  # differs for a table whose frequencies are not ascending
            fn = uf(nm, R, R)
            return lambda q: q.map(lambda v: SymNum(fn(toreal(num_z3(v)))))

        real = mt.interp1d
        mt.interp1d = interp1d
        try:
            h = k.complex_response(f)
        finally:
            mt.interp1d = real
        A, P = uf("INT.tf.ta", R, R), uf("INT.tf.tp", R, R)

        def want(x, i):
            e = toreal(num_z3(x))
            a, ph = SymNum(A(e)), SymNum(P(e))
            return SymComplex(g * a * cos(ph), g * a * sin(ph))

        spec_complex(p, h, f, want, "gain * interpolated amplitude * exp(i interpolated phase)")

    out.append(Contract("table response", ["FrequencyResponseTableFilter.complex_response",
                                           "FrequencyResponseTableFilter.min_frequency",
                                           "FrequencyResponseTableFilter.max_frequency"], h_fap))
    return out


def runtime(reg):
    import cmath
    import math

    import numpy as np

    from pyvc.rt import Skip, close, require
    from mt_metadata.timeseries.filters import (CoefficientFilter, FIRFilter, FrequencyResponseTableFilter,
                                                PoleZeroFilter, TimeDelayFilter)

    def lg(rng, a, b):
        return float(f"{10 ** rng.uniform(a, b):.6g}")

    def cplx(rng):
        r = rng.random()
        if r < .3:
            return [-lg(rng, -2, 3), 0.0]
        return [-lg(rng, -2, 2), lg(rng, -2, 2) * rng.choice([1, -1])]

    def gen(rng, tier):
        n = 400 if tier == "quick" else 8000
        for q in range(n):
            f = sorted({lg(rng, -4, 2) for _ in range(rng.randint(1, 6))})
            if rng.random() < .3:
                rng.shuffle(f)
            d = {"f": f, "gain": rng.choice([1.0, lg(rng, -6, 6), -lg(rng, -2, 2), 0.5])}
            t = ["coefficient", "time delay", "zpk", "fir", "fap"][q % 5]
            d["type"] = t
            if t == "time delay":
                d["delay"] = rng.choice([0.0, lg(rng, -3, 1), -lg(rng, -3, 1)])
            if t == "zpk":
                z = [cplx(rng) for _ in range(rng.randint(0, 3))] + ([[0.0, 0.0]] if rng.random() < .5 else [])
                d.update(zeros=z, poles=[cplx(rng) for _ in range(rng.randint(0, 4))], norm=rng.choice([1.0, lg(rng, -3, 6)]))
                for k_ in ("zeros", "poles"):
                    if d[k_] and rng.random() < .3:
                        d[k_] = d[k_] + [d[k_][0]] * rng.randint(1, 2)
            if t == "fir":
                d.update(coef=[round(rng.uniform(0.01, 1), 4) for _ in range(rng.randint(1, 9))], rate=lg(rng, 2.5, 4),
                         sym=rng.choice(["NONE", "EVEN", "ODD", "EVEN"]), gf=rng.choice([0.0, lg(rng, -2, 1)]), gain=lg(rng, -3, 3))
            if t == "fap":
                n_ = rng.randint(2, 7)
                d.update(tf=sorted({lg(rng, -4, 3) for _ in range(n_ + 2)}))
                d.update(ta=[lg(rng, -3, 3) for _ in d["tf"]], tp=[round(rng.uniform(-3, 3), 4) for _ in d["tf"]])
                tf0 = d["tf"]
                if rng.random() < .4:
                    o = list(range(len(d["tf"])))
                    o.reverse() if rng.random() < .5 else rng.shuffle(o)
                    d.update({k: [d[k][q_] for q_ in o] for k in ("tf", "ta", "tp")})
                if rng.random() < .6:
                    d["f"] = rng.sample(tf0, min(len(d["tf"]), 3)) + [
                        round(rng.uniform(tf0[0], tf0[-1]), 9) for _ in range(2)]
            yield d

    def build(i):
        t, g = i["type"], i["gain"]
        u = dict(name="x", units_in="volt", units_out="digital counts", gain=g)
        if t == "coefficient":
            return CoefficientFilter(**u)
        if t == "time delay":
            return TimeDelayFilter(delay=i["delay"], **u)
        if t == "zpk":
            return PoleZeroFilter(zeros=[complex(*z) for z in i["zeros"]], poles=[complex(*z) for z in i["poles"]],
                                  normalization_factor=i["norm"], **u)
        if t == "fir":
            return FIRFilter(coefficients=i["coef"], decimation_input_sample_rate=i["rate"], symmetry=i["sym"],
                             gain_frequency=i["gf"], **u)
        return FrequencyResponseTableFilter(frequencies=i["tf"], amplitudes=i["ta"], phases=i["tp"], **u)

    def spec(i, x, known=False):
        t, g = i["type"], i["gain"]
        if t == "coefficient":
            return complex(g)
        if t == "time delay":
            return g * cmath.exp(-2j * math.pi * x * i["delay"])
        if t == "zpk":
            s = 2j * math.pi * x
            h = complex(g * i["norm"])
            for z in i["zeros"]:
                h *= s - complex(*z)
            for z in i["poles"]:
                h /= s - complex(*z)
            return h
        if t == "fir":
            c = list(i["coef"])
            c = c + c[::-1] if i["sym"] == "EVEN" else c + (c[1:][::-1] if known else c[::-1][1:]) if i["sym"] == "ODD" else c
            H = lambda q: sum(a * cmath.exp(-2j * math.pi * q / i["rate"] * n) for n, a in enumerate(c))
            ref = abs(H(i["gf"])) if i["gf"] else sum(c)
            return H(x) * g / ref
        tf, ta, tp = zip(*sorted(zip(i["tf"], i["ta"], i["tp"])))
        if x in tf:
            k = tf.index(x)
            return g * ta[k] * cmath.exp(1j * tp[k])
        if len(tf) < 2:
            raise Skip
        k = max(1, min(len(tf) - 1, sum(v < x for v in tf)))
        u = (x - tf[k - 1]) / (tf[k] - tf[k - 1])
        lin = lambda y: y[k - 1] + u * (y[k] - y[k - 1])
        return g * lin(ta) * cmath.exp(1j * lin(tp))

    @reg.rt("response", gen, ["complex_response of the five filter types"], "400 filters x up to 6 frequencies")
    def response(i):
        f = i["f"]
        if not f or any(not (1e-12 < abs(x) < 1e9) for x in f if x != 0):
            raise Skip
        if i["type"] == "fir" and (i["rate"] <= 0 or not i["coef"]):
            raise Skip
        if i["type"] == "zpk" and any(abs(2j * math.pi * x - complex(*z)) < 1e-9 for x in f for z in i["poles"]):
            raise Skip
        if i["type"] == "fir":
            c = i["coef"]
            H = sum(a * cmath.exp(-2j * math.pi * i["gf"] / i["rate"] * n) for n, a in enumerate(c))
            if abs(H) < 1e-6 or abs(sum(c)) < 1e-6:
                raise Skip
        k = build(i)
        before = k.to_dict(single=True) if False else repr(k.model_dump())
        x = np.array(f, dtype=float)
        h = np.asarray(k.complex_response(x))
        require(h.shape == (len(f),), f"{i['type']} response has shape {h.shape} for {len(f)} frequencies")
        require(np.iscomplexobj(h), "response is not complex")
        odd = i["type"] == "fir" and i["sym"] == "ODD"
        for q, y in zip(f, h):
            w = spec(i, q)
            same = lambda w: close(complex(y), w, 1e-6, 1e-9 * max(abs(w), 1e-300) + 1e-12 * abs(i["gain"]))
            key = "fir-odd-symmetry" if odd and len(i["coef"]) > 1 and same(spec(i, q, True)) else None
            require(same(w), f"{i['type']} response at {q} Hz is {complex(y)}, expected {w}", key)
        require(np.array_equal(x, np.array(f, dtype=float)), "the frequency argument was modified")
        require(repr(k.model_dump()) == before, "evaluating the response changed the filter")
        h1 = np.concatenate([np.atleast_1d(k.complex_response(np.array([q]))) for q in f])
        require(np.allclose(h, h1, rtol=1e-9, atol=0), "the value at a frequency depends on the other frequencies")
        if i["type"] == "fir" and i["gf"] > 0 and not odd:
            a = abs(k.complex_response(np.array([i["gf"]]))[0])
            require(close(a, abs(i["gain"]), 1e-9), f"FIR magnitude at the gain frequency is {a}, gain is {i['gain']}")

    def gen_units(rng, tier):
        for f in (1000, 500 * math.pi + 1, 100, 6 * math.pi + .1, 18, 3.0, 1.0):
            yield {"m": f, "neg": False}
            yield {"m": f, "neg": True}

    @reg.rt("phase units", gen_units, ["FrequencyResponseTableFilter.validate_phases"], "14 tables")
    def phases(i):
        m = -i["m"] if i["neg"] else i["m"]
        t = [0.0, m / 2, m]
        k = FrequencyResponseTableFilter(frequencies=[1, 2, 3], amplitudes=[1, 1, 1], phases=t)
        if max(t) > 500 * math.pi:
            w = [v / 1000 for v in t]
        elif abs(m) > 6 * math.pi:
            w = [math.radians(v) for v in t]
        else:
            w = t
        require(np.allclose(k.phases, w, rtol=1e-12), f"phases {t} became {list(k.phases)}")
