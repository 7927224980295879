"""Feature weights: kernels and their combination."""

FILES = "mt_metadata/features/weights/"


# ------------------------------------------------------------------ proofs
def contracts():
    from pyvc.api import (And, Contract, Collect, Implies, R, I, SymArray, SymNum, SymObj, clamp01, cos, eq, exp,
                          ite, put, rv, tanh, uf, z3, num_z3)
    from mt_metadata.features.weights.activation_monotonic_weight_kernel import ActivationMonotonicWeightKernel
    from mt_metadata.features.weights.channel_weight_spec import ChannelWeightSpec
    from mt_metadata.features.weights.feature_weight_spec import FeatureWeightSpec
    from mt_metadata.features.weights.monotonic_weight_kernel import MonotonicWeightKernel
    from mt_metadata.features.weights.taper_monotonic_weight_kernel import TaperMonotonicWeightKernel
    from mt_metadata.features.weights.taper_weight_kernel import TaperWeightKernel
    import math

    out = []

    def bounds(p, strict=False):
        lb, ub = p.real("lb"), p.real("ub")
        p.assume(lb < ub if strict else lb <= ub)
        return lb, ub

    def position(v, lb, ub, thr):
        """spec: position in [0, 1] along the transition"""
        if thr == "low cut":
            return ite(lb == ub, ite(v >= lb, rv(1), rv(0)), clamp01(SymNum(num_z3(v - lb) / num_z3(ub - lb))))
        return ite(lb == ub, ite(v <= ub, rv(1), rv(0)), rv(1) - clamp01(SymNum(num_z3(v - lb) / num_z3(ub - lb))))

    def taper(x, style, v, lb, ub, thr):
        if style == "rectangle":
            return ite(v < lb, rv(0), rv(1)) if thr == "low cut" else ite(v > ub, rv(0), rv(1))
        c = cos(x * math.pi)
        if style == "hann":
            return (rv(1) - c) * rv("1/2")
        if style == "hamming":
            return 0.54 - 0.46 * c
        return 0.42 - 0.5 * c + 0.08 * cos(x * (2 * math.pi))

    def rp(kind):
        def f(m):
            return {"kind": kind, "thr": m.get("thr"), "style": m.get("style"), "lb": m["lb"], "ub": m["ub"],
                    "steep": m.get("steep", 1.0), "values": (m.get("v") or []) + [m.get("vi", 0.0)]}

        return f

    def mk_taper(style, thr):
        def h(p):
            lb, ub = bounds(p)
            p.inputs["thr"], p.inputs["style"] = thr, style
            k = TaperMonotonicWeightKernel(threshold=thr, half_window_style=style)
            put(k, transition_lower_bound=lb, transition_upper_bound=ub)
            v = p.array("v")
            p.declare_cover("returns")
            w = k.evaluate(v)
            p.cover("returns")
            i = p.index(v)
            vi = v.at(i)
            p.inputs["vi"] = vi
            p.check("one weight per value", eq(w.n, v.n))
            x = position(vi, lb, ub, thr)
            p.check("weight is the stated taper", eq(w.at(i), taper(x, style, vi, lb, ub, thr)))
            # range and order follow from the value alone (lemma)
            p.check("position within [0,1]", And(x >= 0, x <= 1))
            j = p.index(v, "j")
            vj = v.at(j)
            y = position(vj, lb, ub, thr)
            p.assume(vi <= vj)
            p.check("position is monotone", (x <= y) if thr == "low cut" else (x >= y))
            if style in ("hann", "hamming"):
                # trusted: cos is decreasing on [0, pi], cos 0 = 1, cos pi = -1
                p.trusted("cos is decreasing on [0, pi] with cos 0 = 1 and cos pi = -1")
                cx, cy = cos(x * math.pi), cos(y * math.pi)
                p.fact(z3.Implies(num_z3(x) <= num_z3(y), num_z3(cx) >= num_z3(cy)))
                p.fact(z3.Implies(num_z3(x) >= num_z3(y), num_z3(cx) <= num_z3(cy)))
                p.fact(z3.And(num_z3(cx) <= 1, num_z3(cx) >= -1))
                p.check("weight is monotone in the feature",
                        (w.at(i) <= w.at(j)) if thr == "low cut" else (w.at(i) >= w.at(j)))
                p.check("weight within [0,1]", And(w.at(i) >= 0, w.at(i) <= 1))
            if style == "rectangle":
                p.check("weight is monotone in the feature",
                        (w.at(i) <= w.at(j)) if thr == "low cut" else (w.at(i) >= w.at(j)))

        return h

    fT = "TaperMonotonicWeightKernel.evaluate"
    for style in ("rectangle", "hann", "hamming", "blackman"):
        for thr in ("low cut", "high cut"):
            out.append(Contract(f"taper kernel {style}/{thr}", [fT, "TaperMonotonicWeightKernel._normalize"],
                                mk_taper(style, thr), replay=("taper", rp("taper"))))

    # plain normalisation of the base kernel
    def h_base(p):
        lb, ub = bounds(p, strict=True)
        k = MonotonicWeightKernel()
        put(k, transition_lower_bound=lb, transition_upper_bound=ub)
        v = p.array("v")
        w = k._normalize(v)
        i = p.index(v)
        p.inputs["vi"] = v.at(i)
        p.check("linear position", eq(w.at(i) * (ub - lb), v.at(i) - lb))
        p.check("one per value", eq(w.n, v.n))

    out.append(Contract("base kernel normalisation", "MonotonicWeightKernel._normalize", h_base,
                        replay=("base", rp("base"))))

    def mk_act(style, thr):
        def h(p):
            lb, ub = bounds(p, strict=True)
            p.inputs["thr"], p.inputs["style"] = thr, style
            k = ActivationMonotonicWeightKernel(threshold=thr, activation_style=style)
            st = p.real("steep")
            p.assume(st > 0)
            put(k, transition_lower_bound=lb, transition_upper_bound=ub, steepness=st)
            v = p.array("v")
            w = k.evaluate(v)
            i = p.index(v)
            vi = v.at(i)
            p.inputs["vi"] = vi
            q = SymNum(num_z3(vi - lb) / num_z3(ub - lb))
            x = clamp01(q if thr == "low cut" else rv(1) - q)
            p.check("one weight per value", eq(w.n, v.n))
            wi = w.at(i)
            if style == "sigmoid":
                e = exp(-(st) * (x - rv("1/2")))
                p.check("weight is the logistic of the position", eq(wi * (e + 1), rv(1)))
                p.check("weight within (0,1)", And(wi > 0, wi < 1))
            elif style == "tanh":
                t = tanh(st * (x - rv("1/2")))
                p.check("weight is the shifted tanh of the position", eq(wi, (t + 1) * rv("1/2")))
                p.check("weight within (0,1)", And(wi > 0, wi < 1))
            elif style == "hard_tanh":
                p.check("weight is the clipped position", eq(wi, x))
                p.check("weight within [0,1]", And(wi >= 0, wi <= 1))
            else:
                p.check("weight is the hard sigmoid of the position",
                        eq(wi, (x - rv("1/2")) * rv("1/5") + rv("1/2")))
                p.check("weight within [0,1]", And(wi >= 0, wi <= 1))

        return h

    for style in ("sigmoid", "hard_sigmoid", "tanh", "hard_tanh"):
        for thr in ("low cut", "high cut"):
            out.append(Contract(f"activation kernel {style}/{thr}",
                                ["ActivationMonotonicWeightKernel.evaluate", "ActivationMonotonicWeightKernel._normalize"],
                                mk_act(style, thr), replay=("activation", rp("activation"))))

    # composite: product of the two one-sided kernels' contracts
    def h_tw(p):
        import mt_metadata.features.weights.taper_weight_kernel as m

        l0, l1, h0, h1 = (p.real(n) for n in ("l0", "l1", "h0", "h1"))
        p.assume(And(l0 <= l1, h0 <= h1))
        real = m.TaperMonotonicWeightKernel
        kf = {"low cut": uf("K.low", R, R, R, R), "high cut": uf("K.high", R, R, R, R)}
        styles = []

        class Stub:
            """contract of the one-sided kernel: a function of its own
            bounds, direction and the value"""

            def __init__(self, threshold=None, transition_lower_bound=None, transition_upper_bound=None,
                         half_window_style=None):
                self.t, self.a, self.b = threshold, transition_lower_bound, transition_upper_bound
                styles.append(str(half_window_style))

            def evaluate(self, values):
                f = kf[str(self.t)]
                return values.map(lambda x: SymNum(f(num_z3(self.a), num_z3(self.b), num_z3(x))))

        k = TaperWeightKernel(low_cut=(0.0, 1.0), high_cut=(2.0, 3.0), style="hann")
        put(k, low_cut=(l0, l1), high_cut=(h0, h1))
        v = p.array("v")
        m.TaperMonotonicWeightKernel = Stub
        try:
            w = k.evaluate(v)
        finally:
            m.TaperMonotonicWeightKernel = real
        i = p.index(v)
        x = num_z3(v.at(i))
        p.inputs["vi"] = v.at(i)
        p.check("product of the low-cut and the high-cut kernels",
                eq(w.at(i), SymNum(kf["low cut"](l0.e, l1.e, x) * kf["high cut"](h0.e, h1.e, x))))
        p.check("both use the configured style", all(s in ("hann", "TypeEnum.hann") for s in styles) and len(styles) == 2)

    out.append(Contract("composite taper kernel", ["TaperWeightKernel.evaluate", "TaperWeightKernel.low_kernel",
                                                   "TaperWeightKernel.high_kernel"], h_tw,
                        replay=("composite", lambda m: {"low": [m["l0"], m["l1"]], "high": [m["h0"], m["h1"]],
                                                        "values": (m.get("v") or []) + [m.get("vi", 0.0)]})))

    # list of kernels of one feature: product over all kernels
    def kernel_seq(p, name, fn):
        def mk(i):
            return SymObj(TaperMonotonicWeightKernel, evaluate=lambda vals, i=i: vals.map(
                lambda x: SymNum(fn(i, num_z3(x)))))

        return p.seq(name, mk)

    def RED(name):
        return uf(name, z3.ArraySort(I, R), I, R)

    def h_fws(p):
        k = uf("kernel", I, R, R)
        spec = FeatureWeightSpec(feature_name="coherence", feature={"name": "coherence"}, weight_kernels=[])
        ks = kernel_seq(p, "kernels", k)
        put(spec, weight_kernels=ks)
        v = p.array("v")
        w = spec.evaluate(v)
        i = p.index(v)
        x = num_z3(v.at(i))
        n = len(ks) if isinstance(ks, list) else ks.n
        if isinstance(n, int):
            want = rv(1)
            for q in range(n):
                want = want * SymNum(k(z3.IntVal(q), x))
            got = w.at(i) if isinstance(w, SymArray) else w
            p.check("product of all kernels", eq(got, want))
        elif isinstance(w, SymArray):
            j = z3.Int("red!j")
            p.check("product of all kernels", eq(w.at(i), SymNum(RED("PROD")(z3.Lambda([j], k(j, x)), n.e))))
            p.check("more than zero kernels", n > 0)
        else:
            p.check("no kernel means weight one", And(eq(n, 0), eq(w, 1)))

    out.append(Contract("feature weight = product of its kernels", "FeatureWeightSpec.evaluate", h_fws))

    def mk_cws(style, red):
        def h(p):
            fw = uf("feature_weight", I, R, R)
            name = uf("feature_name", I, z3.StringSort())
            vals = {"coherence": p.array("a"), "multiple coherence": p.array("b")}
            na = vals["coherence"]
            p.assume(eq(na.n, vals["multiple coherence"].n))
            from pyvc.api import SymStr

            def mk(i):
                p.add(z3.Or(name(i) == z3.StringVal("coherence"), name(i) == z3.StringVal("multiple coherence")))
                return SymObj(FeatureWeightSpec, feature=SymObj(object, name=SymStr(name(i))),
                              evaluate=lambda v, i=i: v.map(lambda x: SymNum(fw(i, num_z3(x)))))

            specs = p.seq("specs", mk)
            c = ChannelWeightSpec(combination_style=style)
            put(c, feature_weight_specs=specs)

            def elem(i):
                isa = name(i) == z3.StringVal("coherence")
                a, b = vals["coherence"], vals["multiple coherence"]
                return SymArray(a.n, lambda q: SymNum(z3.If(isa, fw(i, num_z3(a.at(q))), fw(i, num_z3(b.at(q))))))

            def same(x, y):
                q = z3.Int(p.fresh("q"))
                return eq(x.at(q), y.at(q))

            p.loop_specs["*"] = lambda L, loc, names: Collect("weights of the features", elem, same)
            w = c.evaluate(vals)
            i = p.index(na)
            n = len(specs) if isinstance(specs, list) else specs.n
            if isinstance(n, int):
                ws = [elem(z3.IntVal(q)).at(i) for q in range(n)]
                got = w.at(i) if isinstance(w, SymArray) else w
                if not ws:
                    p.check("no feature means weight one", eq(got, 1))
                    return
                r = ws[0]
                for u in ws[1:]:
                    r = (r * u if style == "multiplication" else r + u if style == "mean" else
                         ite(u < r, u, r) if style == "minimum" else ite(u > r, u, r))
                if style == "mean":
                    r = SymNum(num_z3(r) / n)
                p.check(f"combination is the {style}", eq(got, r))
            elif isinstance(w, SymArray):
                j = z3.Int("red!j")
                p.check(f"combination is the {style} over all features",
                        eq(w.at(i), SymNum(RED(red)(z3.Lambda([j], num_z3(elem(j).at(i))), n.e))))
            else:
                p.check("no feature means weight one", And(eq(n, 0), eq(w, 1)))

        return h

    for style, red in (("multiplication", "PROD"), ("mean", "MEAN"), ("minimum", "MIN"), ("maximum", "MAX")):
        out.append(Contract(f"channel weight combination {style}", "ChannelWeightSpec.evaluate", mk_cws(style, red)))
    return out


# ------------------------------------------------------------------ run time
def runtime(reg):
    import math

    import numpy as np

    from pyvc.rt import Skip, Violation, close, require

    from mt_metadata.common.band import Band
    from mt_metadata.features.weights.activation_monotonic_weight_kernel import ActivationMonotonicWeightKernel
    from mt_metadata.features.weights.channel_weight_spec import ChannelWeightSpec
    from mt_metadata.features.weights.feature_weight_spec import FeatureWeightSpec
    from mt_metadata.features.weights.monotonic_weight_kernel import MonotonicWeightKernel
    from mt_metadata.features.weights.taper_monotonic_weight_kernel import TaperMonotonicWeightKernel
    from mt_metadata.features.weights.taper_weight_kernel import TaperWeightKernel

    def vals(rng):
        k = rng.choice(["span", "int", "tiny"])
        if k == "int":
            return [rng.randint(-5, 5) for _ in range(rng.randint(1, 6))]
        s = 10 ** rng.uniform(-3, 3) if k == "span" else 1e-6
        return [round(rng.uniform(-s, s), 9) for _ in range(rng.randint(1, 6))]

    def pos(v, lb, ub, thr):
        if lb == ub:
            return 1.0 if (v >= lb if thr == "low cut" else v <= ub) else 0.0
        x = min(1.0, max(0.0, (v - lb) / (ub - lb)))
        return x if thr == "low cut" else 1 - x

    def taper_spec(v, lb, ub, thr, style):
        x = pos(v, lb, ub, thr)
        if style == "rectangle":
            return (0.0 if v < lb else 1.0) if thr == "low cut" else (0.0 if v > ub else 1.0)
        c = math.cos(math.pi * x)
        if style == "hann":
            return 0.5 * (1 - c)
        if style == "hamming":
            return 0.54 - 0.46 * c
        return 0.42 - 0.5 * c + 0.08 * math.cos(2 * math.pi * x)

    def gen_taper(rng, tier):
        for _ in range(400 if tier == "quick" else 6000):
            v = vals(rng)
            a = rng.choice([*v, rng.uniform(-10, 10)])
            b = rng.choice([*v, a, a + rng.uniform(0, 10)])
            lb, ub = sorted((a, b))
            yield {"thr": rng.choice(["low cut", "high cut"]), "style": rng.choice(["rectangle", "hann", "hamming", "blackman"]),
                   "lb": lb, "ub": ub, "values": v + [lb, ub, (lb + ub) / 2]}

    @reg.rt("taper", gen_taper, ["TaperMonotonicWeightKernel.evaluate"], "400 kernels, arrays <= 9 values")
    def taper(i):
        if not (i["lb"] <= i["ub"]):
            raise Skip
        k = TaperMonotonicWeightKernel(threshold=i["thr"], half_window_style=i["style"], transition_lower_bound=i["lb"],
                                       transition_upper_bound=i["ub"])
        a = np.array(i["values"])
        before = a.copy()
        w = k.evaluate(a)
        require(np.shape(w) == np.shape(a), f"{len(a)} values gave weights of shape {np.shape(w)}")
        require(np.array_equal(a, before), "evaluate changed its input")
        for v, g in zip(i["values"], w):
            e = taper_spec(v, i["lb"], i["ub"], i["thr"], i["style"])
            require(close(g, e, 1e-7, 1e-7), f"weight of {v} is {g}, expected {e}")

    @reg.rt("base", lambda rng, tier: ({"lb": a, "ub": a + rng.uniform(0.01, 9), "values": vals(rng)} for a in
                                       [rng.uniform(-5, 5) for _ in range(60)]), ["MonotonicWeightKernel._normalize"], "60 inputs")
    def base(i):
        if not i["lb"] < i["ub"]:
            raise Skip
        k = MonotonicWeightKernel(transition_lower_bound=i["lb"], transition_upper_bound=i["ub"])
        w = k._normalize(np.array(i["values"]))
        for v, g in zip(i["values"], w):
            require(close(g, (v - i["lb"]) / (i["ub"] - i["lb"]), 1e-7, 1e-7), f"position of {v} is {g}")

    def gen_act(rng, tier):
        for _ in range(300 if tier == "quick" else 4000):
            lb = rng.uniform(-5, 5)
            yield {"thr": rng.choice(["low cut", "high cut"]), "style": rng.choice(["sigmoid", "hard_sigmoid", "tanh", "hard_tanh"]),
                   "lb": lb, "ub": lb + rng.uniform(0.1, 10), "steep": rng.choice([0.5, 1.0, 10.0, rng.uniform(0.1, 50)]), "values": vals(rng)}

    @reg.rt("activation", gen_act, ["ActivationMonotonicWeightKernel.evaluate"], "300 kernels")
    def activation(i):
        if not i["lb"] < i["ub"] or not i["steep"] > 0:
            raise Skip
        k = ActivationMonotonicWeightKernel(threshold=i["thr"], activation_style=i["style"], steepness=i["steep"],
                                            transition_lower_bound=i["lb"], transition_upper_bound=i["ub"])
        w = k.evaluate(np.array(i["values"]))
        for v, g in zip(i["values"], w):
            x = pos(v, i["lb"], i["ub"], i["thr"])
            s = i["steep"] * (x - 0.5)
            e = {"sigmoid": 1 / (1 + math.exp(max(-700, min(700, -s)))), "tanh": 0.5 * (math.tanh(s) + 1), "hard_tanh": x,
                 "hard_sigmoid": min(1, max(0, 0.2 * (x - 0.5) + 0.5))}[i["style"]]
            require(close(g, e, 1e-6, 1e-6), f"weight of {v} is {g}, expected {e}")

    def gen_inf(rng, tier):
        for lo, hi in (("-inf", 1.0), (0.0, "inf"), ("-inf", "inf")):
            for v in ([0.5, 1.5], [1, 2, 3], [0]):
                for s in ("sigmoid", "hard_tanh", "tanh"):
                    yield {"lb": lo, "ub": hi, "values": v, "style": s}

    @reg.rt("infinite bounds", gen_inf, ["ActivationMonotonicWeightKernel._normalize"], "27 inputs")
    def infinite(i):
        k = ActivationMonotonicWeightKernel(activation_style=i["style"], transition_lower_bound=float(i["lb"]),
                                            transition_upper_bound=float(i["ub"]))
        w = k.evaluate(np.array(i["values"]))
        for v, g in zip(i["values"], w):
            require(close(g, 0.5), f"weight of {v} without finite bounds is {g}, expected the neutral 0.5")

    def gen_comp(rng, tier):
        for _ in range(150):
            l = sorted(rng.uniform(-5, 5) for _ in range(2))
            h = sorted(rng.uniform(-5, 5) for _ in range(2))
            yield {"low": l, "high": h, "style": rng.choice(["hann", "hamming", "blackman"]), "values": vals(rng) + l + h}

    @reg.rt("composite", gen_comp, ["TaperWeightKernel.evaluate"], "150 inputs")
    def composite(i):
        st = i.get("style", "hann")
        if i["low"][0] > i["low"][1] or i["high"][0] > i["high"][1]:
            raise Skip
        w = TaperWeightKernel(low_cut=tuple(i["low"]), high_cut=tuple(i["high"]), style=st).evaluate(np.array(i["values"], dtype=float))
        for v, g in zip(i["values"], w):
            e = taper_spec(v, *i["low"], "low cut", st) * taper_spec(v, *i["high"], "high cut", st)
            require(close(g, e, 1e-7, 1e-7), f"composite weight of {v} is {g}, expected {e}")

    def kern(rng):
        lb = rng.uniform(-3, 3)
        if rng.random() < 0.5:
            return {"style": "taper", "threshold": rng.choice(["low cut", "high cut"]), "half_window_style": rng.choice(["hann", "rectangle", "hamming"]),
                    "transition_lower_bound": lb, "transition_upper_bound": lb + rng.uniform(0, 3)}
        return {"style": "activation", "threshold": rng.choice(["low cut", "high cut"]), "activation_style": rng.choice(["sigmoid", "tanh", "hard_tanh"]),
                "steepness": rng.uniform(0.5, 9), "transition_lower_bound": lb, "transition_upper_bound": lb + rng.uniform(0.1, 3)}

    def kern_spec(k, v):
        x = pos(v, k["transition_lower_bound"], k["transition_upper_bound"], k["threshold"])
        if k["style"] == "taper":
            return taper_spec(v, k["transition_lower_bound"], k["transition_upper_bound"], k["threshold"], k["half_window_style"])
        s = k["steepness"] * (x - 0.5)
        return {"sigmoid": 1 / (1 + math.exp(-s)), "tanh": 0.5 * (math.tanh(s) + 1), "hard_tanh": x}[k["activation_style"]]

    def gen_spec(rng, tier):
        for _ in range(200 if tier == "quick" else 2000):
            n = rng.randint(1, 4)
            feats = []
            vs = {}
            for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 6])):
                f = rng.choice(["coherence", "fc_coherence", "striding_window_coherence"])
                feats.append({"feature": f, "kernels": [kern(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))],
                              "values": vs.setdefault(f, [rng.uniform(-4, 4) for _ in range(n)])})
            yield {"style": rng.choice(["multiplication", "mean", "minimum", "maximum"]), "features": feats}

    @reg.rt("channel weights", gen_spec, ["ChannelWeightSpec.evaluate", "FeatureWeightSpec.evaluate",
                                          "FeatureWeightSpec.validate_weight_kernels"], "200 specs, <= 6 features x 5 kernels")
    def chan(i):
        specs = [{"feature_name": "coherence", "feature": {"name": f["feature"]}, "weight_kernels": [dict(k) for k in f["kernels"]]}
                 for f in i["features"]]
        c = ChannelWeightSpec(combination_style=i["style"], feature_weight_specs=specs)
        for s, f in zip(c.feature_weight_specs, i["features"]):
            require(len(s.weight_kernels) == len(f["kernels"]), "a kernel was lost or added")
        try:
            w = c.evaluate({f["feature"]: np.array(f["values"]) for f in i["features"]})
        except ValueError as e:
            if any(not f["kernels"] for f in i["features"]) and len(i["features"]) > 1:
                raise Violation(f"a feature without kernels (weight one) cannot be combined: {e}", "feature-without-kernels")
            raise
        if not i["features"]:
            require(float(w) == 1.0, f"no features should weigh one, got {w}")
            return
        if not any(f["kernels"] for f in i["features"]):
            return
        if any(not f["kernels"] for f in i["features"]):
            if i["style"] != "multiplication":
                return
        n = len(i["features"][0]["values"])
        for q in range(n):
            ws = []
            for f in i["features"]:
                if not f["kernels"]:
                    continue
                r = 1.0
                for k in f["kernels"]:
                    r *= kern_spec(k, f["values"][q])
                ws.append(r)
            e = {"multiplication": math.prod(ws), "mean": sum(ws) / len(ws), "minimum": min(ws), "maximum": max(ws)}[i["style"]]
            require(close(w[q], e, 1e-7, 1e-7), f"{i['style']} of {ws} gave {w[q]}")

    def gen_band(rng, tier):
        for _ in range(100):
            f = sorted(rng.uniform(0.01, 10) for _ in range(rng.randint(1, 6)))
            yield {"freqs": f, "dims": rng.choice([1, 2]), "fmin": rng.uniform(0.01, 5), "width": rng.uniform(0.01, 5),
                   "avg": rng.choice(["geometric", "arithmetic"])}

    @reg.rt("weights for band", gen_band, ["ChannelWeightSpec.get_weights_for_band"], "100 inputs")
    def band(i):
        import xarray as xr

        b = Band(frequency_min=i["fmin"], frequency_max=i["fmin"] + i["width"], center_averaging_type=i["avg"])
        n = len(i["freqs"])
        data = np.arange(n * 3, dtype=float).reshape(n, 3)
        c = ChannelWeightSpec()
        if i["dims"] == 1:
            c.weights = xr.DataArray(data, dims=("frequency", "time"), coords={"frequency": i["freqs"]})
        else:
            c.weights = xr.DataArray(data.T.copy(), dims=("time", "frequency"), coords={"frequency": i["freqs"]})
        lo, hi = i["fmin"], i["fmin"] + i["width"]
        cf = math.sqrt(lo * hi) if i["avg"] == "geometric" else (lo + hi) / 2
        g = np.asarray(c.get_weights_for_band(b))
        d = [abs(x - cf) for x in i["freqs"]]
        ok = [q for q in range(n) if d[q] <= min(d) + 1e-12]
        require(any(np.array_equal(g, data[q]) for q in ok), f"weights {g.tolist()} are not those of the bin closest to {cf}")
