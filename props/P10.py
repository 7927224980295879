"""Channel response: the composition of its filters."""


def contracts():
    import mt_metadata.timeseries.filters.channel_response as mc
    from mt_metadata.timeseries.filters import (ChannelResponse, CoefficientFilter, FIRFilter, FrequencyResponseTableFilter,
                                                PoleZeroFilter, TimeDelayFilter)
    from pyvc.api import (And, Contract, Fold, I, Implies, Not, Or, R, SymArray, SymBool, SymComplex, SymNum, SymObj,
                          SymStr, eq, ite, num_z3, put, raises, rv, uf, z3)
    from pyvc.core import as_z3int, toreal
    from pyvc.helpers import position

    out = []
    S = z3.StringSort()

    def filt(p, i, f=None):
        re, im = uf("resp.re", I, R, R), uf("resp.im", I, R, R)

        def response(fr, *a, **k):
            return fr.map(lambda x: SymComplex(SymNum(re(i, toreal(num_z3(x)))), SymNum(im(i, toreal(num_z3(x))))))

        return SymObj(PoleZeroFilter, complex_response=response, gain=SymNum(uf("gain", I, R)(i)), name=SymStr(uf("name", I, S)(i)),
                      delay=SymNum(uf("delay", I, R)(i)), type=SymStr(uf("type", I, S)(i)),
                      units_in=SymStr(uf("uin", I, S)(i)), units_out=SymStr(uf("uout", I, S)(i)), index=SymNum(i))

    def c_at(i, x):
        re, im = uf("resp.re", I, R, R), uf("resp.im", I, R, R)
        return SymComplex(SymNum(re(i, toreal(num_z3(x)))), SymNum(im(i, toreal(num_z3(x)))))

    def h_product(p):
        """response == product over all given filters (any number of them)"""
        f = p.array("f")
        fs = p.seq("filters", lambda i: filt(p, i))
        c = ChannelResponse()
        put(c, filters_list=fs)
        PR, PI = uf("prod.re", I, R, R), uf("prod.im", I, R, R)

        def acc(i):
            return SymArray(f.n, lambda q: SymComplex(SymNum(PR(i, toreal(num_z3(f.at(q))))), SymNum(PI(i, toreal(num_z3(f.at(q)))))))

        q0 = p.index(f, "q")
        x0 = toreal(num_z3(f.at(q0)))

        def define(i):
            """product over i+1 filters from the product over i"""
            a = SymComplex(SymNum(PR(i, x0)), SymNum(PI(i, x0))) * c_at(i, f.at(q0))
            return z3.And(PR(i + 1, x0) == num_z3(a.re), PI(i + 1, x0) == num_z3(a.im))

        def same(a, b):
            x, y = SymComplex.lift(a.at(q0)), SymComplex.lift(b.at(q0))
            return And(eq(x.re, y.re), eq(x.im, y.im))

        p.fact(z3.And(PR(0, x0) == 1, PI(0, x0) == 0))
        p.fact(define(z3.IntVal(0)))

        def specs(L, loc, names):
            off = 1 if loc_off(L) else 0
            return Fold("running product", lambda i: acc(i + off), lambda i: [define(i + off)], same)

        def loc_off(L):
            # a loop over filters[1:] starts with the first filter's response
            return not z3.simplify(L.seq.n.e).eq(z3.simplify(fs.n.e))

        p.loop_specs["*"] = specs
        h = c.complex_response(f, filters_list=fs)
        p.check("one value per frequency", eq(h.n, f.n))
        n = as_z3int(fs.n) if not isinstance(fs, list) else z3.IntVal(len(fs))
        if isinstance(fs, list):
            for k in range(len(fs)):
                p.fact(define(z3.IntVal(k)))
        g = SymComplex.lift(h.at(q0))
        p.check("product of all filter responses", And(eq(g.re, SymNum(PR(n, x0))), eq(g.im, SymNum(PI(n, x0)))))

    out.append(Contract("product of the filters", "ChannelResponse.complex_response", h_product))

    def mk_norm(shape):
        def h_norm(p):
            """normalising divides by one positive number, the largest magnitude"""
            if shape:
                p.use_ring().where_defined = True
                p.trusted("a normalised response is claimed only where the largest magnitude is not zero")
            f = p.array("f")
            fs = p.seq("filters", lambda i: filt(p, i), minlen=1)
            c = ChannelResponse()
            put(c, filters_list=fs)
            PR, PI = uf("prod.re", I, R, R), uf("prod.im", I, R, R)
            q0, q1 = p.index(f, "q"), p.index(f, "r")
            x = lambda q: toreal(num_z3(f.at(q)))

            total = []
            p.ufapps.setdefault("indices", []).extend([q0, q1])

            def specs(L, loc, names):
                base, off = L.seq.sliced if hasattr(L.seq, "sliced") else (L.seq, z3.IntVal(0))

                def define(i, q):
                    a = SymComplex(SymNum(PR(i, x(q))), SymNum(PI(i, x(q)))) * c_at(num_z3(base.at(i).index), f.at(q))
                    return z3.And(PR(i + 1, x(q)) == num_z3(a.re), PI(i + 1, x(q)) == num_z3(a.im))

                def same(a, b):
                    u, v = SymComplex.lift(a.at(q0)), SymComplex.lift(b.at(q0))
                    return And(eq(u.re, v.re), eq(u.im, v.im))

                total.append(z3.simplify(as_z3int(L.seq.n) + off))
                for q in (q0, q1):
                    p.fact(z3.And(PR(0, x(q)) == 1, PI(0, x(q)) == 0))
                    p.fact(define(z3.IntVal(0), q))
                return Fold("running product", lambda i: SymArray(f.n, lambda q: SymComplex(SymNum(PR(z3.simplify(i + off), x(q))), SymNum(PI(z3.simplify(i + off), x(q))))),
                            lambda i: [define(i + off, q0), define(i + off, q1)], same)

            p.loop_specs["*"] = specs
            P0 = lambda n: SymNum(PR(n, x(q0)) * PR(n, x(q0)) + PI(n, x(q0)) * PI(n, x(q0)))
            p.assume(P0(as_z3int(fs.n)) > 0)
            h = c.complex_response(f, filters_list=fs, normalize=True)
            if isinstance(fs, list):
                return
            n = total[-1]
            p.check("over all the filters", SymBool(n == as_z3int(fs.n)))
            a, b = SymComplex.lift(h.at(q0)), SymComplex.lift(h.at(q1))
            P, Q = SymComplex(SymNum(PR(n, x(q0))), SymNum(PI(n, x(q0)))), SymComplex(SymNum(PR(n, x(q1))), SymNum(PI(n, x(q1))))
            if shape:
                u, v = a * Q, b * P
                p.check("the shape is unchanged", And(eq(u.re, v.re), eq(u.im, v.im)))
                p.check("the phase is unchanged", eq(a.im * P.re, a.re * P.im))
            else:
                p.check("no magnitude above one", a.re * a.re + a.im * a.im <= 1)

        return h_norm

    out.append(Contract("normalised response: shape", "ChannelResponse.complex_response", mk_norm(True)))
    out.append(Contract("normalised response: size", "ChannelResponse.complex_response", mk_norm(False)))

    def h_gain(p):
        fs = p.seq("filters", lambda i: filt(p, i))
        c = ChannelResponse()
        put(c, filters_list=fs)
        G, gain = uf("prod.gain", I, R), uf("gain", I, R)
        p.fact(G(0) == 1)
        define = lambda i: G(i + 1) == G(i) * gain(i)
        p.loop_specs["*"] = lambda L, loc, names: Fold("running gain", lambda i: SymNum(G(i)), lambda i: [define(i)])
        seen = []
        rnd = mc.__dict__.get("round")
        mc.round = lambda v, nd=None: seen.append((v, nd)) or v
        import math as _m
        realnp = mc.np
        try:
            n = as_z3int(fs.n) if not isinstance(fs, list) else z3.IntVal(len(fs))
            if isinstance(fs, list):
                for k in range(len(fs)):
                    p.fact(define(z3.IntVal(k)))
            p.assume(SymBool(G(n) != 0))
            r = c.compute_total_gain()
        finally:
            if rnd is None:
                del mc.round
            mc.np = realnp
        v = seen[-1][0] if seen else r
        p.check("total gain is the product of the gains", eq(SymNum(toreal(num_z3(v))), SymNum(G(n))))

    out.append(Contract("total gain", "ChannelResponse.compute_total_gain", h_gain))

    def h_sensitivity(p):
        """the sensitivity is the magnitude of the product at the normalisation frequency"""
        re, im = uf("resp.re", I, R, R), uf("resp.im", I, R, R)
        given = p.bool("given")
        x, kept = p.real("frequency"), p.real("own frequency")
        at = x if bool(given) else kept

        def item(i):
            o = filt(p, i)

            def response(fr, *a, **k):
                fr = toreal(num_z3(fr))
                return SymArray(1, lambda q: SymComplex(SymNum(re(i, fr)), SymNum(im(i, fr))))

            o.complex_response = response
            return o

        fs = p.seq("filters", item)
        c = ChannelResponse()
        put(c, filters_list=fs, normalization_frequency=kept)
        PR, PI = uf("prod.re", I, R), uf("prod.im", I, R)
        xe = toreal(num_z3(at))

        def define(i):
            a = SymComplex(SymNum(PR(i)), SymNum(PI(i))) * SymComplex(SymNum(re(i, xe)), SymNum(im(i, xe)))
            return z3.And(PR(i + 1) == num_z3(a.re), PI(i + 1) == num_z3(a.im))

        n = as_z3int(fs.n) if not isinstance(fs, list) else z3.IntVal(len(fs))
        p.fact(z3.And(PR(0) == 1, PI(0) == 0))
        if isinstance(fs, list):
            for k in range(len(fs)):
                p.fact(define(z3.IntVal(k)))

        def acc(i):
            if isinstance(i, int) and i == 0:
                return 1.0
            return SymArray(1, lambda q: SymComplex(SymNum(PR(i)), SymNum(PI(i))))

        def same(a, b):
            u, v = [SymComplex.lift(w.at(z3.IntVal(0)) if isinstance(w, SymArray) else w) for w in (a, b)]
            return And(eq(u.re, v.re), eq(u.im, v.im))

        p.loop_specs["*"] = lambda L, loc, names: Fold("running product", acc, lambda i: [define(i)], same)
        m2 = PR(n) * PR(n) + PI(n) * PI(n)
        p.assume(SymBool(m2 > 0))
        seen = []
        rnd = mc.__dict__.get("round")
        mc.round = lambda v, nd=None: seen.append((v, nd)) or v
        try:
            r = c.compute_instrument_sensitivity(*([x] if bool(given) else []))
        finally:
            if rnd is None:
                del mc.round
        v = seen[-1][0] if seen else r
        v = v.at(z3.IntVal(0)) if isinstance(v, SymArray) else v
        v = SymNum(toreal(num_z3(v)))
        p.check("magnitude of the product", And(v >= 0, eq(v * v, SymNum(m2))))

    out.append(Contract("sensitivity", "ChannelResponse.compute_instrument_sensitivity", h_sensitivity))

    def h_delay(p):
        ty = uf("type", I, S)
        fs = p.seq("filters", lambda i: filt(p, i))
        c = ChannelResponse()
        put(c, filters_list=fs)
        D, delay = uf("sum.delay", I, R), uf("delay", I, R)
        p.fact(D(0) == 0)
        used = []

        def specs(L, loc, names):
            used.append(L.seq)
            return Fold("running delay", lambda i: SymNum(D(i)), lambda i: [D(i + 1) == D(i) + num_z3(L.seq.at(i).delay)])

        p.loop_specs["*"] = specs
        if isinstance(fs, list):
            r = c.total_delay
            want = z3.RealVal(0)
            for k in range(len(fs)):
                want = want + z3.If(ty(k) == z3.StringVal("time delay"), delay(k), z3.RealVal(0))
            p.check("total delay is the sum of the delays", eq(SymNum(toreal(num_z3(r))), SymNum(want)))
            return
        r = c.total_delay
        d = used[-1]
        p.check("total delay is the sum of the delays", eq(SymNum(toreal(num_z3(r))), SymNum(D(d.n.e))))
        summed(p, d, fs, ty, lambda t: t == z3.StringVal("time delay"))

    def summed(p, d, fs, ty, want):
        """d holds exactly the filters whose type meets `want`, in order"""
        j, k, l = z3.Int(p.fresh("j")), z3.Int(p.fresh("k")), z3.Int(p.fresh("l"))
        p.add(z3.And(j >= 0, j < d.n.e, l >= 0, l < d.n.e, j < l))
        p.check("only the wanted filters", SymBool(want(d.at(j).type.e)))
        p.check("in the original order", d.at(j).index < d.at(l).index)
        p.add(z3.And(k >= 0, k < fs.n.e, want(ty(k))))
        r = d.rank(k) if hasattr(d, "rank") else k
        p.check("every wanted filter is there", SymBool(z3.And(r >= 0, r < d.n.e, d.at(r).index.e == k)))

    out.append(Contract("total delay", ["ChannelResponse.total_delay", "ChannelResponse.delay_filters"], h_delay))

    def mk_list(attr, want):
        def h(p):
            ty = uf("type", I, S)
            fs = p.seq("filters", lambda i: filt(p, i))
            c = ChannelResponse()
            put(c, filters_list=fs)
            d = getattr(c, attr)
            if isinstance(fs, list):
                for k, o in enumerate(fs):
                    p.check("exactly the wanted filters", SymBool(want(ty(k)) == z3.BoolVal(any(o is x for x in d))))
                return
            summed(p, d, fs, ty, want)

        return h

    out.append(Contract("delay filters", "ChannelResponse.delay_filters", mk_list("delay_filters", lambda t: t == z3.StringVal("time delay"))))
    out.append(Contract("non-delay filters", "ChannelResponse.non_delay_filters", mk_list("non_delay_filters", lambda t: t != z3.StringVal("time delay"))))

    def h_units(p):
        """accepted filter lists are exactly the unit-consistent ones"""
        ui, uo = uf("uin", I, S), uf("uout", I, S)
        fs = p.seq("filters", lambda i: filt(p, i), minlen=0)
        lst = isinstance(fs, list)
        n = z3.IntVal(len(fs)) if lst else as_z3int(fs.n)
        k0 = z3.Int(p.fresh("k"))

        def specs(L, loc, names):
            from pyvc.api import Inv

            # previous units = output of the filter before; all pairs so far match
            live = [v for v in names if v in loc and isinstance(loc[v], SymStr)]
            if len(live) != 1:
                return None
            v = live[0]
            off = 0 if z3.simplify(L.seq.n.e).eq(z3.simplify(fs.n.e)) else 1
            ok = z3.Function("ok.upto", I, z3.BoolSort())

            def inv(i, env):
                return z3.And(env[v].e == uo(i + off - 1),
                              z3.Implies(z3.And(k0 >= 1, k0 < i + off), ui(k0) == uo(k0 - 1)))

            return Inv("units chain", [v], lambda i, env: {v: SymStr(uo(i + off - 1))}, inv)

        p.loop_specs["*"] = specs
        e = raises(p, lambda: ChannelResponse._check_consistency_of_units(fs))
        if e is None:
            p.assume(z3.And(k0 >= 1, k0 < n))
            p.check("accepted: each filter's input units are the previous output units", SymBool(ui(k0) == uo(k0 - 1)))
        else:
            p.check("rejected with a ValueError", isinstance(e, ValueError))

    out.append(Contract("unit chain", "ChannelResponse._check_consistency_of_units", h_units))

    # selection of filters: decimation and delay flags
    def h_select(p):
        ty, dec = uf("type", I, S), uf("dec", I, z3.BoolSort())

        def item(i):
            o = filt(p, i)
            o.decimation_active = SymBool(dec(i))
            return o

        fs = p.seq("filters", item)
        c = ChannelResponse()
        put(c, filters_list=fs)
        idc, idl = p.bool("include_decimation"), p.bool("include_delay")
        r = c.get_list_of_filters_to_remove(include_decimation=idc, include_delay=idl)
        want = lambda k: z3.And(z3.Or(idl.e, ty(k) != z3.StringVal("time delay")), z3.Or(idc.e, z3.Not(dec(k))))
        if isinstance(fs, list):
            got = list(r)
            pos = [next((k for k, o in enumerate(fs) if o is g), None) for g in got]
            p.check("a sublist in the original order", None not in pos and pos == sorted(set(pos)))
            for i in range(len(fs)):
                p.check("kept exactly when not excluded", SymBool(want(i) == z3.BoolVal(i in pos)))
            return
        n = z3.IntVal(len(r)) if isinstance(r, list) else as_z3int(r.n)
        j, l = z3.Int(p.fresh("j")), z3.Int(p.fresh("l"))
        p.add(z3.And(j >= 0, j < l, l < n))
        a, b = r.at(j), r.at(l)
        p.check("only the wanted filters", SymBool(want(num_z3(a.index))))
        p.check("in the original order", a.index < b.index)
        k = z3.Int(p.fresh("k"))
        p.add(z3.And(k >= 0, k < fs.n.e, want(k)))
        q = position(r, k)
        p.check("every wanted filter is there", SymBool(z3.And(q >= 0, q < n, num_z3(r.at(q).index) == k)))

    def mk_selected(normalize):
        def h_selected(p):
            """without a list, the product runs over exactly the selected filters, each once"""
            ty, dec = uf("type", I, S), uf("dec", I, z3.BoolSort())

            def item(i):
                o = filt(p, i)
                o.decimation_active = SymBool(dec(i))
                return o

            f = p.array("f")
            fs = p.seq("filters", item)
            c = ChannelResponse()
            put(c, filters_list=fs)
            idc, idl = p.bool("include_decimation"), p.bool("include_delay")
            want = lambda k: z3.And(z3.Or(idl.e, ty(k) != z3.StringVal("time delay")), z3.Or(idc.e, z3.Not(dec(k))))
            q0 = p.index(f, "q")
            PR, PI = uf("prod.re", I, R, R), uf("prod.im", I, R, R)
            x = lambda q: toreal(num_z3(f.at(q)))
            used = []

            def acc(i):
                return SymArray(f.n, lambda q: SymComplex(SymNum(PR(i, x(q))), SymNum(PI(i, x(q)))))

            def define(base, i, q):
                a = SymComplex(SymNum(PR(i, x(q))), SymNum(PI(i, x(q)))) * c_at(num_z3(base.at(i).index), f.at(q))
                return z3.And(PR(i + 1, x(q)) == num_z3(a.re), PI(i + 1, x(q)) == num_z3(a.im))

            def same(a, b):
                u, v = SymComplex.lift(a.at(q0)), SymComplex.lift(b.at(q0))
                return And(eq(u.re, v.re), eq(u.im, v.im))

            def specs(L, loc, names):
                base, off = L.seq.sliced if hasattr(L.seq, "sliced") else (L.seq, z3.IntVal(0))
                used.append(base)
                p.fact(z3.And(PR(0, x(q0)) == 1, PI(0, x(q0)) == 0))
                p.fact(define(base, z3.IntVal(0), q0))
                return Fold("running product", lambda i: acc(i + off), lambda i: [define(base, i + off, q0)], same)

            p.loop_specs["*"] = specs
            h = c.complex_response(f, include_decimation=idc, include_delay=idl, normalize=normalize)
            if isinstance(fs, list):
                return
            p.check("one value per frequency", eq(h.n, f.n))
            g = SymComplex.lift(h.at(q0))
            if not used:  # nothing selected
                p.check("one without filters", And(eq(g.re, 1), eq(g.im, 0)))
                k = z3.Int(p.fresh("k"))
                p.add(z3.And(k >= 0, k < fs.n.e, want(k)))
                for d in getattr(p, "selections", ()):
                    position(d, k)
                p.check("one everywhere only when no filter is selected", False)
                return
            base = used[-1]
            n = as_z3int(base.n)
            if not normalize:
                p.check("product of the selected responses", And(eq(g.re, SymNum(PR(n, x(q0)))), eq(g.im, SymNum(PI(n, x(q0))))))
            j, l = z3.Int(p.fresh("j")), z3.Int(p.fresh("l"))
            p.add(z3.And(j >= 0, j < l, l < n))
            p.check("only the wanted filters", SymBool(want(num_z3(base.at(j).index))))
            p.check("each filter once", base.at(j).index < base.at(l).index)
            k = z3.Int(p.fresh("k"))
            p.add(z3.And(k >= 0, k < fs.n.e, want(k)))
            q = position(base, k)
            p.check("every wanted filter is there", SymBool(z3.And(q >= 0, q < n, num_z3(base.at(q).index) == k)))

        return h_selected

    out.append(Contract("product of the selected filters", "ChannelResponse.complex_response", mk_selected(False)))
    out.append(Contract("filter selection", ["ChannelResponse.get_list_of_filters_to_remove",
                                             "ChannelResponse.get_indices_of_filters_to_remove"], h_select))
    return out


def runtime(reg):
    import math

    import numpy as np

    from pyvc.rt import Skip, close, require
    from mt_metadata.timeseries.filters import (ChannelResponse, CoefficientFilter, FIRFilter, FrequencyResponseTableFilter,
                                                PoleZeroFilter, TimeDelayFilter)

    UN = ["nanotesla", "millivolt", "volt", "digital counts", "millivolt per kilometer"]

    def gen(rng, tier):
        for _ in range(250 if tier == "quick" else 4000):
            n = rng.randint(0, 5)
            fl = []
            for k in range(n):
                t = rng.choice(["coefficient", "time delay", "zpk", "fir", "fap", "coefficient"])
                d = {"t": t, "gain": float(f"{10 ** rng.uniform(-4, 4):.5g}")}
                if t == "time delay":
                    d["delay"] = round(rng.uniform(-1, 1), 3)
                    d["gain"] = 1.0
                if t == "fir":
                    d["dec"] = rng.choice([1.0, 2.0, 4.0])
                fl.append(d)
            units = [rng.choice(UN) for _ in range(n + 1)]
            yield {"fl": fl, "units": units, "dup": rng.choice([9, 9, 1, 2]), "break": rng.random() < .15, "f": sorted({round(10 ** rng.uniform(-3, 1), 5) for _ in range(rng.randint(2, 8))}),
                   "dec": rng.random() < .5, "delay": rng.random() < .5}

    def build(i):
        res = []
        for k, d in enumerate(i["fl"]):
            u = dict(name=f"{d['t'].replace(' ', '_')}_{k % i.get('dup', 9)}", gain=d["gain"], units_in=i["units"][k], units_out=i["units"][k + 1], sequence_number=k + 1)
            t = d["t"]
            if t == "coefficient":
                res.append(CoefficientFilter(**u))
            elif t == "time delay":
                res.append(TimeDelayFilter(delay=d["delay"], **u))
            elif t == "zpk":
                res.append(PoleZeroFilter(poles=[-1 - k - 1j, -1 - k + 1j], zeros=[0.0] if k % 2 else [], normalization_factor=2.0, **u))
            elif t == "fir":
                res.append(FIRFilter(coefficients=[.25, .5, .25], decimation_factor=d["dec"], decimation_input_sample_rate=64., **u))
            else:
                res.append(FrequencyResponseTableFilter(frequencies=[1e-4, 1e-2, 1, 100.], amplitudes=[1., 2., 4., 3.], phases=[.1, .3, .2, 0], **u))
        return res

    @reg.rt("composition", gen, ["ChannelResponse"], "250 filter chains of 0..5 filters")
    def comp(i):
        fl = build(i)
        if i["break"] and len(fl) > 1:
            k = len(fl) // 2
            fl[k].units_in = "tesla"
            if fl[k - 1].units_out == "tesla":
                raise Skip
            try:
                ChannelResponse(filters_list=fl)
            except ValueError:
                return
            require(False, "a filter chain with inconsistent units was accepted")
        x = np.array(i["f"])
        c = ChannelResponse(filters_list=list(fl))
        require([f.name for f in c.filters_list] == [f.name for f in fl], "the filters were reordered or dropped")
        require(c.names == [f.name for f in fl], "names")
        if fl:
            require(c.units_in == fl[0].units_in and c.units_out == fl[-1].units_out,
                    f"response maps {c.units_in} to {c.units_out}, filters map {fl[0].units_in} to {fl[-1].units_out}")
        isdel = lambda f: f.type == "time delay"
        isdec = lambda f: getattr(f, "decimation_factor", 1.0) != 1.0
        keep = [f for f in fl if (i["delay"] or not isdel(f)) and (i["dec"] or not isdec(f))]
        dumps = [repr(f.model_dump()) for f in c.filters_list]
        h = c.complex_response(x, include_decimation=i["dec"], include_delay=i["delay"])
        want = np.ones(len(x), dtype=complex)
        for f in keep:
            want = want * f.complex_response(x)
        require(h.shape == want.shape and np.allclose(h, want, rtol=1e-9, atol=0), f"response is not the product of the {len(keep)} kept filters")
        require([repr(f.model_dump()) for f in c.filters_list] == dumps, "evaluating changed the filters")
        h2 = c.complex_response(x, filters_list=fl)
        full = np.ones(len(x), dtype=complex)
        for f in fl:
            full = full * f.complex_response(x)
        require(np.allclose(h2, full, rtol=1e-9, atol=0), "explicit filter list response is not their product")
        if len(fl) > 1:
            h3 = c.complex_response(x, filters_list=fl[::-1])
            require(np.allclose(h2, h3, rtol=1e-9, atol=0), "response depends on the order of the filters")
        hn = c.complex_response(x, include_decimation=i["dec"], include_delay=i["delay"], normalize=True)
        if keep:
            require(close(np.abs(hn).max(), 1.0, 1e-9), "normalised response does not peak at one")
            require(np.allclose(hn * np.abs(want).max(), want, rtol=1e-9, atol=0), "normalisation changed the shape")
        require(close(c.total_delay, sum(f.delay for f in fl if isdel(f)), 1e-12, 1e-12), "total delay")
        require([f.name for f in c.delay_filters] == [f.name for f in fl if isdel(f)], "delay filters")
        require([f.name for f in c.non_delay_filters] == [f.name for f in fl if not isdel(f)], "non delay filters")
        if fl:
            g = float(np.prod([f.gain for f in fl]))
            require(close(c.compute_total_gain(), g, 1e-12), f"total gain {c.compute_total_gain()}, product {g}")
            nf = float(x[0])
            s = c.compute_instrument_sensitivity(normalization_frequency=nf)
            w = abs(np.prod([f.complex_response(np.array([nf]))[0] for f in fl]))
            require(close(float(s), w, 2e-6), f"sensitivity at {nf} is {s}, magnitude of the response {w}")
