"""Stations to process as a table, and collections of Fourier coefficients."""

ASSUMPTIONS = [
    "pandas builds a table of one row per dictionary of a list, in its order, gives the rows back in that order with their values, concatenates tables one after the other and reads ISO 8601 text as the instants it spells (exercised at run time)",
    "the text of a time and a time read from its text are those proved in P04",
    "a collection of members is the ordered mapping proved in P01",
]
STN, STS, RUN = "Station.", "Stations.", "Run."
DEFAULT_TEXT = "1980-01-01T00:00:00+00:00"


def contracts():
    import mt_metadata.processing.aurora.station as M_station
    import mt_metadata.processing.aurora.stations as M_stations
    import mt_metadata.processing.fourier_coefficients.decimation as M_dec
    from mt_metadata.common import TimePeriod
    from mt_metadata.common.list_dict import ListDict
    from mt_metadata.processing.aurora.channel import Channel
    from mt_metadata.processing.aurora.run import Run
    from mt_metadata.processing.aurora.station import Station
    from mt_metadata.processing.aurora.stations import Stations
    from mt_metadata.processing.fourier_coefficients.decimation import Decimation
    from mt_metadata.processing.fourier_coefficients.fc import FC
    from mt_metadata.processing.fourier_coefficients.fc_channel import FCChannel
    from pyvc import core
    from pyvc.api import And, Contract, Filters, Fold, Implies, Inv, Not, Or, SymBool, SymNum, SymObj, SymSeq, SymStr, Unsupported, eq, num_z3, put, raises, z3
    from pyvc.helpers import SymOpaque, VDict, VList, same, unl
    from pyvc.mapmodel import SymOD

    I, S, R, B = z3.IntSort(), z3.StringSort(), z3.RealSort(), z3.BoolSort()
    out = []

    def uf(n, *a):
        return z3.Function(n, *a)

    def b(x):
        return x if isinstance(x, SymBool) else SymBool(z3.BoolVal(bool(x)))

    def vl(seq):
        r = VList()
        r.sym = seq
        return r

    def index(p, n, name="j"):
        j = z3.Int(p.fresh(name))
        p.add(z3.And(j >= 0, j < num_z3(n)))
        p.ufapps.setdefault("indices", []).append(j)
        return j

    def swap(module, **names):
        """run with stand-ins for names of a module"""

        class C:
            def __enter__(self):
                self.old = {k: getattr(module, k) for k in names}
                for k, v in names.items():
                    setattr(module, k, v)

            def __exit__(self, *a):
                for k, v in self.old.items():
                    setattr(module, k, v)

        return C()

    # ===================================================== Fourier coefficients
    class T(SymNum):
        """an instant; 0 is the 1980 default"""

        __slots__ = ()

        def __eq__(self, o):
            if isinstance(o, str):
                if o[:10] != DEFAULT_TEXT[:10]:
                    raise Unsupported("comparison with another time text")
                return SymBool(self.e == 0)
            return SymNum.__eq__(self, o)

        def __ne__(self, o):
            return Not(self == o)

        __hash__ = None

    def members(p, name, mk):
        od = SymOD(name, mk)
        p.inputs[name + ".n"] = SymNum(od.n)
        ld = ListDict()
        ld._home = od
        return ld, od

    def mk_period(cls, mcls, attr):
        def h(p):
            for c in ("set", "no change"):
                p.declare_cover(c)
            sf, ef = uf("start", S, I), uf("end", S, I)
            ld, od = members(p, "m", lambda k: SymObj(mcls, time_period=put(TimePeriod(), start=T(sf(k)), end=T(ef(k)))))
            s0, e0 = p.int("old_start"), p.int("old_end")
            o = put(cls(), **{attr: ld, "time_period": put(TimePeriod(), start=T(s0.e), end=T(e0.e))})
            own = o.time_period
            st, en = (lambda i: sf(od.key(i))), (lambda i: ef(od.key(i)))
            p.loop_specs["*"] = [Filters("the set times so far", [
                (lambda n: "start" in n, lambda i: st(i) != 0, lambda i: T(st(i))),
                (lambda n: "end" in n, lambda i: en(i) != 0, lambda i: T(en(i))),
            ])]
            j = index(p, od.n)
            st(j), en(j)
            o.update_time_period()
            p.check("the same period object", o.time_period is own)
            kk, w = uf("m.key", I, S), z3.Int("w")
            for nm, old, new, val, raw, le in (("start", s0.e, num_z3(own.__dict__["start"]), st, sf, lambda a, c: a <= c),
                                               ("end", e0.e, num_z3(own.__dict__["end"]), en, ef, lambda a, c: a >= c)):
                p.check(f"{nm} covers every member", SymBool(z3.Implies(val(j) != 0, le(new, val(j)))))
                p.check(f"{nm} covers the former period", SymBool(z3.Implies(old != 0, le(new, old))))
                p.check(f"{nm} is its own or a member's", SymBool(z3.Or(new == old, z3.Exists([w], z3.And(w >= 0, w < od.n, raw(kk(w)) == new, raw(kk(w)) != 0)))))
                p.cover("set" if p.branch(new != old) else "no change")

        return h

    for cls, mcls, attr, nm in ((Decimation, FCChannel, "channels", "Fourier coefficients of a level"), (FC, Decimation, "levels", "Fourier coefficients")):
        out.append(Contract(f"period of the {nm}", f"{cls.__name__}.update_time_period", mk_period(cls, mcls, attr), covers=["set", "no change"],
                            replay=("period of Fourier coefficients", lambda m, c=cls.__name__: {"kind": c, "own": [0, 5], "times": [[0, 9], [3, 0], [2, 5]]})))

    class Member(SymObj):
        """a member that records what it is updated with"""

        def __init__(self, cls, log, **a):
            SymObj.__init__(self, cls, **a)
            object.__setattr__(self, "log", log)

        def update(self, other, *a, **k):
            self.log.append((self, other))

    def fc_with(p):
        """Fourier coefficients whose list of levels names the levels in their order"""
        tag, log = uf("tag", S, I), []
        ld, od = members(p, "m", lambda k: Member(Decimation, log, id=SymStr(k), tag=SymNum(tag(k))))
        return put(FC(), levels=ld, decimation_levels=vl(od.keys_seq())), od, tag, log

    def h_fc_list(p):
        o, od, tag, _ = fc_with(p)
        c = p.string("c")
        p.ufapps.setdefault("indices", []).append(od.pos(c.e))
        inside = SymBool(od.has(c.e))
        p.check("has exactly the levels", eq(b(o.has_decimation_level(c)), inside))
        p.check("count", eq(o.n_decimation_levels, SymNum(od.n)))
        g, i = o.get_decimation_level(c), o.decimation_level_index(c)
        if p.branch(inside.e):
            p.check("get returns the level", And(eq(g.tag, SymNum(tag(c.e))), eq(g.id, c)) if g is not None else False)
            p.check("index of the level", eq(i, SymNum(od.pos(c.e))) if i is not None else False)
        else:
            p.check("no such level", g is None and i is None)

    out.append(Contract("listing of levels", ["FC.has_decimation_level", "FC.get_decimation_level", "FC.decimation_level_index", "FC.n_decimation_levels"], h_fc_list))

    def in_step(p, o):
        """the list of levels still names the levels in their order"""
        home, names = unl(o.levels._home), unl(o.decimation_levels)
        if not isinstance(names, SymSeq):
            raise Unsupported("the list of levels is not symbolic")
        p.check("as many names as levels", eq(names.n, SymNum(home.n)))
        j = index(p, home.n)
        p.check("the names are those of the levels, in order", eq(names.at(j), SymStr(home.key(j))))

    def h_fc_remove(p):
        o, od, tag, _ = fc_with(p)
        c, x = p.string("c"), z3.String(p.fresh("x"))
        n0, key0, pos0, has0, val0 = od.state()
        p.ufapps.setdefault("indices", []).append(od.pos(c.e))
        calls = []
        o.__dict__["update_time_period"] = lambda: calls.append(unl(o.levels._home).version())
        o.remove_decimation_level(c)
        n1, key1, pos1, has1, val1 = unl(o.levels._home).state()
        p.check("only the named level goes", SymBool(has1(x) == z3.And(has0(x), x != c.e)))
        if p.branch(has1(x)):
            p.check("the others stay as they are", eq(val1(x).tag, val0(x).tag))
        in_step(p, o)
        p.check("the period is updated afterwards", calls != [] and calls[-1] == unl(o.levels._home).version())

    out.append(Contract("removing a level", "FC.remove_decimation_level", h_fc_remove, replay=("collections of Fourier coefficients", lambda m: {"seed": 1})))

    def h_fc_add(p):
        o, od, tag, log = fc_with(p)
        c, x = p.string("c"), z3.String(p.fresh("x"))
        n0, key0, pos0, has0, val0 = od.state()
        p.ufapps.setdefault("indices", []).append(od.pos(c.e))
        new = Member(Decimation, log, id=c, tag=p.int("newtag"))
        calls = []
        o.__dict__["update_time_period"] = lambda: calls.append(unl(o.levels._home).version())
        o.add_decimation_level(new)
        n1, key1, pos1, has1, val1 = unl(o.levels._home).state()
        p.check("nothing is lost and only the level is added", SymBool(has1(x) == z3.Or(has0(x), x == c.e)))
        if p.branch(z3.And(has0(x), x != c.e)):
            p.check("the others stay as and where they are", And(eq(val1(x).tag, val0(x).tag), SymBool(pos1(x) == pos0(x))))
        if p.branch(has0(c.e)):
            p.check("a present level is updated in place", len(log) == 1 and log[0][1] is new)
            if len(log) == 1:
                p.check("the updated one is the present one", And(eq(log[0][0].tag, SymNum(tag(c.e))), SymBool(pos1(c.e) == pos0(c.e))))
        else:
            p.check("a new level goes last", And(SymBool(pos1(c.e) == n0), eq(val1(c.e).tag, new.tag)))
            p.check("nothing else is updated", log == [])
        in_step(p, o)
        p.check("the period is updated afterwards", calls != [] and calls[-1] == unl(o.levels._home).version())

    out.append(Contract("adding a level", "FC.add_decimation_level", h_fc_add, replay=("collections of Fourier coefficients", lambda m: {"seed": 2})))

    def dec_with(p):
        """a level whose estimated channels are among its channels"""
        tag, log = uf("tag", S, I), []
        ld, od = members(p, "m", lambda k: Member(FCChannel, log, component=SymStr(k), tag=SymNum(tag(k))))
        est = SymOD("e", lambda k: SymNum(tag(k)))
        return put(Decimation(), channels=ld, channels_estimated=vl(est.keys_seq())), od, est, tag, log

    def h_dec_list(p):
        o, od, est, tag, _ = dec_with(p)
        c = p.string("c")
        p.ufapps.setdefault("indices", []).append(est.pos(c.e))
        p.assume(SymBool(z3.Implies(est.has(c.e), od.has(c.e))))
        inside = SymBool(est.has(c.e))
        p.check("has exactly the estimated channels", eq(b(o.has_channel(c)), inside))
        p.check("count", eq(o.n_channels, SymNum(od.n)))
        g, i = o.get_channel(c), o.channel_index(c)
        if p.branch(inside.e):
            p.check("get returns the channel", And(eq(g.tag, SymNum(tag(c.e))), eq(g.component, c)) if g is not None else False)
            p.check("index of the channel", eq(i, SymNum(est.pos(c.e))) if i is not None else False)
        else:
            p.check("no such channel", g is None and i is None)

    out.append(Contract("listing of channels of a level", ["Decimation.has_channel", "Decimation.get_channel", "Decimation.channel_index", "Decimation.n_channels"], h_dec_list))

    def h_dec_remove(p):
        o, od, est, tag, _ = dec_with(p)
        c, x = p.string("c"), z3.String(p.fresh("x"))
        n0, key0, pos0, has0, val0 = od.state()
        e0 = est.state()
        w = est.pos(c.e)
        p.ufapps.setdefault("indices", []).append(w)
        p.assume(SymBool(z3.Implies(est.has(c.e), od.has(c.e))))
        calls = []
        o.__dict__["update_time_period"] = lambda: calls.append(unl(o.channels._home).version())
        o.remove_channel(c)
        n1, key1, pos1, has1, val1 = unl(o.channels._home).state()
        gone = z3.And(x == c.e, e0[3](x))
        p.check("only the named channel goes", SymBool(has1(x) == z3.And(has0(x), z3.Not(gone))))
        if p.branch(has1(x)):
            p.check("the others stay as they are", eq(val1(x).tag, val0(x).tag))
        names = unl(o.channels_estimated)
        j = index(p, names.n)
        if p.branch(e0[3](c.e)):
            p.check("one name fewer", eq(names.n, SymNum(e0[0] - 1)))
            p.check("the other names keep their order", eq(names.at(j), SymStr(z3.If(j < w, e0[1](j), e0[1](j + 1)))))
        else:
            p.check("the names stay", And(eq(names.n, SymNum(e0[0])), eq(names.at(j), SymStr(e0[1](j)))))
        p.check("the period is updated afterwards", calls != [] and calls[-1] == unl(o.channels._home).version())

    out.append(Contract("removing a channel of a level", "Decimation.remove_channel", h_dec_remove, replay=("collections of Fourier coefficients", lambda m: {"seed": 3})))

    def h_dec_add(p):
        o, od, est, tag, log = dec_with(p)
        c, x = p.string("c"), z3.String(p.fresh("x"))
        n0, key0, pos0, has0, val0 = od.state()
        inside = est.has(c.e)
        p.ufapps.setdefault("indices", []).append(est.pos(c.e))
        p.assume(SymBool(inside == od.has(c.e)))
        new = Member(FCChannel, log, component=c, tag=p.int("newtag"))
        calls = []
        o.__dict__["update_time_period"] = lambda: calls.append(unl(o.channels._home).version())
        o.add_channel(new)
        n1, key1, pos1, has1, val1 = unl(o.channels._home).state()
        p.check("nothing is lost and only the channel is added", SymBool(has1(x) == z3.Or(has0(x), x == c.e)))
        if p.branch(z3.And(has0(x), x != c.e)):
            p.check("the others stay as and where they are", And(eq(val1(x).tag, val0(x).tag), SymBool(pos1(x) == pos0(x))))
        if p.branch(has0(c.e)):
            p.check("a present channel is updated in place", len(log) == 1 and log[0][1] is new)
            if len(log) == 1:
                p.check("the updated one is the present one", And(eq(log[0][0].tag, SymNum(tag(c.e))), SymBool(pos1(c.e) == pos0(c.e))))
        else:
            p.check("a new channel goes last", And(SymBool(pos1(c.e) == n0), eq(val1(c.e).tag, new.tag)))
            p.check("nothing else is updated", log == [])
        p.check("the period is updated afterwards", calls != [] and calls[-1] == unl(o.channels._home).version())

    out.append(Contract("adding a channel to a level", "Decimation.add_channel", h_dec_add, replay=("collections of Fourier coefficients", lambda m: {"seed": 4})))

    # ------------------------------------------------------ length of a series
    def h_length(p):
        d = Decimation()
        n, need, ov, least = p.int("n"), p.int("window"), p.int("overlap"), p.int("least")
        p.assume(And(n >= 0, need >= 1, ov >= 0, ov < need, least >= 1))
        put(d.stft.window, num_samples=need, overlap=ov)
        put(d.stft, min_num_stft_windows=least)
        ok = d.is_valid_for_time_series_length(n)
        # windows of `need` samples, each `need - ov` after the last, that fit into n samples
        k = p.int("windows")
        p.assume(And(k >= 0, Implies(k >= 1, need + (k - 1) * (need - ov) <= n), need + k * (need - ov) > n))
        p.check("valid when the least number of windows fits", eq(b(ok), least <= k), lemmas=[(k - least) * (need - ov) == k * (need - ov) - least * (need - ov)])

    out.append(Contract("length of a time series for a level", "Decimation.is_valid_for_time_series_length", h_length, replay=("length of a series", lambda m: {"n": 480, "window": 256, "overlap": 32, "least": 2})))

    # ----------------------------------------------------- levels by factors
    def mk_levels(n, given):
        def h(p):
            r0 = p.real("rate")
            fs = [p.real(f"factor{k}") for k in range(n)]
            for f in fs:
                p.assume(f > 0)
            if given:
                ls = M_dec.fc_decimations_creator(r0, decimation_factors=fs)
            else:
                ls = M_dec.fc_decimations_creator(r0, max_levels=n)
                fs = [1] + [4] * (n - 1)
            p.check("a level for each factor", len(ls) == n)
            rate = r0
            for k, d in enumerate(ls):
                ts = d.time_series_decimation
                rate = rate / fs[k] if k else rate
                p.check("levels are numbered from 0", And(eq(d.id, str(k)), eq(ts.level, k)))
                p.check("the factor of a level", eq(ts.factor, fs[k]))
                p.check("the rate of a level is that of the one above divided by its factor", eq(ts.sample_rate, rate))

        return h

    for n in (1, 2, 3, 4):
        out.append(Contract(f"{n} levels by factors", "fc_decimations_creator", mk_levels(n, True), bounded=f"{n} factors of any value", replay=("levels by factors", lambda m, n=n: {"rate": 8.0, "factors": [1, 4, 2, 8, 4][:n]})))
        out.append(Contract(f"{n} levels by default", "fc_decimations_creator", mk_levels(n, False), bounded=f"{n} levels", replay=("levels by factors", lambda m, n=n: {"rate": 8.0, "factors": None, "levels": n})))

    # ============================================================== processing
    def h_get_run(p):
        n = p.int("runs")
        p.assume(n >= 0)
        idf = uf("run.id", I, S)
        o = put(Station(), runs=vl(SymSeq(n, lambda i: SymObj(Run, id=SymStr(idf(i)), index=SymNum(i)), "runs")))
        c = p.string("c")
        j = index(p, n)
        g = o.get_run(c)
        if g is None:
            p.check("no run has the identifier", SymBool(idf(j) != c.e))
        else:
            p.check("the run has the identifier", And(eq(g.id, c), g.index >= 0, g.index < n))
        names = unl(o.run_list)
        p.check("names in order", And(eq(names.n, n), eq(names.at(j), SymStr(idf(j)))))

    out.append(Contract("a run of a station", [STN + "get_run", STN + "run_dict", STN + "run_list"], h_get_run, replay=("stations and runs", lambda m: {"seed": 0})))

    def h_get_station(p):
        n = p.int("remotes")
        p.assume(n >= 0)
        idf, here = uf("station.id", I, S), p.string("local")
        local = SymObj(Station, id=here)
        o = put(Stations(), local=local, remote=vl(SymSeq(n, lambda i: SymObj(Station, id=SymStr(idf(i)), index=SymNum(i)), "remotes")))
        c = p.string("c")
        j = index(p, n)
        box = []
        e = raises(p, lambda: box.append(o.get_station(c)), KeyError)
        if e is not None:
            p.check("no station has the identifier", SymBool(z3.And(idf(j) != c.e, here.e != c.e)))
        elif box[0] is local:
            p.check("the local station has the identifier", eq(here, c))
        else:
            p.check("the remote station has the identifier", And(eq(box[0].id, c), box[0].index >= 0, box[0].index < n))
            p.check("the local station comes first", Not(eq(here, c)))

    out.append(Contract("a station of the set", [STS + "get_station", STS + "remote_dict"], h_get_station, replay=("stations and runs", lambda m: {"seed": 1})))

    def h_add_remote(p):
        n = p.int("remotes")
        p.assume(n >= 0)
        old = SymSeq(n, lambda i: SymObj(Station, index=SymNum(i)), "remotes")
        o = put(Stations(), remote=vl(old))
        new = SymObj(Station, id=p.string("id"), remote=bool(p.choose(2, "flag")))
        o.add_remote(new)
        s = unl(o.remote)
        p.check("one station more", eq(s.n, n + 1))
        p.check("the new one goes last", s.at(n.e) is new)
        j = index(p, n)
        p.check("the others stay", eq(s.at(j).index, SymNum(j)))
        p.check("it is remote", eq(b(new.remote), True))
        for bad in ("rr", None, 3, [new]):
            p.check("other things are refused", raises(p, lambda: o.add_remote(bad), TypeError) is not None)

    out.append(Contract("adding a remote station", STS + "add_remote", h_add_remote, replay=("stations and runs", lambda m: {"seed": 2})))

    def h_names(p):
        n = p.int("channels")
        p.assume(n >= 0)
        for which in ("input", "output"):
            idf = uf(which + ".id", I, S)
            o = put(Run(), **{which + "_channels": vl(SymSeq(n, lambda i: SymObj(Channel, id=SymStr(idf(i))), "channels"))})
            s = unl(getattr(o, which + "_channel_names"))
            j = index(p, n)
            p.check(f"names of the {which} channels in order", And(eq(s.n, n), eq(s.at(j), SymStr(idf(j)))))

    out.append(Contract("names of the channels of a run", [RUN + "input_channel_names", RUN + "output_channel_names"], h_names))

    def h_set_scale(p):
        wanted = SymOD("scale", lambda k: SymNum(uf("scale.of", S, R)(k)), pytype=dict)
        writes = []

        class Ch(SymObj):
            def __init__(self, which, i):
                SymObj.__init__(self, Channel, id=SymStr(uf(which + ".id", I, S)(i)), scale_factor=SymNum(uf(which + ".old", I, R)(i)))
                object.__setattr__(self, "_ident", (which, i))

            def __setattr__(self, k, v):
                if k != "scale_factor":
                    raise Unsupported("another attribute of a channel is set")
                writes.append((self._ident, v))

        seqs = {}
        for which in ("input", "output"):
            n = p.int(which)
            p.assume(n >= 0)
            seqs[which] = SymSeq(n, lambda i, which=which: Ch(which, i), which)
        o = put(Run(), input_channels=vl(seqs["input"]), output_channels=vl(seqs["output"]))
        done = []

        def spec(loop, loc, names):
            which = [w for w in seqs if loop_over(loop.seq, seqs[w])]
            if len(which) != 1:
                raise Unsupported("a loop over something else than the channels")
            which = which[0]
            done.append(which)
            start = len(writes)

            def inv(i, env):
                got = writes[start:]
                if z3.is_int_value(i) or not loop.__dict__.get("is_arb"):
                    return SymBool(z3.BoolVal(not got))
                k = z3.simplify(i - 1)
                ident = uf(which + ".id", I, S)(k)
                want = SymNum(uf("scale.of", S, R)(ident))
                mine = [v for (w, q), v in got if w == which and p._sat(q != k) == z3.unsat]
                if len(mine) != len(got):
                    return SymBool(z3.BoolVal(False))
                if p.branch(wanted.has(ident)):
                    return [eq(mine[-1], want)] if mine else SymBool(z3.BoolVal(False))
                return And([eq(v, SymNum(uf(which + ".old", I, R)(k))) for v in mine]) if mine else SymBool(z3.BoolVal(True))

            return Inv("each channel met has its factor, no other is written", [], lambda i, env: {}, inv)

        p.loop_specs["*"] = spec
        o.set_channel_scale_factors(wanted)
        p.check("the channels of both kinds are gone through once", sorted(done) == ["input", "output"])

    def loop_over(s, want):
        """is s the list, or the list numbered?"""
        return s is want or getattr(s, "mapped", None) is want or getattr(s, "enumerated", None) is want or (s.n.e.eq(want.n.e))

    out.append(Contract("scale factors of the channels", RUN + "set_channel_scale_factors", h_set_scale, replay=("stations and runs", lambda m: {"seed": 3})))

    def mk_scale(ni, no):
        def h(p):
            chs = [(p.string(f"id{k}"), p.real(f"factor{k}")) for k in range(ni + no)]
            mk = lambda a: [SymObj(Channel, id=i, scale_factor=f) for i, f in a]
            for k, (i, _) in enumerate(chs):
                for j, _ in chs[:k]:
                    p.assume(Not(eq(i, j)))
            o = put(Run(), input_channels=mk(chs[:ni]), output_channels=mk(chs[ni:]))
            d = o.channel_scale_factors
            p.check("an entry for each channel", len(list(d.items())) == len(chs) if not isinstance(unl(d), SymOD) else eq(SymNum(unl(d).n), len(chs)))
            for i, f in chs:
                p.check("the factor of a channel", eq(d[i], f))

        return h

    for ni, no in ((0, 0), (1, 0), (0, 1), (2, 1), (2, 3)):
        out.append(Contract(f"factors of {ni} and {no} channels", RUN + "channel_scale_factors", mk_scale(ni, no), bounded=f"{ni} input and {no} output channels of any name and factor", replay=("stations and runs", lambda m: {"seed": 4})))

    # ---------------------------------------------------------- to a table
    class Column:
        def __init__(self, t, k):
            self.t, self.k = t, k

    class Times(Column):
        pass

    class Table(SymOpaque):
        def __init__(self, rows):
            self.rows, self.over = unl(rows), {}

        def length(self):
            return self.rows.n if isinstance(self.rows, SymSeq) else len(self.rows)

        def __bool__(self):
            raise ValueError("the truth value of a table is ambiguous")

        @property
        def empty(self):
            r = self.length()
            return r == 0

        def __getitem__(self, k):
            return Column(self, k)

        def __setitem__(self, k, v):
            self.over[k] = v

    class PD:
        @staticmethod
        def DataFrame(rows):
            return Table(rows)

        @staticmethod
        def to_datetime(c, format=None, **k):
            if format not in ("ISO8601",) or k:
                raise Unsupported("times read in another way")
            return Times(c.t, c.k)

    COLS = ["station", "run", "start", "end", "mth5_path", "sample_rate", "input_channels", "output_channels", "remote", "channel_scale_factors"]

    def h_to_table(p):
        n = p.int("runs")
        p.assume(n >= 0)
        cnt, off = uf("periods", I, I), uf("offset", I, I)
        name = {k: uf("run." + k, I, S) for k in ("id", "in", "out", "factors")}
        rate, st, en = uf("run.rate", I, R), uf("period.start", I, I, S), uf("period.end", I, I, S)

        def run(i):
            p.fact(z3.And(cnt(i) >= 0, off(z3.IntVal(0)) == 0, off(i + 1) == off(i) + cnt(i), off(i) >= 0))
            return SymObj(Run, id=SymStr(name["id"](i)), sample_rate=SymNum(rate(i)), input_channel_names=SymStr(name["in"](i)), output_channel_names=SymStr(name["out"](i)),
                          channel_scale_factors=SymStr(name["factors"](i)), index=i,
                          time_periods=vl(SymSeq(SymNum(cnt(i)), lambda j: SymObj(TimePeriod, start=SymStr(st(i, j)), end=SymStr(en(i, j))), "periods")))

        path, sid, rem = SymStr(z3.String("path")), p.string("station"), p.bool("remote")
        o = put(Station(), id=sid, mth5_path=path, remote=rem, runs=vl(SymSeq(n, run, "runs")))
        state = {}

        def expected(i, j):
            return {"station": sid, "run": SymStr(name["id"](i)), "start": SymStr(st(i, j)), "end": SymStr(en(i, j)), "mth5_path": path, "sample_rate": SymNum(rate(i)),
                    "input_channels": SymStr(name["in"](i)), "output_channels": SymStr(name["out"](i)), "remote": rem, "channel_scale_factors": SymStr(name["factors"](i))}

        def row_is(x, i, j):
            x = unl(x)
            w = expected(i, j)
            if not isinstance(x, dict) or set(x) != set(COLS):
                return SymBool(z3.BoolVal(False))
            return And([eq(x[k], w[k]) for k in COLS])

        def element(q):
            return ("row", q)

        def the_list(loc):
            c = []
            for v in loc.values():
                if type(v) is VList and (list.__len__(v) == 0 or v.sym is not None) and not any(v is x for x in c):
                    c.append(v)
            if state.get("list") is not None:
                return state["list"]
            if len(c) != 1:
                raise Unsupported("the list of rows was not found")
            return c[0]

        def spec(loop, loc, names):
            outer = "list" not in state
            lst = the_list(loc)
            if outer:
                state["list"] = lst

                def havoc(i, env):
                    run(i)
                    lst.sym = SymSeq(SymNum(off(i)), element, "rows")
                    state["i"], state["sym"] = i, lst.sym
                    return {}

                def inv(i, env):
                    run(i)
                    run(z3.simplify(i - 1))
                    s = lst.sym
                    size = s.n.e if s is not None else z3.IntVal(list.__len__(lst))
                    if z3.is_int_value(i) or s is state.get("sym"):
                        return eq(SymNum(size), SymNum(off(i)))
                    return And(b(s is state.get("inner")), eq(SymNum(size), SymNum(off(i))))
            else:
                i0, base = state["i"], lst.sym

                def havoc(j, env):
                    lst.sym = SymSeq(SymNum(off(i0) + j), element, "rows")
                    state["inner"] = lst.sym
                    return {}

                def inv(j, env):
                    s = lst.sym
                    if s is base or s is state.get("inner"):
                        return eq(s.n, SymNum(off(i0) + (j if s is state.get("inner") else 0)))
                    if getattr(s, "prefix", None) is not state.get("inner"):
                        return SymBool(z3.BoolVal(False))
                    return [eq(s.n, SymNum(off(i0) + j)), row_is(s.last, i0, z3.simplify(j - 1))]

            iv = Inv("a row for each period of the runs so far" if outer else "a row for each period of the run so far", [], havoc, inv)
            iv.may_modify = lambda x: x is lst
            return iv

        p.loop_specs["*"] = spec
        with swap(M_station, pd=PD):
            t = o.to_dataset_dataframe()
        p.check("the table holds the rows", state.get("list") is not None and t.rows is state["list"].sym)
        p.check("as many as there are periods", eq(t.rows.n, SymNum(off(n.e))))
        for k in ("start", "end"):
            c = t.over.get(k)
            p.check(f"the {k} of each row is the instant of its text", Or(b(c is None and bool(eq(t.rows.n, 0))), b(isinstance(c, Times) and c.k == k and c.t is t)))
        p.check("no other column is changed", set(t.over) <= {"start", "end"})

    out.append(Contract("table of a station", STN + "to_dataset_dataframe", h_to_table, replay=("table of stations", lambda m: {"seed": 0})))

    class Frame(SymNum):
        """a table, known by its content"""

        __slots__ = ()

        def reset_index(self, inplace=False, drop=False, **k):
            if not drop or k:
                raise Unsupported("rows numbered in another way")
            return None if inplace else self

    def h_stations_table(p):
        n = p.int("remotes")
        p.assume(n >= 0)
        cat, tab, first = uf("concat", I, I, I), uf("table", I, I), p.int("local")
        tot = uf("tables so far", I, I)

        class PDS:
            @staticmethod
            def concat(xs, ignore_index=False, **k):
                xs = list(xs)
                if k or len(xs) != 2:
                    raise Unsupported("tables put together in another way")
                return Frame(cat(num_z3(xs[0]), num_z3(xs[1])))

        mk = lambda e: SymObj(Station, to_dataset_dataframe=lambda: Frame(e))
        o = put(Stations(), local=mk(first.e), remote=vl(SymSeq(n, lambda i: mk(tab(i)), "remotes")))
        p.fact(tot(z3.IntVal(0)) == first.e)
        p.loop_specs["*"] = [Fold("the tables so far, in order", lambda i: Frame(tot(i)), lambda i: [SymBool(tot(i + 1) == cat(tot(i), tab(i)))])]
        with swap(M_stations, pd=PDS):
            r = o.to_dataset_dataframe()
        p.check("the local table, then the remote ones in their order", eq(SymNum(num_z3(r)), SymNum(tot(n.e))))

    out.append(Contract("table of stations", STS + "to_dataset_dataframe", h_stations_table, replay=("table of stations", lambda m: {"seed": 1})))

    # -------------------------------------------------------- from a table
    class Rows:
        """rows of a table"""

        def __init__(self, rows):
            self.rows = rows

        @property
        def empty(self):
            return not self.rows

        def __len__(self):
            return len(self.rows)

        def itertuples(self, **k):
            return list(self.rows)

        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            return Cells([getattr(r, k) for r in self.rows])

        def __getitem__(self, k):
            if isinstance(k, str):
                return getattr(self, k)
            return Rows([r for r, keep in zip(self.rows, k) if bool(keep)])

    class Cells:
        def __init__(self, v):
            self.v = v

        def unique(self):
            r = []
            for x in self.v:
                if not any(bool(same(x, y)) for y in r):
                    r.append(x)
            return r

        def __eq__(self, o):
            return [same(x, o) for x in self.v]

        def __ne__(self, o):
            return [Not(same(x, o)) for x in self.v]

        __hash__ = None

    class Row:
        def __init__(self, **k):
            self.__dict__.update(k)

    def period(start=None, end=None):
        return SymObj(TimePeriod, start=start, end=end)

    def mk_from_table(n, factors):
        def h(p):
            p.loop_specs[("construct", "TimePeriod")] = period
            p.loop_specs["validators"] = {("Run", "input_channels"), ("Run", "output_channels"), ("Run", "time_periods")}
            sid, rem = p.string("station"), bool(p.choose(2, "remote"))
            rows = []
            for k in range(n):
                extra = {"channel_scale_factors": {"hx": p.real(f"hx{k}"), "ey": p.real(f"ey{k}")}} if factors else {}
                rows.append(Row(station=sid, run=p.string(f"run{k}"), start=p.string(f"start{k}"), end=p.string(f"end{k}"), mth5_path="/data/a.h5", sample_rate=p.real(f"rate{k}"),
                                input_channels=["hx", "hy"], output_channels=["ex", "ey"], remote=rem, **extra))
            o = Station(id="old", runs=["stale"], mth5_path="/old.h5")
            o.from_dataset_dataframe(Rows(rows))
            groups = []
            for r in rows:
                for g in groups:
                    if bool(same(g[0].run, r.run)):
                        g.append(r)
                        break
                else:
                    groups.append([r])
            p.check("a run for each name, no other", len(o.runs) == len(groups))
            if n:
                p.check("station, path and kind", And(eq(o.id, sid), str(o.mth5_path) == "/data/a.h5", eq(b(o.remote), rem)))
            for run, g in zip(o.runs, groups):
                p.check("runs in the order of the table", And(eq(run.id, g[0].run), eq(run.sample_rate, g[0].sample_rate)))
                p.check("the periods of a run in the order of the table", len(run.time_periods) == len(g) and And([And(eq(t.start, r.start), eq(t.end, r.end)) for t, r in zip(run.time_periods, g)]))
                p.check("the channels of a run", [c.id for c in run.input_channels] == ["hx", "hy"] and [c.id for c in run.output_channels] == ["ex", "ey"])
                for c in run.input_channels + run.output_channels:
                    w = g[0].channel_scale_factors.get(c.id, 1.0) if factors else 1.0
                    p.check("the factor of a channel", eq(c.scale_factor, w))

        return h

    for n in range(5):
        for factors in (True, False):
            out.append(Contract(f"station of {n} rows{'' if factors else ' without factors'}", STN + "from_dataset_dataframe", mk_from_table(n, factors), bounded=f"{n} rows of any run, times and rate",
                                replay=("table of stations", lambda m: {"seed": 2})))

    def mk_stations_from_table(kinds, stale):
        def h(p):
            names = {k: p.string(f"station{k}") for k in set(kinds)}
            here, away = [k for k in set(kinds) if k == 0], sorted({k for k in kinds if k})
            ks = sorted(names)
            for i, a in enumerate(ks):
                for c in ks[:i]:
                    p.assume(Not(eq(names[a], names[c])))
            rows = [Row(station=names[k], remote=k != 0, tag=i) for i, k in enumerate(kinds)]

            class St(SymObj):
                def __init__(self, old=False):
                    SymObj.__init__(self, Station, rows=None, remote=False, old=old)

                def from_dataset_dataframe(self, df):
                    object.__setattr__(self, "rows", [r.tag for r in df.rows])
                    object.__setattr__(self, "remote", df.rows[0].remote)

            p.loop_specs[("construct", "Station")] = St
            local = St()
            o = put(Stations(), local=local, remote=[St(old=True)] * stale)
            o.from_dataset_dataframe(Rows(rows))
            p.check("the local station has its rows", o.local is local and local.rows == [i for i, k in enumerate(kinds) if k == 0])
            order = []
            for k in kinds:
                if k and k not in order:
                    order.append(k)
            p.check("a remote station for each name, in the order of the table, no other", len(o.remote) == len(order) and not any(s.old for s in o.remote))
            for s, k in zip(o.remote, order):
                p.check("a remote station has its rows", s.rows == [i for i, q in enumerate(kinds) if q == k])
                p.check("it is remote", bool(s.remote) is True)

        return h

    for kinds in ((0,), (0, 0), (0, 1), (1, 0, 1), (0, 2, 1), (0, 1, 2, 1, 0)):
        for stale in (0, 1):
            out.append(Contract(f"stations of rows {''.join(map(str, kinds))}{' in place of others' if stale else ''}", STS + "from_dataset_dataframe", mk_stations_from_table(kinds, stale), bounded=f"{len(kinds)} rows of stations of any name",
                                replay=("table of stations", lambda m: {"seed": 3})))

    def h_stations_none(p):
        st = SymObj(Station, id=p.string("id"))
        o = put(Stations(), local=st, remote=[st])
        o.from_dataset_dataframe(Rows([]))
        p.check("an empty table changes nothing", o.local is st and o.remote == [st])

    out.append(Contract("stations of no rows", STS + "from_dataset_dataframe", h_stations_none))
    return out


def runtime(reg):
    import random

    import pandas as pd
    from loguru import logger

    from pyvc.rt import Skip, close, require
    from mt_metadata.common import TimePeriod
    from mt_metadata.processing.aurora.channel import Channel
    from mt_metadata.processing.aurora.run import Run
    from mt_metadata.processing.aurora.station import Station
    from mt_metadata.processing.aurora.stations import Stations
    from mt_metadata.processing.fourier_coefficients.decimation import Decimation, fc_decimations_creator, get_degenerate_fc_decimation
    from mt_metadata.processing.fourier_coefficients.fc import FC
    from mt_metadata.processing.fourier_coefficients.fc_channel import FCChannel

    logger.remove()
    T0 = pd.Timestamp("1980-01-01T00:00:00+00:00")

    def when(k):
        """k tenths of a second after the start of 2020, the default when k is 0"""
        return T0 if not k else pd.Timestamp("2020-01-01T00:00:00+00:00") + pd.Timedelta(milliseconds=100 * k)

    def text(k):
        return when(k).isoformat()

    def stamp(t):
        return pd.Timestamp(str(t))

    def period(s, e):
        tp = TimePeriod()
        if s:
            tp.start = text(s)
        if e:
            tp.end = text(e)
        return tp

    def gen_seed(n):
        def g(rng, tier):
            for s in range(n if tier == "quick" else 5 * n):
                yield {"seed": s}

        return g

    # ------------------------------------------------------------- periods
    def gen_period(rng, tier):
        for kind in ("FC", "Decimation"):
            for _ in range(25 if tier == "quick" else 200):
                t = lambda: rng.choice([0, 0, rng.randint(1, 9), rng.randint(1, 99999)])
                yield {"kind": kind, "own": [t(), t()], "times": [[t(), t()] for _ in range(rng.randint(0, 4))]}

    @reg.rt("period of Fourier coefficients", gen_period, ["FC.update_time_period", "Decimation.update_time_period"], "50 collections of up to 4 members with and without times")
    def update_period(kind, own, times):
        if any(not isinstance(x, int) or not 0 <= x < 10**9 for q in [own, *times] for x in q):
            raise Skip
        o = FC() if kind == "FC" else Decimation()
        for k, (s, e) in enumerate(times):
            m = Decimation(id=str(k)) if kind == "FC" else FCChannel(component="c" + "abcdefghij"[k])
            m.time_period = period(s, e)
            (o.levels if kind == "FC" else o.channels).append(m)
        o.time_period = period(*own)
        o.update_time_period()
        s = [x for x in [own[0]] + [q[0] for q in times] if x]
        e = [x for x in [own[1]] + [q[1] for q in times] if x]
        for nm, got, want in (("start", o.time_period.start, min(s, default=0)), ("end", o.time_period.end, max(e, default=0))):
            require(stamp(got) == when(want), f"the {nm} is {got} instead of {text(want)}")

    # --------------------------------------------------------- collections
    @reg.rt("collections of Fourier coefficients", gen_seed(40), ["FC.add_decimation_level", "FC.remove_decimation_level", "FC.synchronize_levels", "Decimation.add_channel", "Decimation.remove_channel", "Decimation.update", "Decimation.validate_channels_consistency"],
            "40 sequences of up to 12 operations on up to 5 levels and channels")
    def collection(seed):
        rng = random.Random(f"fc{seed}")
        names = ["0", "1", "2", "10", "x"]
        start = rng.sample(names, rng.randint(0, 3))
        o = FC(decimation_levels=list(start)) if rng.random() < 0.5 else FC()
        if list(o.decimation_levels) != start:
            o.decimation_levels = list(start)
        model = list(start)
        facts = {k: {} for k in start}

        def agree(step):
            require(o.levels.keys() == model and list(o.decimation_levels) == model, f"{step}: the levels are {o.levels.keys()} named {o.decimation_levels} instead of {model}")
            require(o.n_decimation_levels == len(model), f"{step}: {o.n_decimation_levels} levels")
            for k in names:
                g = o.get_decimation_level(k)
                require(o.has_decimation_level(k) == (k in model) and o.decimation_level_index(k) == (model.index(k) if k in model else None) and (g is None) == (k not in model), f"{step}: level {k} is {'not ' * (k in model)}found")
                if g is not None:
                    require(g.id == k, f"{step}: level {k} has the name {g.id}")
                    for a, v in facts[k].items():
                        require(g.get_attr_from_name(a) == v, f"{step}: {a} of level {k} is {g.get_attr_from_name(a)} instead of {v}")
        agree("at first")
        for step in range(rng.randint(1, 12)):
            k = rng.choice(names)
            if rng.random() < 0.6:
                d = Decimation(id=k)
                vals = {"time_series_decimation.factor": float(rng.randint(2, 9)), "time_series_decimation.sample_rate": float(rng.randint(2, 99)), "short_time_fourier_transform.window.num_samples": rng.choice([64, 128, 512])}
                for a, v in vals.items():
                    d.update_attribute(a, v)
                o.add_decimation_level(d)
                if k in model:
                    require(o.get_decimation_level(k) is not d, f"adding level {k} replaces the present one")
                else:
                    model.append(k)
                    require(o.get_decimation_level(k) is d, f"level {k} is not the one added")
                facts[k] = dict(vals)
                agree(f"adding {k}")
            else:
                o.remove_decimation_level(k)
                if k in model:
                    model.remove(k)
                agree(f"removing {k}")
        # channels of a level
        comps = ["ex", "ey", "hx", "hy", "hz"]
        est = rng.sample(comps, rng.randint(1, 4))
        d = Decimation()
        d.channels_estimated = list(est)
        have, listed, value = set(est), list(est), {}
        for step in range(rng.randint(1, 10)):
            c = rng.choice(comps)
            r = rng.random()
            if r < 0.5:
                ch = FCChannel(component=c, frequency_min=rng.randint(1, 9), frequency_max=rng.randint(10, 99))
                was = d.channels[c] if c in have else None
                d.add_channel(ch)
                if c in listed:
                    require(d.channels[c] is was, f"adding channel {c} replaces the present one")
                value[c] = (ch.frequency_min, ch.frequency_max)
                have.add(c)
            elif r < 0.8:
                d.remove_channel(c)
                if c in listed:
                    listed.remove(c)
                    have.discard(c)
                    value.pop(c, None)
            else:
                d.channels_estimated = list(listed)  # puts the two in step
                listed += [x for x in d.channels_estimated if x not in listed]
                require(set(listed) == have, f"the channels are {sorted(have)} and {sorted(listed)} are listed")
            require(set(d.channels.keys()) == have and d.n_channels == len(have), f"the channels are {d.channels.keys()} instead of {sorted(have)}")
            require(list(d.channels_estimated)[: len(listed)] == listed and sorted(d.channels_estimated) == sorted(listed), f"{d.channels_estimated} are listed instead of {listed}")
            for x in comps:
                require(d.has_channel(x) == (x in listed), f"channel {x} is {'not ' * (x in listed)}found")
                g = d.get_channel(x)
                require((g is None) == (x not in listed) and (g is None or g.component == x), f"channel {x} is got as {g}")
                require(d.channel_index(x) == (list(d.channels_estimated).index(x) if x in listed else None), f"the index of {x} is {d.channel_index(x)}")
                if x in value:
                    g = d.channels[x]
                    require((g.frequency_min, g.frequency_max) == value[x], f"channel {x} has the frequencies {g.frequency_min}, {g.frequency_max} instead of {value[x]}")

    # -------------------------------------------------------------- lengths
    def gen_length(rng, tier):
        for _ in range(60 if tier == "quick" else 600):
            w = rng.choice([4, 16, 128, 256])
            o = rng.randint(0, w - 1)
            k = rng.randint(1, 6)
            yield {"n": max(0, w + (k - 1) * (w - o) + rng.choice([-1, 0, 1, 5, -w])), "window": w, "overlap": o, "least": rng.choice([k, k, 1, 2])}

    @reg.rt("length of a series", gen_length, ["is_valid_for_time_series_length", "num_samples_advance"], "60 lengths around a whole number of windows")
    def length(n, window, overlap, least):
        n, window, overlap, least = (int(x) for x in (n, window, overlap, least))
        if not (0 <= n < 10**6 and 1 <= window < 10**5 and 0 <= overlap < window and 1 <= least < 10**4):
            raise Skip
        d = Decimation()
        d.stft.window.num_samples, d.stft.window.overlap, d.stft.min_num_stft_windows = window, overlap, least
        k = len(range(0, n - window + 1, window - overlap))
        require(bool(d.is_valid_for_time_series_length(n)) == (k >= least), f"{k} windows of {window} samples, {window - overlap} apart, fit into {n} samples: {'too few' if k < least else 'enough'} for {least}")

    # --------------------------------------------------------------- levels
    def gen_levels(rng, tier):
        for _ in range(40 if tier == "quick" else 300):
            n = rng.randint(1, 6)
            yield {"rate": rng.choice([1.0, 8.0, 150.0, 0.5, 4096.0]), "factors": rng.choice([None, [1] + [rng.choice([2, 4, 8, 3]) for _ in range(n - 1)]]), "levels": n}

    @reg.rt("levels by factors", gen_levels, ["fc_decimations_creator", "get_degenerate_fc_decimation"], "40 lists of up to 6 factors")
    def levels(rate, factors, levels=4):
        rate = float(rate)
        if not 0 < rate < 1e9 or not 1 <= int(levels) < 20 or factors is not None and not (factors and all(0 < f < 1e6 for f in factors)):
            raise Skip
        tp = period(5, 9)
        ls = fc_decimations_creator(rate, decimation_factors=factors, max_levels=int(levels), time_period=tp)
        fs = factors or [1] + [4] * (int(levels) - 1)
        require(len(ls) == len(fs), f"{len(ls)} levels for {len(fs)} factors")
        for k, (d, f) in enumerate(zip(ls, fs)):
            rate = rate / f if k else rate
            ts = d.time_series_decimation
            require(d.id == str(k) and ts.level == k and close(ts.factor, f) and close(ts.sample_rate, rate), f"level {k} is {d.id}, {ts.level} with factor {ts.factor} and rate {ts.sample_rate} instead of factor {f} and rate {rate}")
            require(stamp(d.time_period.start) == when(5) and stamp(d.time_period.end) == when(9), f"level {k} has the period {d.time_period.start} to {d.time_period.end}")
            nyq = len(d.fft_frequencies)
            require(nyq == d.stft.window.num_samples // 2 and close(d.fft_frequencies[1], rate / d.stft.window.num_samples), f"the frequencies of level {k} are {d.fft_frequencies[:2]}... ({nyq})")
        ls[0].time_period.end = text(50)
        require(all(stamp(d.time_period.end) == when(9) for d in ls[1:]) and stamp(tp.end) == when(9), "a change of the period of a level changes that of another")
        one = get_degenerate_fc_decimation(rate)
        require(len(one) == 1 and close(one[0].time_series_decimation.sample_rate, rate) and one[0].time_series_decimation.factor == 1, "the degenerate level differs from the series")

    # ------------------------------------------------------ stations and runs
    def mk_run(rng, name):
        ins, outs = rng.sample(["hx", "hy", "bx"], rng.randint(0, 3)), rng.sample(["ex", "ey", "hz"], rng.randint(0, 3))
        r = Run(id=name, sample_rate=rng.choice([1.0, 8.0, 0.1, 150.0]), input_channels=list(ins), output_channels=list(outs))
        for c in r.input_channels + r.output_channels:
            c.scale_factor = rng.choice([1.0, 0.5, -2.0, 1e-3, 0.0])
        t = rng.sample(range(1, 10**6), 2 * rng.randint(1, 3))
        for a, c in zip(t[::2], t[1::2]):
            a, c = (rng.choice([10, 1]) * x for x in (a, c))
            r.time_periods.append(period(a, c))
        return r

    def mk_station(rng, name):
        return Station(id=name, mth5_path=rng.choice(["/data/a.h5", "b.h5", ""]), runs=[mk_run(rng, x) for x in rng.sample(["001", "a", "b", "10", "2"], rng.randint(1, 4))])

    def said(r):
        return (r.id, r.sample_rate, [(c.id, c.scale_factor) for c in r.input_channels], [(c.id, c.scale_factor) for c in r.output_channels], [(stamp(t.start), stamp(t.end)) for t in r.time_periods])

    @reg.rt("stations and runs", gen_seed(30), ["get_run", "get_station", "add_remote", "set_channel_scale_factors", "channel_scale_factors", "validate_runs", "validate_channel_list", "validate_remote", "validate_time_periods"], "30 sets of up to 3 stations")
    def stations(seed):
        rng = random.Random(f"st{seed}")
        names = rng.sample(["mt01", "mt02", "rr", "x"], rng.randint(1, 3))
        S = Stations(local=mk_station(rng, names[0]))
        for n in names[1:]:
            rr = mk_station(rng, n)
            S.add_remote(rr.to_dict() if rng.random() < 0.4 else rr)
        require([s.id for s in S.remote] == names[1:] and all(s.remote for s in S.remote) and not S.local.remote, "the remote stations are not those added")
        for n in names:
            require(S.get_station(n).id == n, f"station {n} is got as {S.get_station(n).id}")
        try:
            S.get_station("none")
            require(False, "a station that is not there is got")
        except KeyError:
            pass
        for s in [S.local] + S.remote:
            require(s.run_list == [r.id for r in s.runs], "the runs are not listed in order")
            for r in s.runs:
                require(s.get_run(r.id) is r, f"run {r.id} is not got")
                require(r.input_channel_names == [c.id for c in r.input_channels] and r.output_channel_names == [c.id for c in r.output_channels], "the channels are not listed in order")
                before = said(r)
                want = {c.id: c.scale_factor for c in r.input_channels + r.output_channels}
                require(r.channel_scale_factors == want, f"the factors are {r.channel_scale_factors} instead of {want}")
                new = {k: rng.choice([3.0, -0.25, 7.0]) for k in rng.sample(["hx", "hy", "bx", "ex", "ey", "hz", "zz"], rng.randint(0, 5))}
                r.set_channel_scale_factors(new)
                want.update({k: v for k, v in new.items() if k in want})
                require(r.channel_scale_factors == want, f"the factors are {r.channel_scale_factors} instead of {want}")
                after = said(r)
                require(after[0] == before[0] and after[4] == before[4] and [c[0] for c in after[2] + after[3]] == [c[0] for c in before[2] + before[3]], "setting the factors changes the run")
                for bad in (None, 3.0, ["hx"]):
                    try:
                        r.set_channel_scale_factors(bad)
                        require(False, f"{bad!r} is taken for factors")
                    except TypeError:
                        pass
            require(s.get_run("none") is None, "a run that is not there is got")
        # the ways to give members
        a, t = Channel(id="ey", scale_factor=2.0), period(3, 4)
        kinds = [("ex", lambda c: (c.id, c.scale_factor) == ("ex", 1.0)), (a, lambda c: c is a), ({"id": "hz", "scale_factor": 4.0}, lambda c: (c.id, c.scale_factor) == ("hz", 4.0)), (a.to_dict(), lambda c: (c.id, c.scale_factor) == ("ey", 2.0))]
        rng.shuffle(kinds)
        r = Run(output_channels=[k for k, _ in kinds], time_periods=[t, t.to_dict()])
        require(len(r.output_channels) == len(kinds) and all(f(c) for (_, f), c in zip(kinds, r.output_channels)), f"the channels are {[c.id for c in r.output_channels]}")
        require([(stamp(x.start), stamp(x.end)) for x in r.time_periods] == [(when(3), when(4))] * 2, "the periods are not those given")
        r.input_channels = kinds[0][0]
        require(len(r.input_channels) == 1 and kinds[0][1](r.input_channels[0]), "a single channel is not taken")
        st = Station(runs=[r, "b", {"id": "c", "sample_rate": 8}, mk_run(rng, "d").to_dict()])
        require(st.run_list == [r.id, "b", "c", "d"] and st.runs[0] is r and st.runs[2].sample_rate == 8, f"the runs are {st.run_list}")
        for o, at, bad in ((r, "output_channels", [3]), (r, "time_periods", ["x"]), (st, "runs", [3]), (S, "remote", [3])):
            try:
                setattr(o, at, bad)
                require(False, f"{bad!r} is taken for {at}")
            except (TypeError, ValueError):
                pass

    # --------------------------------------------------------------- tables
    @reg.rt("table of stations", gen_seed(40), [STN + "to_dataset_dataframe", STN + "from_dataset_dataframe", STS + "to_dataset_dataframe", STS + "from_dataset_dataframe"], "40 sets of up to 4 stations, 4 runs and 3 periods, some with fractions of a second")
    def table(seed):
        rng = random.Random(f"tab{seed}")
        names = rng.sample(["mt01", "mt02", "rr", "x"], rng.randint(1, 4))
        S = Stations(local=mk_station(rng, names[0]))
        for n in names[1:]:
            S.add_remote(mk_station(rng, n))
        before = [(s.id, str(s.mth5_path), bool(s.remote), [said(r) for r in s.runs]) for s in [S.local] + S.remote]
        df = S.to_dataset_dataframe()
        rows = [(s, r, q) for s in [S.local] + S.remote for r in s.runs for q in r.time_periods]
        require(len(df) == len(rows) and list(df.index) == list(range(len(rows))), f"{len(df)} rows instead of {len(rows)}")
        for x, (s, r, q) in zip(df.itertuples(), rows):
            want = (s.id, r.id, stamp(q.start), stamp(q.end), str(s.mth5_path), r.sample_rate, r.input_channel_names, r.output_channel_names, bool(s.remote), r.channel_scale_factors)
            got = (x.station, x.run, pd.Timestamp(x.start), pd.Timestamp(x.end), str(x.mth5_path), x.sample_rate, x.input_channels, x.output_channels, bool(x.remote), x.channel_scale_factors)
            require(got == want, f"a row is {got} instead of {want}")
        require([(s.id, str(s.mth5_path), bool(s.remote), [said(r) for r in s.runs]) for s in [S.local] + S.remote] == before, "making the table changes the stations")
        copy = df.copy(deep=True)
        N = Stations(local=mk_station(rng, "old"), remote=[mk_station(rng, "older")]) if rng.random() < 0.4 else Stations()
        N.from_dataset_dataframe(df)
        after = [(s.id, str(s.mth5_path), bool(s.remote), [said(r) for r in s.runs]) for s in [N.local] + N.remote]
        require(after == before, f"the stations read from the table are {after} instead of {before}")
        require(df.equals(copy), "reading the table changes it")
        one = Station()
        one.from_dataset_dataframe(df[df.station == names[-1]])
        require((one.id, [said(r) for r in one.runs]) == (before[-1][0], before[-1][3]), f"station {names[-1]} read from its rows is {one.id} with {[said(r) for r in one.runs]}")
        old = N.local.run_list
        N.from_dataset_dataframe(df.iloc[:0])
        require(N.local.run_list == old, "an empty table changes the stations")
        # rows mixed
        mix = df.sample(frac=1.0, random_state=seed).reset_index(drop=True)
        M = Stations()
        M.from_dataset_dataframe(mix)
        for s, b4 in [(M.local, before[0])] + [(M.get_station(x[0]), x) for x in before[1:]]:
            require(sorted(s.run_list) == sorted(r[0] for r in b4[3]), f"the runs of {s.id} are {s.run_list}")
            for r in b4[3]:
                g = said(s.get_run(r[0]))
                require(g[:4] == r[:4] and sorted(g[4]) == sorted(r[4]), f"run {r[0]} of {s.id} is {g} instead of {r}")
