"""Runs, stations and surveys: time periods, bounding box and listings follow their members."""

ASSUMPTIONS = [
    "time stamps are compared through the order proved in P04 (instants as integers, the 1980-01-01 default recognised by its text)",
    "a collection of members is the ordered mapping proved in P01",
]
DEFAULT_TEXT = "1980-01-01T00:00:00+00:00"


def contracts():
    from mt_metadata.common.list_dict import ListDict
    from mt_metadata.common.time_period import TimePeriod, TimePeriodDate
    from mt_metadata.timeseries import Auxiliary, Electric, Magnetic, Run, Station, Survey
    from pyvc.api import And, Contract, Filters, Implies, Inv, Not, Or, SymBool, SymNum, SymObj, SymSeq, SymStr, Unsupported, eq, num_z3, put, raises, z3
    from pyvc.mapmodel import SymOD

    S, I = z3.StringSort(), z3.IntSort()
    out = []

    class T(SymNum):
        """an instant; 0 is the 1980 default"""

        __slots__ = ()

        def __eq__(self, o):
            if isinstance(o, str):
                if o[:10] != DEFAULT_TEXT[:10]:
                    raise Unsupported("comparison with another time text")
                return SymBool(self.e == 0)
            return SymNum.__eq__(self, o)

        def __ne__(self, o):
            return Not(self == o)

        __hash__ = None

    def members(p, ld_name, mk):
        od = SymOD(ld_name, mk)
        p.inputs["n"] = SymNum(od.n)
        ld = ListDict()
        ld._home = od
        return ld, od

    def tp(s, e):
        return put(TimePeriod(), start=T(s), end=T(e))

    KINDS = {
        "run": (Run, Electric, "channels", TimePeriod, "start", "end"),
        "station": (Station, Run, "runs", TimePeriod, "start", "end"),
        "survey": (Survey, Station, "stations", TimePeriodDate, "start_date", "end_date"),
    }

    def patched(fn):
        """is-default tests by their contract"""
        saved = {(c, m): c.__dict__[m] for c in (TimePeriod, TimePeriodDate) for m in ("start_is_default", "end_is_default")}
        try:
            for c in (TimePeriod, TimePeriodDate):
                a, b = ("start", "end") if c is TimePeriod else ("start_date", "end_date")
                setattr(c, "start_is_default", lambda self, a=a: self.__dict__[a] == DEFAULT_TEXT)
                setattr(c, "end_is_default", lambda self, b=b: self.__dict__[b] == DEFAULT_TEXT)
            return fn()
        finally:
            for (c, m), v in saved.items():
                setattr(c, m, v)

    def mk_period(kind):
        cls, mcls, attr, tpc, sa, ea = KINDS[kind]

        def h(p):
            for c in ("set", "no change"):
                p.declare_cover(c)
            sf, ef = z3.Function("start", S, I), z3.Function("end", S, I)
            ld, od = members(p, "m", lambda k: SymObj(mcls, time_period=tp(sf(k), ef(k))))
            s0, e0 = p.int("old_start"), p.int("old_end")
            o = put(cls(), **{attr: ld, "time_period": put(tpc(), **{sa: T(s0.e), ea: T(e0.e)})})
            own = o.time_period
            st = lambda i: sf(od.key(i))
            en = lambda i: ef(od.key(i))
            p.loop_specs["*"] = [Filters("the set times so far", [
                (lambda n: "start" in n, lambda i: st(i) != 0, lambda i: T(st(i))),
                (lambda n: "end" in n, lambda i: en(i) != 0, lambda i: T(en(i))),
            ])]
            j = z3.Int(p.fresh("j"))
            p.add(z3.And(j >= 0, j < od.n))
            p.ufapps.setdefault("indices", []).append(j)
            nonempty = True
            st(j), en(j)
            patched(lambda: o.update_time_period())
            p.check("the same period object", o.time_period is own)
            for nm, old, new, val, le in (("start", s0.e, num_z3(own.__dict__[sa]), st, lambda a, b: a <= b),
                                          ("end", e0.e, num_z3(own.__dict__[ea]), en, lambda a, b: a >= b)):
                w = z3.Int("w")
                # the mapping facts for the bound witness are on the path through the extreme's index
                p.check(f"{nm} covers every member", SymBool(z3.Implies(val(j) != 0, z3.And(le(new, val(j)), new != 0) if False else le(new, val(j)))))
                p.check(f"{nm} covers the former period", SymBool(z3.Implies(old != 0, le(new, old))))
                kk = z3.Function("m.key", I, S)
                raw = sf if nm == "start" else ef
                p.check(f"{nm} is its own or a member's", SymBool(z3.Or(new == old, z3.Exists([w], z3.And(w >= 0, w < od.n, raw(kk(w)) == new, raw(kk(w)) != 0)))))
                p.cover("set" if p.branch(new != old) else "no change")

        def empty(p):
            s0, e0 = p.int("old_start"), p.int("old_end")
            o = put(cls(), **{attr: ListDict(), "time_period": put(tpc(), **{sa: T(s0.e), ea: T(e0.e)})})
            patched(lambda: o.update_time_period())
            p.check("without members the period stays", And(eq(o.time_period.__dict__[sa], s0), eq(o.time_period.__dict__[ea], e0)))

        out.append(Contract(f"{kind} period", f"{cls.__name__}.update_time_period", h, covers=["set", "no change"],
                            replay=("period", lambda q, kind=kind: {"kind": kind, "own": [0, 0], "times": [[3, 9], [0, 12], [2, 5]]})))
        out.append(Contract(f"{kind} period without members", f"{cls.__name__}.update_time_period", empty))

    for kind in KINDS:
        mk_period(kind)

    # ------------------------------------------------------- bounding box
    def h_box(p):
        la, lo = z3.Function("lat", S, z3.RealSort()), z3.Function("lon", S, z3.RealSort())
        from mt_metadata.common.location import StationLocation

        ld, od = members(p, "m", lambda k: SymObj(Station, location=put(StationLocation(), latitude=SymNum(la(k)), longitude=SymNum(lo(k)))))
        o = put(Survey(), stations=ld)
        for c in ("northwest_corner", "southeast_corner"):
            put(getattr(o, c), latitude=p.real(c + ".lat"), longitude=p.real(c + ".lon"))
        LA, LO = (lambda i: la(od.key(i))), (lambda i: lo(od.key(i)))
        T1 = z3.BoolVal(True)
        p.loop_specs["*"] = [Filters("the positions so far", [
            (lambda n: "lat" in n, lambda i: T1, lambda i: SymNum(LA(i))), (lambda n: "lon" in n, lambda i: T1, lambda i: SymNum(LO(i)))])]
        j = z3.Int(p.fresh("j"))
        p.add(z3.And(j >= 0, j < od.n))
        p.ufapps.setdefault("indices", []).append(j)
        o.update_bounding_box()
        nw, se = o.northwest_corner, o.southeast_corner
        w, kk = z3.Int("w"), z3.Function("m.key", I, S)
        some = lambda f, v: SymBool(z3.Exists([w], z3.And(w >= 0, w < od.n, f(kk(w)) == num_z3(v))))
        for nm, v, f, val, ge in (("north", nw.latitude, la, LA, True), ("south", se.latitude, la, LA, False),
                                  ("east", se.longitude, lo, LO, True), ("west", nw.longitude, lo, LO, False)):
            p.check(f"no station beyond the {nm} edge", SymBool(num_z3(v) >= val(j) if ge else num_z3(v) <= val(j)))
            p.check(f"a station on the {nm} edge", some(f, v))

    out.append(Contract("bounding box", "Survey.update_bounding_box", h_box))

    def h_extent(p):
        o = Survey()
        c = {}
        for k in ("northwest_corner", "southeast_corner"):
            c[k] = (p.real(k + ".lat"), p.real(k + ".lon"))
            put(getattr(o, k), latitude=c[k][0], longitude=c[k][1])
        e = o.survey_extent
        e = e() if callable(e) else e
        p.check("extent is the bounding box", And(eq(e["latitude"]["min"], c["southeast_corner"][0]), eq(e["latitude"]["max"], c["northwest_corner"][0]),
                                                  eq(e["longitude"]["min"], c["northwest_corner"][1]), eq(e["longitude"]["max"], c["southeast_corner"][1])))

    out.append(Contract("extent", "Survey.survey_extent", h_extent))

    # ------------------------------------------------------- listings
    def h_survey_list(p):
        uf = z3.Function("m.val", S, I)
        ld, od = members(p, "m", lambda k: SymNum(uf(k)))
        st0 = od.state()
        o = put(Survey(), stations=ld)
        k = p.string("k")
        inside = SymBool(st0[3](k.e))
        def b(x):
            return x if isinstance(x, SymBool) else SymBool(z3.BoolVal(bool(x)))
        p.check("count", eq(o.n_stations, SymNum(od.n)))
        p.check("has exactly the members", eq(b(o.has_station(k)), inside))
        names = o.station_names
        j = z3.Int(p.fresh("j"))
        p.add(z3.And(j >= 0, j < od.n))
        p.check("names in order", And(eq(names.n, SymNum(od.n)), eq(names.at(j), SymStr(od.key(j)))))
        g = o.get_station(k)
        i = o.station_index(k)
        if p.branch(inside.e):
            p.check("get returns the member", And(g is not None, eq(g, SymNum(uf(k.e))) if g is not None else False))
            p.check("index of the name", eq(i, SymNum(od.pos(k.e))) if i is not None else False)
        else:
            p.check("no such member", g is None and i is None)

    out.append(Contract("survey listing", ["Survey.has_station", "Survey.get_station", "Survey.station_index", "Survey.n_stations"], h_survey_list))

    def h_survey_remove(p):
        uf = z3.Function("m.val", S, I)
        ld, od = members(p, "m", lambda k: SymNum(uf(k)))
        n0, key0, pos0, has0, val0 = od.state()
        o = put(Survey(), stations=ld)
        k, x = p.string("k"), z3.String(p.fresh("x"))
        called = []
        for m in ("update_bounding_box", "update_time_period"):
            o.__dict__[m] = lambda m=m: called.append(m)
        o.remove_station(k)
        from pyvc.helpers import unl

        n1, key1, pos1, has1, val1 = unl(o.stations._home).state()
        p.check("only the named member goes", SymBool(has1(x) == z3.And(has0(x), x != k.e)))
        p.check("the others stay as they are", Implies(SymBool(has1(x)), eq(val1(x), val0(x))))

    out.append(Contract("removing a station", "Survey.remove_station", h_survey_remove))

    def fixed_members(p, cls, ids, idattr, **extra):
        return [SymObj(cls, **{idattr: i}) for i in ids]

    def mk_recorded(pick):
        CL = [Electric, Magnetic, Auxiliary]
        FIELD = ["channels_recorded_electric", "channels_recorded_magnetic", "channels_recorded_auxiliary"]
        DFLT = ["e_default", "h_default", "auxiliary_default"]

        def h(p):
            kind, comp = z3.Function("kind", S, I), z3.Function("component", S, S)

            class Channel_(SymObj):
                """a channel of any kind"""

                @property
                def _cls(self):
                    k = object.__getattribute__(self, "key")
                    return CL[0] if p.branch(kind(k) == 0) else CL[1] if p.branch(kind(k) == 1) else CL[2]

                def __init__(self, k):
                    for n, v in (("_ident", None), ("key", k), ("component", SymStr(comp(k)))):
                        object.__setattr__(self, n, v)

            mk = Channel_

            ld, od = members(p, "m", mk)
            o = put(Run(), channels=ld)
            j = z3.Int(p.fresh("j"))
            p.add(z3.And(j >= 0, j < od.n))
            kj = od.key(j)
            inkind = {0: kind(kj) == 0, 1: kind(kj) == 1, 2: z3.And(kind(kj) != 0, kind(kj) != 1)}[pick]
            p.ufapps.setdefault("indices", []).append(j)
            o._update_channels_recorded()
            got = o.__dict__[FIELD[pick]]
            if not isinstance(got, SymSeq):
                raise Unsupported("listing is not symbolic")
            fil = getattr(got, "source", None)
            if fil is None or getattr(fil, "source", None) is None:
                raise Unsupported("listing is not a sorted selection")
            q = z3.Int(p.fresh("q"))
            p.add(z3.And(q >= 0, q < got.n.e))
            e = got.at(q)
            src = fil.pos(got.pos(q))
            kk = od.key(src)
            p.check("only channels of this kind", And(eq(e, SymStr(comp(kk))), SymBool({0: kind(kk) == 0, 1: kind(kk) == 1, 2: z3.And(kind(kk) != 0, kind(kk) != 1)}[pick]),
                                                     e != DFLT[pick]))
            w = got.rank(fil.rank(j))
            p.check("every named channel of this kind", Implies(SymBool(z3.And(inkind, comp(kj) != z3.StringVal(DFLT[pick]))),
                                                               And(SymBool(z3.And(w >= 0, w < got.n.e)), eq(got.at(w), SymStr(comp(kj))))))

        out.append(Contract(f"{FIELD[pick]}", "Run._update_channels_recorded", h))

    for pick in range(3):
        mk_recorded(pick)

    def run_with(p, i=None):
        """a run whose channels are stored under their component"""
        tag = z3.Function("m.tag", S, I)

        def mk(k):
            return SymObj(Electric, component=SymStr(k), tag=SymNum(tag(k)))

        ld, od = members(p, "m", mk)
        return put(Run(), channels=ld), od, tag

    def b(x):
        return x if isinstance(x, SymBool) else SymBool(z3.BoolVal(bool(x)))

    def h_has(p):
        o, od, tag = run_with(p)
        c = p.string("c")
        st0 = od.state()
        p.ufapps.setdefault("indices", []).append(od.pos(c.e))
        inside = SymBool(st0[3](c.e))
        p.check("has exactly the members", eq(b(o.has_channel(c)), inside))
        p.check("count", eq(o.n_channels, SymNum(od.n)))
        g = o.get_channel(c)
        if p.branch(inside.e):
            p.check("get returns the member", And(g is not None, eq(g.tag, SymNum(tag(c.e))), eq(g.component, c)) if g is not None else False)
        else:
            p.check("no such channel", g is None)

    out.append(Contract("run listing", ["Run.has_channel", "Run.get_channel", "Run.n_channels", "Run.channels_recorded_all"], h_has))

    def h_run_remove(p):
        from pyvc.helpers import unl

        o, od, tag = run_with(p)
        c, x = p.string("c"), z3.String(p.fresh("x"))
        n0, key0, pos0, has0, val0 = od.state()
        p.ufapps.setdefault("indices", []).append(od.pos(c.e))
        calls = []
        o.__dict__["_update_channels_recorded"] = lambda: calls.append(unl(o.channels._home).version())
        o.remove_channel(c)
        n1, key1, pos1, has1, val1 = unl(o.channels._home).state()
        p.check("only the named channel goes", SymBool(has1(x) == z3.And(has0(x), x != c.e)))
        if p.branch(has1(x)):
            p.check("the others stay as they are", eq(val1(x).tag, val0(x).tag))
        if p.branch(has0(c.e)):
            p.check("the listing is rebuilt after the removal", len(calls) > 0 and calls[-1] == unl(o.channels._home).version())
        else:
            p.check("nothing else happens", calls == [] or calls[-1] == unl(o.channels._home).version())

    out.append(Contract("removing a channel", "Run.remove_channel", h_run_remove))

    def h_run_add(p):
        from pyvc.helpers import unl

        o, od, tag = run_with(p)
        c, x = p.string("c"), z3.String(p.fresh("x"))
        n0, key0, pos0, has0, val0 = od.state()
        p.ufapps.setdefault("indices", []).append(od.pos(c.e))
        upd, calls = [], []
        old = val0(c.e)
        new = SymObj(Electric, component=c, tag=SymNum(p.int("newtag").e))
        Ch = type("Ch_", (SymObj,), {"update": lambda self, other: upd.append((self, other))})
        base = od.val
        od.val = lambda k: Ch(Electric, component=SymStr(k), tag=SymNum(tag(k)))
        n0, key0, pos0, has0, val0 = od.state()
        flag = bool(p.choose(2, "update"))
        o.__dict__["_update_channels_recorded"] = lambda: calls.append(("list", unl(o.channels._home).version()))
        o.__dict__["update_time_period"] = lambda: calls.append(("period", unl(o.channels._home).version()))
        o.add_channel(new, update=flag)
        n1, key1, pos1, has1, val1 = unl(o.channels._home).state()
        v = unl(o.channels._home).version()
        p.check("nothing is lost and only the channel is added", SymBool(has1(x) == z3.Or(has0(x), x == c.e)))
        if p.branch(z3.And(has0(x), x != c.e)):
            p.check("the others stay as they are and where they are", And(eq(val1(x).tag, val0(x).tag), SymBool(pos1(x) == pos0(x))))
        if p.branch(has0(c.e)):
            p.check("a present channel is updated in place", len(upd) == 1 and upd[0][1] is new)
            if len(upd) == 1:
                p.check("the updated one is the present one", And(eq(upd[0][0].tag, SymNum(tag(c.e))), eq(val1(c.e).tag, SymNum(tag(c.e))), SymBool(pos1(c.e) == pos0(c.e))))
        else:
            p.check("a new channel goes last", And(upd == [], SymBool(z3.And(n1 == n0 + 1, key1(n0) == c.e)), eq(val1(c.e).tag, new.tag)))
        p.check("listing rebuilt for the new members", ("list", v) in calls)
        p.check("period updated when asked", (("period", v) in calls) == flag)

    out.append(Contract("adding a channel", "Run.add_channel", h_run_add))

    # ------------------------------------------------------- runs of a station
    def station_with(p):
        tag = z3.Function("m.tag", S, I)
        ld, od = members(p, "m", lambda k: SymObj(Run, id=SymStr(k), tag=SymNum(tag(k))))
        o = put(Station(), runs=ld)
        put(o, run_list=ld.keys())
        return o, od, tag

    def h_st_list(p):
        o, od, tag = station_with(p)
        k = p.string("k")
        inside = SymBool(od.state()[3](k.e))
        p.check("has exactly the runs", eq(b(o.has_run(k)), inside))
        p.check("count", eq(o.n_runs, SymNum(od.n)))
        g, i = o.get_run(k), o.run_index(k)
        if p.branch(inside.e):
            p.check("get returns the run", And(g is not None, eq(g.tag, SymNum(tag(k.e)))) if g is not None else False)
            p.check("index of the run", eq(i, SymNum(od.pos(k.e))) if i is not None else False)
        else:
            p.check("no such run", g is None and i is None)

    out.append(Contract("station listing", ["Station.has_run", "Station.get_run", "Station.run_index", "Station.n_runs"], h_st_list))

    def h_st_remove(p):
        from pyvc.helpers import unl

        o, od, tag = station_with(p)
        k, x = p.string("k"), z3.String(p.fresh("x"))
        n0, key0, pos0, has0, val0 = od.state()
        calls = []
        for m, eff in (("update_all", ["list"]), ("update_run_list", ["list"]), ("update_time_period", [])):
            o.__dict__[m] = lambda eff=eff: calls.extend(unl(o.runs._home).version() for _ in eff)
        o.remove_run(k)
        n1, key1, pos1, has1, val1 = unl(o.runs._home).state()
        p.check("only the named run goes", SymBool(has1(x) == z3.And(has0(x), x != k.e)))
        if p.branch(has1(x)):
            p.check("the others stay as they are", eq(val1(x).tag, val0(x).tag))
        if p.branch(has0(k.e)):
            p.check("summary rebuilt after the removal", len(calls) > 0 and calls[-1] == unl(o.runs._home).version())

    out.append(Contract("removing a run", "Station.remove_run", h_st_remove))

    def mk_add(label, cls, mcls, attr, idattr, add, ups, namer):
        def h(p):
            from pyvc.helpers import unl

            tag = z3.Function("m.tag", S, I)
            upd, calls = [], []
            M = type("Member", (SymObj,), {"update": lambda self, other: upd.append((self, other))})
            ld, od = members(p, "m", lambda k: M(mcls, **{idattr: SymStr(k), "tag": SymNum(tag(k))}))
            o = put(cls(), **{attr: ld})
            if namer:
                put(o, **{namer: ld.keys()})
            c, x = p.string("c"), z3.String(p.fresh("x"))
            p.ufapps.setdefault("indices", []).append(od.pos(c.e))
            new = SymObj(mcls, **{idattr: c, "tag": p.int("newtag")})
            n0, key0, pos0, has0, val0 = od.state()
            flag = bool(p.choose(2, "update"))
            home = lambda: unl(getattr(o, attr)._home)
            for m, effects in ups.items():
                o.__dict__[m] = lambda effects=effects: calls.extend((f, home().version()) for f in effects)
            getattr(o, add)(new, update=flag)
            n1, key1, pos1, has1, val1 = home().state()
            v = home().version()
            p.check("nothing is lost and only the member is added", SymBool(has1(x) == z3.Or(has0(x), x == c.e)))
            if p.branch(z3.And(has0(x), x != c.e)):
                p.check("the others stay as they are and where they are", And(eq(val1(x).tag, val0(x).tag), SymBool(pos1(x) == pos0(x))))
            if p.branch(has0(c.e)):
                p.check("a present member is updated in place", len(upd) == 1 and upd[0][1] is new)
                if len(upd) == 1:
                    p.check("the updated one is the present one", And(eq(upd[0][0].tag, SymNum(tag(c.e))), eq(val1(c.e).tag, SymNum(tag(c.e))), SymBool(pos1(c.e) == pos0(c.e))))
            else:
                p.check("a new member goes last", And(upd == [], SymBool(z3.And(n1 == n0 + 1, key1(n0) == c.e)), eq(val1(c.e).tag, new.tag)))
            if flag:
                p.check("summary rebuilt for the new members", all((f, v) in calls for e in ups.values() for f in e))

        out.append(Contract(label, f"{cls.__name__}.{add}", h))

    mk_add("adding a run", Station, Run, "runs", "id", "add_run",
           {"update_all": ["period", "list"], "update_time_period": ["period"], "update_run_list": ["list"]}, "run_list")
    mk_add("adding a station", Survey, Station, "stations", "id", "add_station",
           {"update_all": ["box", "period"], "update_bounding_box": ["box"], "update_time_period": ["period"], "update_station_keys": []}, None)
    return out


def runtime(reg):
    from datetime import date, datetime, timedelta, timezone

    from mt_metadata.common.mttime import MTime
    from mt_metadata.timeseries import Auxiliary, Electric, Magnetic, Run, Station, Survey
    from pyvc.rt import Skip, Violation, require

    T0 = datetime(2020, 1, 1, tzinfo=timezone.utc)
    ZERO = datetime(1980, 1, 1, tzinfo=timezone.utc)

    def at(k, day=False):
        """instant number k; 0 is unset"""
        if k == 0:
            return ZERO
        return T0 + (timedelta(days=k) if day else timedelta(minutes=17 * k, seconds=k % 7))

    def iso(t):
        return t.isoformat()

    def val(x):
        x = str(x)
        d = datetime.fromisoformat(x)
        return d if d.tzinfo else d.replace(tzinfo=timezone.utc)

    KINDS = {"run": (Run, "channels", "start", "end"), "station": (Station, "runs", "start", "end"), "survey": (Survey, "stations", "start_date", "end_date")}

    def member(kind, i, s, e, day=False):
        if kind == "run":
            m = [Electric, Magnetic, Auxiliary][i % 3](component=["ex", "hx", "temperature", "ey", "hy", "battery", "e1", "hz", "wind", "e2", "h2", "aux2"][i])
        elif kind == "station":
            m = Run(id=f"r{i:02d}")
        else:
            m = Station(id=f"s{i:02d}")
        if s:
            m.time_period.start = iso(at(s, day))
        if e:
            m.time_period.end = iso(at(e, day))
        return m

    def gen_p(rng, tier):
        n = 90 if tier == "quick" else 1500
        for kind in KINDS:
            for own in ([0, 0], [5, 0], [0, 5], [4, 6]):
                for times in ([], [[0, 0]], [[5, 9]], [[3, 9], [0, 12], [2, 5]], [[9, 9], [1, 20], [4, 0]], [[5, 6]], [[2, 3], [8, 9]]):
                    yield {"kind": kind, "own": own, "times": times}
        for _ in range(n):
            r = lambda: rng.choice([0, rng.randint(1, 40)])
            yield {"kind": rng.choice(list(KINDS)), "own": [r(), r()], "times": [[r(), r()] for _ in range(rng.randint(0, 6))]}

    @reg.rt("period", gen_p, ["Run.update_time_period", "Station.update_time_period", "Survey.update_time_period"], "84 fixed and 90 random sets of member periods")
    def period(kind, own, times):
        cls, attr, sa, ea = KINDS[kind]
        day = kind == "survey"
        for mode in ("append", "add", "late", "construct"):
            ms = [member(kind, i, s, e, day) for i, (s, e) in enumerate(times[:12])]
            o = cls(**{attr: list(ms)}) if mode == "construct" else cls()
            if own[0]:
                setattr(o.time_period, sa, iso(at(own[0], day))[: 10 if day else None])
            if own[1]:
                setattr(o.time_period, ea, iso(at(own[1], day))[: 10 if day else None])
            add = {"run": "add_channel", "station": "add_run", "survey": "add_station"}[kind]
            if mode != "construct":
                for m in ms:
                    getattr(o, attr).append(m) if mode == "append" else getattr(o, add)(m) if mode == "add" else getattr(o, add)(m, update=False)
            if mode != "add":
                o.update_time_period()
            wants = []
            for own_v, vs, pick in ((own[0], [s for s, e in times], min), (own[1], [e for s, e in times], max)):
                vs = [v for v in vs if v] + ([own_v] if own_v else [])
                wants.append(at(pick(vs) if vs else 0, day))
            got = val(getattr(o.time_period, sa)), val(getattr(o.time_period, ea))
            require(list(got) == wants, f"{kind} {mode}: own {own}, members {times}: {got} instead of {wants}")
            for m, (s, e) in zip(ms, times):
                require([val(m.time_period.start), val(m.time_period.end)] == [at(s, day), at(e, day)], f"{kind}: a member's own period changed")

    # ------------------------------------------------------------ runs
    COMPS = ["ex", "ey", "hx", "hy", "hz", "temperature", "battery", "e1", "bx", "aux_7"]

    def kind_of(c):
        return "electric" if c[0].lower() == "e" else "magnetic" if c[0].lower() in "hb" else "auxiliary"

    def chan(op):
        c = op["c"]
        a = {}
        if op.get("id"):
            a["channel_id"] = op["id"]
        if op.get("rate"):
            a["sample_rate"] = op["rate"]
        if op["form"] == "str":
            return c
        if op["form"] == "dict":
            return dict({"component": c}, **a)
        if op["form"] == "typed":
            return dict({"component": c, "type": kind_of(c)}, **a)
        o = {"electric": Electric, "magnetic": Magnetic, "auxiliary": Auxiliary}[kind_of(c)](component=c, **a)
        if op.get("t"):
            s, e = op["t"]
            if s:
                o.time_period.start = iso(at(s))
            if e:
                o.time_period.end = iso(at(e))
        return o

    def gen_run(rng, tier):
        n = 110 if tier == "quick" else 2000
        for _ in range(n):
            ops = []
            pool = rng.sample(COMPS, rng.randint(2, 6))
            for _ in range(rng.randint(3, 10)):
                k = rng.choice(["add", "add", "add", "remove", "merge", "late"])
                op = {"op": k, "c": rng.choice(pool), "form": rng.choice(["str", "dict", "typed", "obj", "obj"]), "id": rng.choice(["", "", "a1", "b2"]),
                      "rate": rng.choice([0, 0, 8, 256])}
                if op["form"] == "obj" or k == "merge":
                    op["t"] = [rng.choice([0, rng.randint(1, 30)]), rng.choice([0, rng.randint(1, 30)])]
                ops.append(op)
            yield {"own": [rng.choice([0, 15]), rng.choice([0, 15])], "ops": ops}

    @reg.rt("channels of a run", gen_run, ["Run.add_channel", "Run.remove_channel", "Run.merge", "Run._update_channels_recorded", "Run._get_correct_channel_type"],
            "110 random histories of up to 10 operations")
    def chans(own, ops):
        r = Run(id="a")
        if own[0]:
            r.time_period.start = iso(at(own[0]))
        if own[1]:
            r.time_period.end = iso(at(own[1]))
        mdl = {}  # component -> [id, rate, start, end]
        per = list(own)

        def grow():
            for q, pick in ((0, min), (1, max)):
                vs = [m[2 + q] for m in mdl.values() if m[2 + q]] + ([per[q]] if per[q] else [])
                per[q] = pick(vs) if vs else 0

        for step, op in enumerate(ops):
            c = op["c"]
            t = op.get("t", [0, 0]) if op["form"] == "obj" or op["op"] == "merge" else [0, 0]
            ids, rate = (op["id"], op["rate"]) if op["form"] != "str" or op["op"] == "merge" else ("", 0)
            if op["op"] in ("add", "late"):
                (r.add_channel(chan(op)) if op["op"] == "add" else r.add_channel(chan(op), update=False))
                if c in mdl:
                    m = mdl[c]
                    mdl[c] = [ids or m[0], rate or m[1], t[0] or m[2], t[1] or m[3]]
                else:
                    mdl[c] = [ids, rate, *t]
                if op["op"] == "add":
                    grow()
            elif op["op"] == "remove":
                r.remove_channel(c)
                mdl.pop(c, None)
            else:
                if c in mdl:
                    continue
                o = Run(id="b")
                o.add_channel(chan(dict(op, form="obj")))
                r.merge(o)
                mdl[c] = [ids, rate, *t]
                grow()
            at_ = f"after step {step} of {ops}"
            require(r.n_channels == len(mdl), f"{at_}: count {r.n_channels}")
            require(list(r.channels.keys()) == list(mdl), f"{at_}: order {list(r.channels.keys())} instead of {list(mdl)}")
            for kind in ("electric", "magnetic", "auxiliary"):
                want = sorted(x for x in mdl if kind_of(x) == kind)
                got = list(getattr(r, f"channels_recorded_{kind}"))
                require(got == want, f"{at_}: {kind} channels {got} instead of {want}")
            require(list(r.channels_recorded_all) == sorted(mdl), f"{at_}: all channels {r.channels_recorded_all}")
            for x in COMPS:
                require(r.has_channel(x) == (x in mdl), f"{at_}: has_channel({x!r}) is {r.has_channel(x)}")
                g, i = r.get_channel(x), r.channel_index(x)
                if x in mdl:
                    require(g is not None and g.component == x and type(g).__name__.lower() == kind_of(x), f"{at_}: get_channel({x!r}) is a {type(g).__name__} {getattr(g, 'component', None)!r}")
                    require(i == sorted(mdl).index(x), f"{at_}: index of {x!r} is {i}")
                    m = mdl[x]
                    require((g.channel_id or "") in ([m[0]] if m[0] else ["", None]), f"{at_}: {x} has id {g.channel_id!r} instead of {m[0]!r}")
                    require(float(g.sample_rate or 0) == m[1], f"{at_}: {x} has rate {g.sample_rate}")
                    require([val(g.time_period.start), val(g.time_period.end)] == [at(m[2]), at(m[3])], f"{at_}: {x} has period {g.time_period}")
                else:
                    require(g is None and i is None, f"{at_}: {x!r} is absent but get gives {g!r}, index {i}")
            require([val(r.time_period.start), val(r.time_period.end)] == [at(per[0]), at(per[1])],
                    f"{at_}: period {r.time_period.start} to {r.time_period.end} instead of {at(per[0])} to {at(per[1])}")

    def gen_form(rng, tier):
        for c in COMPS + ["Ez", "E7", "H1", "By", "hfield", "rx", "x", "1e", "te", "the", "voltage"]:
            for f in ("str", "dict", "typed", "obj", "list", "station"):
                yield {"c": c, "form": f}

    @reg.rt("channel kinds", gen_form, ["Run._get_correct_channel_type", "Run.validate_channels"], "21 components in six forms")
    def kinds(c, form):
        if form == "station":
            s = Station(id="a", runs=[{"id": "r", "channels": [{"component": c, "type": kind_of(c)}]}])
            ch = s.runs[0].channels[0]
        elif form == "list":
            ch = Run(id="a", channels=[{"component": c}]).channels[0]
        else:
            r = Run(id="a")
            r.add_channel(chan({"c": c, "form": form}))
            ch = r.channels[0]
        require(type(ch).__name__.lower() == kind_of(c) and ch.component == c.lower(), f"{c!r} given as {form} becomes {type(ch).__name__} {ch.component!r}")

    # ------------------------------------------------------------ stations
    def gen_st(rng, tier):
        n = 45 if tier == "quick" else 900
        for _ in range(n):
            ops = []
            ids = rng.sample(["a", "b", "c", "10", "z_9", "Ab", "001"], rng.randint(2, 5))
            for _ in range(rng.randint(3, 9)):
                k = rng.choice(["add", "add", "add", "remove", "merge", "sort", "copy"])
                op = {"op": k, "id": rng.choice(ids), "ch": rng.sample(["ex", "ey", "hx", "hy", "hz", "temperature"], rng.randint(0, 3)),
                      "t": [rng.choice([0, rng.randint(1, 30)]), rng.choice([0, rng.randint(1, 30)])], "rate": rng.choice([0, 4, 8])}
                if k == "sort":
                    op["up"], op["inplace"] = rng.random() < 0.5, rng.random() < 0.7
                ops.append(op)
            yield {"ops": ops}

    def mkrun(op):
        r = Run(id=op["id"])
        for c in op["ch"]:
            r.add_channel(c)
        if op["rate"]:
            r.sample_rate = op["rate"]
        if op["t"][0]:
            r.time_period.start = iso(at(op["t"][0]))
        if op["t"][1]:
            r.time_period.end = iso(at(op["t"][1]))
        return r

    @reg.rt("runs of a station", gen_st, ["Station.add_run", "Station.remove_run", "Station.merge", "Station.sort_runs_by_time", "Station.update_channels_recorded"],
            "45 random histories of up to 9 operations")
    def runs(ops):
        s = Station(id="mt01")
        mdl, per = {}, [0, 0]

        def grow():
            for q, pick in ((0, min), (1, max)):
                vs = [m[0][q] for m in mdl.values() if m[0][q]] + ([per[q]] if per[q] else [])
                per[q] = pick(vs) if vs else 0

        for step, op in enumerate(ops):
            i = op["id"]
            if op["op"] == "add":
                s.add_run(mkrun(op))
                if i in mdl:
                    t, ch, rate = mdl[i]
                    mdl[i] = [[a or b for a, b in zip(op["t"], t)], ch + [c for c in op["ch"] if c not in ch], op["rate"] or rate]
                else:
                    mdl[i] = [op["t"], list(op["ch"]), op["rate"]]
                grow()
            elif op["op"] == "remove":
                s.remove_run(i)
                mdl.pop(i, None)
                grow()
            elif op["op"] == "merge":
                if i in mdl:
                    continue
                o = Station(id="x")
                o.add_run(mkrun(op))
                s.merge(o, inplace=True)
                mdl[i] = [op["t"], list(op["ch"]), op["rate"]]
                grow()
            elif op["op"] == "copy":
                s.copy()
                require(s.n_runs == len(mdl), "copying changed the station")
            else:
                order = sorted(mdl, key=lambda x: mdl[x][0][0], reverse=not op["up"])
                starts = [mdl[x][0][0] for x in order]
                got = s.sort_runs_by_time(inplace=op["inplace"], ascending=op["up"])
                got = s.runs if op["inplace"] else got
                g = list(got.keys())
                require(sorted(g) == sorted(mdl) and [mdl[x][0][0] for x in g] == starts, f"runs sorted {'up' if op['up'] else 'down'}: {g}, starts {[mdl[x][0][0] for x in g]}")
                require(all(got[x].id == x for x in g), "sorting mixed up names and runs")
                if op["inplace"]:
                    mdl = {x: mdl[x] for x in g}
                    s.update_run_list()
            at_ = f"after step {step} of {ops}"
            require(s.n_runs == len(mdl) and list(s.run_list) == list(mdl) and list(s.runs.keys()) == list(mdl), f"{at_}: run list {s.run_list}, keys {s.runs.keys()} instead of {list(mdl)}")
            for j, x in enumerate(mdl):
                g = s.get_run(x)
                require(s.has_run(x) and s.run_index(x) == j and g is not None and g.id == x, f"{at_}: run {x!r} is not found")
                t, ch, rate = mdl[x]
                require(sorted(g.channels.keys()) == sorted(ch), f"{at_}: run {x!r} has channels {g.channels.keys()} instead of {ch}")
                require([val(g.time_period.start), val(g.time_period.end)] == [at(t[0]), at(t[1])], f"{at_}: run {x!r} has period {g.time_period}")
                require(float(g.sample_rate or 0) == rate, f"{at_}: run {x!r} has rate {g.sample_rate}")
            for x in ("a", "b", "c", "10", "z_9", "Ab", "001", "nope"):
                if x not in mdl:
                    require(not s.has_run(x) and s.get_run(x) is None and s.run_index(x) is None, f"{at_}: absent run {x!r} is reported")
            want = sorted({c for m in mdl.values() for c in m[1]})
            require(list(s.channels_recorded) == want, f"{at_}: recorded channels {s.channels_recorded} instead of {want}")
            require([val(s.time_period.start), val(s.time_period.end)] == [at(per[0]), at(per[1])],
                    f"{at_}: period {s.time_period.start} to {s.time_period.end} instead of {at(per[0])} to {at(per[1])}")

    # ------------------------------------------------------------ surveys
    def gen_sv(rng, tier):
        n = 35 if tier == "quick" else 700
        for _ in range(n):
            ops = []
            ids = rng.sample(["mt01", "mt02", "A", "99", "x_y", "mt10"], rng.randint(2, 5))
            for _ in range(rng.randint(3, 8)):
                k = rng.choice(["add", "add", "add", "remove", "merge", "keep"])
                ops.append({"op": k, "id": rng.choice(ids), "lat": rng.choice([0.0, 90.0, -90.0] + [round(rng.uniform(-89, 89), 3)] * 6), "lon": rng.choice([0.0, 180.0, -180.0] + [round(rng.uniform(-179, 179), 3)] * 6), "name": rng.choice(["", "Here", "There"]),
                            "t": [rng.choice([0, rng.randint(1, 60)]), rng.choice([0, rng.randint(1, 60)])]})
            yield {"ops": ops}

    @reg.rt("stations of a survey", gen_sv, ["Survey.add_station", "Survey.remove_station", "Survey.merge", "Survey.update_bounding_box", "Survey.survey_extent"],
            "35 random histories of up to 8 operations")
    def stations(ops):
        s = Survey(id="sv")
        mdl, per = {}, [0, 0]
        box = None

        def mk(op):
            q = Station(id=op["id"])
            q.location.latitude, q.location.longitude = op["lat"], op["lon"]
            if op["name"]:
                q.geographic_name = op["name"]
            if op["t"][0]:
                q.time_period.start = iso(at(op["t"][0], True))
            if op["t"][1]:
                q.time_period.end = iso(at(op["t"][1], True))
            return q

        for step, op in enumerate(ops):
            i = op["id"]
            done = True
            if op["op"] == "add":
                s.add_station(mk(op))
                if i in mdl:
                    t, la, lo, nm = mdl[i]
                    mdl[i] = [[a or b for a, b in zip(op["t"], t)], op["lat"] or la, op["lon"] or lo, op["name"] or nm]
                else:
                    mdl[i] = [op["t"], op["lat"], op["lon"], op["name"]]
            elif op["op"] == "remove":
                done = i in mdl
                s.remove_station(i)
                mdl.pop(i, None)
            elif op["op"] == "keep":
                done = False
                s.add_station(mk(dict(op, id="tmp")), update=False)
                s.remove_station("tmp", update=False)
            else:
                if i in mdl:
                    continue
                o = Survey(id="other")
                o.add_station(mk(op))
                s.merge(o, inplace=True)
                mdl[i] = [op["t"], op["lat"], op["lon"], op["name"]]
            if done:
                for q, pick in ((0, min), (1, max)):
                    vs = [m[0][q] for m in mdl.values() if m[0][q]] + ([per[q]] if per[q] else [])
                    per[q] = pick(vs) if vs else 0
                if mdl:
                    la, lo = [m[1] for m in mdl.values()], [m[2] for m in mdl.values()]
                    box = [min(la), max(la), min(lo), max(lo)]
            at_ = f"after step {step} of {ops}"
            require(s.n_stations == len(mdl) and list(s.station_names) == list(mdl), f"{at_}: stations {s.station_names} instead of {list(mdl)}")
            for j, x in enumerate(mdl):
                g = s.get_station(x)
                t, la, lo, nm = mdl[x]
                require(s.has_station(x) and s.station_index(x) == j and g is not None and g.id == x, f"{at_}: station {x!r} is not found")
                require((g.location.latitude, g.location.longitude) == (la, lo), f"{at_}: station {x!r} is at {g.location.latitude}, {g.location.longitude} instead of {la}, {lo}")
                require((g.geographic_name or "") == nm, f"{at_}: station {x!r} is called {g.geographic_name!r}")
                require([val(g.time_period.start), val(g.time_period.end)] == [at(t[0], True), at(t[1], True)], f"{at_}: station {x!r} has period {g.time_period}")
            for x in ("mt01", "mt02", "A", "99", "x_y", "mt10", "tmp"):
                if x not in mdl:
                    require(not s.has_station(x) and s.get_station(x) is None and s.station_index(x) is None, f"{at_}: absent station {x!r} is reported")
            require([val(s.time_period.start_date), val(s.time_period.end_date)] == [at(per[0], True), at(per[1], True)],
                    f"{at_}: period {s.time_period.start_date} to {s.time_period.end_date} instead of {at(per[0], True)} to {at(per[1], True)}")
            if box:
                e = s.survey_extent
                got = [s.southeast_corner.latitude, s.northwest_corner.latitude, s.northwest_corner.longitude, s.southeast_corner.longitude]
                require(got == box, f"{at_}: bounding box {got} instead of {box}")
                require([e["latitude"]["min"], e["latitude"]["max"], e["longitude"]["min"], e["longitude"]["max"]] == box, f"{at_}: extent {e}")
