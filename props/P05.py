"""GPS time and leap seconds."""

# IERS Bulletin C: dates from which UTC lags GPS by one more second
LEAPS = [(1981, 7, 1), (1982, 7, 1), (1983, 7, 1), (1985, 7, 1), (1988, 1, 1), (1990, 1, 1), (1991, 1, 1),
         (1992, 7, 1), (1993, 7, 1), (1994, 7, 1), (1996, 1, 1), (1997, 7, 1), (1999, 1, 1), (2006, 1, 1),
         (2009, 1, 1), (2012, 7, 1), (2015, 7, 1), (2017, 1, 1)]
FIRST, LAST = (1980, 1, 1), (2026, 7, 1)


def contracts():
    import mt_metadata.common.mttime as m
    from pyvc import timemodel as tm
    from pyvc.api import And, Contract, Or, SymNum, eq, num_z3, raises, rv, uf, z3

    def key(t):
        return t[0] * 10000 + t[1] * 100 + t[2]

    def setup(p):
        m.datetime = tm.dt_facade()
        m.pd = tm.pd_facade()

    def ymd(p):
        y, mo, d = p.int("y"), p.int("m"), p.int("d")
        p.assume(And(y >= 1, y <= 9999, mo >= 1, mo <= 12, d >= 1, d <= 31))
        return y, mo, d, y * 10000 + mo * 100 + d

    def spec(k):
        n = z3.IntVal(0)
        for t in LEAPS:
            n = n + z3.If(num_z3(k) >= key(t), 1, 0)
        return SymNum(n)

    def h_in(p):
        setup(p)
        y, mo, d, k = ymd(p)
        p.assume(And(k >= key(FIRST), k < key(LAST)))
        p.declare_cover("returns")
        r = m.calculate_leap_seconds(y, mo, d)
        p.cover("returns")
        p.check("offset counts the leap seconds introduced so far", eq(r, spec(k)))

    def h_out(p):
        setup(p)
        y, mo, d, k = ymd(p)
        p.assume(Or(k < key(FIRST), k >= key(LAST)))
        e = raises(p, lambda: m.calculate_leap_seconds(y, mo, d))
        p.check("dates outside the table are rejected", e is not None)
        p.check("with a ValueError", isinstance(e, ValueError))

    def h_parse(p):
        """gps parsing = utc parsing minus the offset of that date"""
        setup(p)
        ns = p.int("ns")
        ts = tm.SymTimestamp(ns.e, tm.UTC)
        p.assume(z3.And(ns.e > tm.ns_of(m.TMIN), ns.e < tm.ns_of(m.TMAX)))
        real = m.calculate_leap_seconds
        leap = uf("leap", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
        m.calculate_leap_seconds = lambda a, b, c: SymNum(leap(num_z3(a), num_z3(b), num_z3(c)))
        try:
            u = m.parse(ts)
            form = p.choose(4, "form")
            p.inputs["form"] = form
            g = [lambda: m.parse(ts, gps_time=True),
                 lambda: m.parse({"time_stamp": ts, "gps_time": True}),
                 lambda: m.parse({"time_stamp": ts}, gps_time=True),
                 lambda: m.parse({"time_stamp": ts, "gps_time": True}, gps_time=True)][form]()
        finally:
            m.calculate_leap_seconds = real
        want = u.ns - 1000000000 * leap(u.year.e, u.month.e, u.day.e)
        p.check("gps time lags by exactly the leap seconds of its date", SymNum(g.ns) == SymNum(want))
        p.check("result is UTC", g.tz == tm.UTC)

    rp = lambda q: {"y": q["y"], "m": q["m"], "d": q["d"]}
    return [
        Contract("leap seconds inside the table", "calculate_leap_seconds", h_in, replay=("leap", rp), covers=["returns"]),
        Contract("leap seconds outside the table", "calculate_leap_seconds", h_out, replay=("leap", rp)),
        Contract("gps conversion subtracts the offset", ["parse", "_check_timestamp", "_localize_utc"], h_parse,
                 replay=("gps", lambda q: {"ns": q["ns"]})),
    ]


def runtime(reg):
    import datetime

    import pandas as pd

    from pyvc.rt import Skip, Violation, require
    from mt_metadata.common.mttime import MTime, calculate_leap_seconds, parse

    def days(rng, tier):
        for t in LEAPS + [FIRST, LAST]:
            d = datetime.date(*t)
            for k in (-2, -1, 0, 1, 2):
                e = d + datetime.timedelta(days=k)
                yield {"y": e.year, "m": e.month, "d": e.day}
        d0 = datetime.date(1979, 1, 1).toordinal()
        step = 1 if tier == "thorough" else 17
        for o in range(d0, datetime.date(2027, 12, 31).toordinal(), step):
            e = datetime.date.fromordinal(o)
            yield {"y": e.year, "m": e.month, "d": e.day}

    @reg.rt("leap", days, ["calculate_leap_seconds"], "days 1979-2027 (all in the thorough tier)")
    def leap(i):
        try:
            d = (datetime.date(i["y"], i["m"], i["d"]))
        except ValueError:
            raise Skip
        t = (d.year, d.month, d.day)
        try:
            r = calculate_leap_seconds(i["y"], i["m"], i["d"])
        except ValueError:
            r = None
        want = sum(t >= x for x in LEAPS) if FIRST <= t < LAST else None
        require(r == want, f"leap seconds on {d}: {r}, expected {want}")

    def gen(rng, tier):
        h = 3600 * 10**9
        for t in LEAPS:
            base = pd.Timestamp(*t).value
            for k in (-1, 0, 1, 17 * 10**9, 24 * h, -23 * h, -17 * h, -11 * h, -6 * h, -h, h, 7 * h, 12 * h, 18 * h):
                yield {"ns": base + k // 1000 * 1000 if abs(k) > 1 else base + k}
        for _ in range(200):
            yield {"ns": rng.randrange(pd.Timestamp("1980-01-07").value, pd.Timestamp("2026-06-30").value) // 1000 * 1000}

    @reg.rt("gps", gen, ["parse", "MTime"], "450 instants around and between leap dates, in 5 forms")
    def gps(i):
        u = pd.Timestamp(i["ns"], tz="UTC")
        base = parse(u)
        t = (base.year, base.month, base.day)
        if not FIRST <= t < LAST:
            raise Skip
        off = sum(t >= x for x in LEAPS)
        g = parse(u, gps_time=True)
        require((base - g).total_seconds() == off, f"gps {base} became {g}, expected an offset of {off}s")
        for d, kw in (({"time_stamp": u, "gps_time": True}, {}), ({"time_stamp": u}, {"gps_time": True}),
                      ({"time_stamp": u.isoformat()}, {"gps_time": True}), ({"time_stamp": u.isoformat(), "gps_time": True}, {}),
                      (u.to_pydatetime() if u.value % 1000 == 0 else u, {"gps_time": True})):
            require(parse(d, **kw) == g, f"parse({d}, {kw}) is {parse(d, **kw)}, expected {g}")
        require(parse({"time_stamp": u, "gps_time": False}) == base, "a dictionary that says UTC was shifted")
        m = MTime(gps_time=True, time_stamp=u)
        require(m.time_stamp == g, f"MTime(gps) {m} differs from parse {g}")
        require(MTime(time_stamp=u.isoformat(), gps_time=True).time_stamp == g, "string and timestamp disagree")
        require(m.copy() == m, "copy shifts the time")

    @reg.rt("gps dump", lambda rng, tier: ({"iso": f"{y}-03-04T05:06:07"} for y in range(1981, 2026, 4)),
            ["MTime.model_dump"], "12 dates")
    def dump(i):
        m = MTime(time_stamp=i["iso"], gps_time=True)
        back = MTime(**m.model_dump())
        if back != m:
            raise Violation(f"dump and reload of a gps time moved {m} to {back}", "gps-reload-shifts")
