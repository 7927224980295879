"""Positions: sign, value and range of latitudes and longitudes."""

ASSUMPTIONS = ["pydantic calls the declared 'before' validators of latitude and longitude with the field name (enumerated at run time for every class)"]


def contracts():
    import mt_metadata.utils.location_helpers as lh
    from pyvc.api import And, Contract, Implies, Not, Or, SymBool, SymNum, SymStr, eq, ite, num_z3, raises, z3

    out = []
    EPS = z3.RealVal("1/3600") * z3.RealVal("51/1000000")

    def absz(x):
        return z3.If(x >= 0, x, -x)

    # -------------------------------------------- degrees -> text -> degrees
    def groups(s):
        """the three colon separated fields of a formatted text"""
        g = s.split(":")
        return g if isinstance(g, list) else None

    def h_text(p):
        x = p.real("x")
        s = lh.convert_position_float2str(x)
        g = groups(s)
        p.check("three fields", g is not None and len(g) == 3)
        if g is None or len(g) != 3:
            return
        from pyvc.helpers import b_float
        d, m, sec = (b_float(v) for v in g)
        p.check("minutes in [0, 60)", And(m >= 0, m < 60))
        p.check("seconds in [0, 60)", And(sec >= 0, sec < 60))
        neg = g[0].startswith("-") if not isinstance(g[0], str) else g[0][:1] == "-"
        p.check("a minus sign exactly for negative positions", eq(neg if isinstance(neg, SymBool) else SymBool(z3.BoolVal(bool(neg))), x < 0))
        v = absz(num_z3(d)) + num_z3(m) / 60 + num_z3(sec) / 3600
        p.check("the text denotes the position", SymBool(absz(v - absz(x.e)) <= EPS))

    out.append(Contract("degrees to text", "convert_position_float2str", h_text, replay=("dms", lambda q: {"x": q["x"]})))

    def h_roundtrip(p):
        x = p.real("x")
        y = lh.convert_position_str2float(lh.convert_position_float2str(x))
        p.check("text reads back as the position", SymBool(absz(num_z3(y) - x.e) <= EPS))
        p.check("same side of zero", And(Implies(x >= 0, y >= 0), Implies(x <= 0, y <= 0)))

    out.append(Contract("degrees to text and back", ["convert_position_float2str", "convert_position_str2float"], h_roundtrip,
                        replay=("dms", lambda q: {"x": q["x"]})))

    def h_type(p):
        s = p.string("s")
        p.check("a text is not a number of degrees", isinstance(raises(p, lambda: lh.convert_position_float2str(s)), TypeError))

    out.append(Contract("degrees must be a number", "convert_position_float2str", h_type))

    # -------------------------------------------- any text -> degrees
    def h_read(p):
        s = p.string("s")
        if p.branch(s.e == z3.StringVal("None")):
            p.check("no position is 0", eq(lh.convert_position_str2float(s), 0.0))
            return
        parts = s.split(":")
        n = parts.n
        F = z3.Function("float_of", z3.StringSort(), z3.RealSort())
        ok = z3.Function("is_float", z3.StringSort(), z3.BoolSort())
        three = p.branch(num_z3(n) == 3)
        try:
            v = lh.convert_position_str2float(s)
        except ValueError:
            p.cover("rejected")
            p.check("only a text that is not three numbers is rejected",
                    Or(not three, Not(And(*[SymBool(ok(parts.at(i).e)) for i in range(3)]))) if three else True)
            return
        p.cover("accepted")
        p.check("only three numbers are accepted", And(three, *[SymBool(ok(parts.at(i).e)) for i in range(3)]) if three else False)
        d, m, sec = (F(parts.at(i).e) for i in range(3))
        mag = absz(d) + m / 60 + sec / 3600
        neg = parts.at(0).strip().startswith("-")
        p.check("the signed position it spells", eq(v, ite(neg, SymNum(-mag), SymNum(mag))))

    out.append(Contract("text to degrees", ["convert_position_str2float", "_assert_minutes", "_assert_seconds"], h_read,
                        covers=["accepted", "rejected"], replay=("read", lambda q: {"s": q["s"]})))

    # -------------------------------------------- range checks
    LIM = {"latitude": 90, "longitude": 180}

    def mk_range(which, form):
        lim = LIM[which]

        def h(p):
            if form == "number":
                x = p.real("x")
                arg, val, bad = x, x.e, None
            elif form == "decimal text":
                arg = p.string("s")
                p.assume(z3.And(z3.Not(z3.Contains(arg.e, z3.StringVal(":"))), arg.e != z3.StringVal("None")))
                val = z3.Function("float_of", z3.StringSort(), z3.RealSort())(arg.e)
                bad = z3.Not(z3.Function("is_float", z3.StringSort(), z3.BoolSort())(arg.e))
            else:
                arg = p.string("s")
                p.assume(z3.Contains(arg.e, z3.StringVal(":")))
                got = {}
                val = z3.Real(p.fresh("dms"))
                fails = p.choose(2, "unreadable")
                bad = z3.BoolVal(bool(fails))

                def stub(t):
                    got["t"] = t
                    if fails:
                        raise ValueError("unreadable")
                    return SymNum(val)

                real = lh.convert_position_str2float
                lh.convert_position_str2float = stub
            try:
                try:
                    r = lh.validate_position(arg, which)
                finally:
                    if form == "dms text":
                        lh.convert_position_str2float = real
            except ValueError:
                p.cover("rejected")
                out_ = z3.Or(val > lim, val < -lim)
                p.check("only an unreadable or out-of-range value is rejected", SymBool(z3.Or(bad, out_) if bad is not None else out_))
                return
            p.cover("accepted")
            p.check(f"{which} within {lim} degrees", And(r <= lim, r >= -lim))
            p.check("the value is the one given", SymBool(num_z3(r) == val))
            if form == "dms text":
                p.check("the whole text is read", eq(got["t"], arg))

        return h

    for which in LIM:
        for form in ("number", "decimal text", "dms text"):
            out.append(Contract(f"{which} from {form}", "validate_position", mk_range(which, form), covers=["accepted", "rejected"],
                                replay=("range", lambda q, which=which: {"which": which, "v": q.get("x", q.get("s"))})))

    def h_none(p):
        which = ["latitude", "longitude"][p.choose(2, "which")]
        v = [None, "None"][p.choose(2, "none")]
        p.check("no position is 0", eq(lh.validate_position(v, which), 0.0))

    out.append(Contract("no position", "validate_position", h_none))

    def h_kind(p):
        k = p.string("kind")
        x = p.real("x")
        p.assume(z3.And(k.e != z3.StringVal("latitude"), k.e != z3.StringVal("longitude")))
        p.check("another kind of position is an error", isinstance(raises(p, lambda: lh.validate_position(x, k)), ValueError))

    out.append(Contract("kind of position", "validate_position", h_kind))

    # -------------------------------------------- the fields apply the check
    def mk_field(label, mod, cls, field, which):
        def h(p):
            import importlib

            m = importlib.import_module(mod)
            C = getattr(m, cls)
            calls = []

            def stub(v, w):
                calls.append((v, w))
                return ("checked", v)

            holder = m.location_helpers if hasattr(m, "location_helpers") else m
            real = holder.validate_position
            holder.validate_position = stub
            try:
                class Info:
                    field_name = field
                x = p.real("x")
                r = C.validate_position(x, Info)
            finally:
                holder.validate_position = real
            p.check("the checked value is stored", r[0] == "checked" and r[1] is x)
            p.check("checked once, as what it is", len(calls) == 1 and calls[0][0] is x and calls[0][1] == which)

        out.append(Contract(label, f"{cls}.validate_position", h))

    for f in ("latitude", "longitude"):
        mk_field(f"location {f}", "mt_metadata.common.location", "BasicLocationNoDatum", f, f)
    for f, w in (("lat", "latitude"), ("lon", "longitude")):
        mk_field(f"zonge {f}", "mt_metadata.transfer_functions.io.zonge.metadata.gps", "GPS", f, w)
        mk_field(f"EDI ref{f}", "mt_metadata.transfer_functions.io.edi.metadata.define_measurement", "DefineMeasurement", "ref" + f, w)
    return out


def runtime(reg):
    import math
    import random

    from mt_metadata.utils import location_helpers as lh
    from pyvc.rt import Skip, Violation, require

    TOL = 0.000051 / 3600

    def parse(t):
        """independent reading of a D:M:S text"""
        a, b, c = t.split(":")
        v = abs(float(a)) + float(b) / 60 + float(c) / 3600
        return -v if a.strip().startswith("-") else v

    def gen(rng, tier):
        n = 300 if tier == "quick" else 4000
        fixed = [0, 0.0, -0.5, 0.5, -0.999999, 1 / 3, -1 / 3, 59.99999999, -59.99999999, 89.9999999999, 90, -90, 180, -180.0, 179.99999999, 1.0,
                 -1.0, 12.9999999999, 30 + 59 / 60 + 59.99999 / 3600, -(59 / 60 + 59.999996 / 3600), 1e-9, -1e-9, 45 + 1 / 60, 10.1, -0.0166666666,
                 -1e-5, 0.9999999999, -0.0002777, 5 + 59.999999 / 60, 100 + 7 / 60 + 0.00004 / 3600]
        for x in fixed:
            yield {"x": x}
        for _ in range(n):
            s = rng.choice([90, 180, 1, 0.01])
            yield {"x": rng.choice([rng.uniform(-s, s), round(rng.uniform(-s, s), rng.randint(0, 6)),
                                    rng.randint(-180, 180) + rng.choice([0, 1 / 60, 59 / 60, 1 / 3600, 59.9999 / 3600])])}

    @reg.rt("dms", gen, ["convert_position_float2str", "convert_position_str2float"], "30 special and 600 random positions")
    def dms(x):
        if not isinstance(x, (int, float)) or not math.isfinite(x) or abs(x) > 1e6:
            raise Skip()
        t = lh.convert_position_float2str(x)
        f = t.split(":")
        require(len(f) == 3, f"{x!r} is written {t!r}")
        require(0 <= float(f[1]) < 60 and 0 <= float(f[2]) < 60, f"{x!r} is written {t!r}")
        require(abs(parse(t) - x) <= TOL + 1e-9 * abs(x) * 1e-3, f"{x!r} is written {t!r}")
        y = lh.convert_position_str2float(t)
        require(abs(y - x) <= TOL + 1e-12 * abs(x), f"{x!r} -> {t!r} -> {y!r}")
        for sp in (t, " " + t, t + " "):
            require(abs(lh.convert_position_str2float(sp) - x) <= TOL + 1e-12 * abs(x), f"{sp!r} is read as {lh.convert_position_str2float(sp)!r}")

    def gen_r(rng, tier):
        n = 300 if tier == "quick" else 4000
        for s in ["12:30:00", "-12:30:00", "-0:30:00", "0:30:00", "-00:00:36", "+10:30:00", "40:20", "", "abc", "1:2:3:4", "a:b:c", ":::", "::", "1::2",
                  "None", "12:75:00", "12:00:75.5", "-12:0:0.0001", "179:59:59.9999", "-0:00:00", " -0:30:0", "10:20:30.5W", "1e1:0:0"]:
            yield {"s": s}
        for _ in range(n):
            d, m, c = rng.randint(0, 180), rng.randint(0, 59), round(rng.uniform(0, 60), rng.randint(0, 5))
            yield {"s": rng.choice(["", "-", "-", "+", " -"]) + rng.choice([f"{d}", f"{d:02d}", f"{d:03d}", "0", "00"]) + f":{m:02d}:" + rng.choice([f"{c}", f"{c:09.6f}", f"{c:.1f}"])}

    @reg.rt("read", gen_r, ["convert_position_str2float"], "23 special and 300 random texts")
    def read(s):
        if not isinstance(s, str):
            raise Skip()
        try:
            a, b, c = (float(v) for v in s.split(":"))
            want = parse(s)
        except ValueError:
            want = 0.0 if s == "None" else None
        try:
            got = lh.convert_position_str2float(s)
        except ValueError:
            got = None
        require((got is None) == (want is None), f"{s!r}: {got!r} instead of {want!r}")
        if got is not None:
            require(abs(got - want) < 1e-9, f"{s!r} is read as {got!r} instead of {want!r}")

    # ---------------------------------------------- every location object
    def spots():
        from props.classes import all_classes
        from mt_metadata.common.location import BasicLocationNoDatum

        res = []
        for name, C in all_classes().items():
            fields = set(getattr(C, "model_fields", {}))
            if issubclass(C, BasicLocationNoDatum):
                res += [(name, "", "latitude", 90), (name, "", "longitude", 180)]
                continue
            if {"reflat", "reflon"} <= fields:
                res += [(name, "", "reflat", 90), (name, "", "reflon", 180)]
            if {"lat", "lon"} <= fields:
                res += [(name, "", "lat", 90), (name, "", "lon", 180)]
            o = C()
            for f in fields:
                try:
                    v = getattr(o, f)
                except Exception:
                    continue
                if isinstance(v, BasicLocationNoDatum):
                    res += [(name, f, "latitude", 90), (name, f, "longitude", 180)]
        return res

    def gen_s(rng, tier):
        n = 300 if tier == "quick" else 4000
        for sp in spots():
            for _ in range(2 if tier == "quick" else 20):
                lim = sp[3]
                ok = rng.uniform(-lim, lim)
                t = rng.choice(["num", "text", "dms", "int", "edge", "nedge", "negsmall"])
                v = {"num": ok, "text": repr(round(ok, 6)), "dms": f"{'-' if ok < 0 else ''}{int(abs(ok)) % lim}:15:36.0", "int": int(ok), "edge": lim,
                     "nedge": -float(lim), "negsmall": "-0:30:00"}[t]
                bad = rng.choice([lim + 1e-6, -lim - 0.5, lim * 1.5, f"{lim}:00:01", f"-{lim}:30:00", str(lim + 0.25), "north", 1e9, "1:2", float("nan"), float("inf")])
                yield {"cls": sp[0], "sub": sp[1], "field": sp[2], "lim": lim, "v": v, "bad": bad}

    cache = {}

    def cls(n):
        if not cache:
            from props.classes import all_classes

            cache.update(all_classes())
        return cache[n]

    @reg.rt("every location", gen_s, ["validate_position", "BasicLocationNoDatum.validate_position"],
            "every latitude and longitude of every metadata class (two values each)")
    def every(cls_, sub, field, lim, v, bad):
        C = cls(cls_)
        o = C()
        path = f"{sub}.{field}" if sub else field
        want = parse(v) if isinstance(v, str) and ":" in v else float(v)
        o.update_attribute(path, v)
        get = lambda x: x.get_attr_from_name(path)
        require(abs(get(o) - want) < 1e-9, f"{cls_} {path} = {v!r} is {get(o)!r}")
        before = get(o)
        e = None
        try:
            o.update_attribute(path, bad)
        except Exception as err:
            e = err
        require(e is not None, f"{cls_} accepts {path} = {bad!r} ({get(o)!r})")
        require(get(o) == before, f"{cls_} {path} changed to {get(o)!r} by the rejected {bad!r}")
        q = C(**{path: v})
        require(abs(get(q) - want) < 1e-9, f"{cls_}({path}={v!r}) is {get(q)!r}")
        try:
            q = C(**{path: bad})
        except Exception:
            q = None
        require(q is None, f"{cls_}({path}={bad!r}) is accepted")

    # ------------------------------------------- whole range of a location
    def gen_l(rng, tier):
        n = 300 if tier == "quick" else 4000
        for which, lim in (("latitude", 90), ("longitude", 180)):
            for v in [lim, -lim, lim - 1e-9, lim + 1e-9, -lim - 1e-9, 0, None, "None", 89.5, -89.5, 90.5, -90.5, 179.5, 181, -181, 270, 360, "1:30:00",
                      "-0:00:36", "90:00:00", "90:00:00.1", "180:00:00", "-180:00:00", "-180:00:00.5", "1e2", "-95", " 12 ", "abc", "--5", "12,5"]:
                yield {"which": which, "v": v}
        for _ in range(n // 2):
            yield {"which": rng.choice(["latitude", "longitude"]), "v": rng.uniform(-400, 400)}

    @reg.rt("range", gen_l, ["validate_position"], "60 special and 150 random values")
    def rng_(which, v):
        lim = {"latitude": 90, "longitude": 180}[which]
        try:
            if v in (None, "None"):
                want = 0.0
            elif isinstance(v, str) and ":" in v:
                [float(x) for x in v.split(":")]
                want = parse(v)
            else:
                want = float(v)
            if not abs(want) <= lim:
                want = None
        except ValueError:
            want = None
        try:
            got = lh.validate_position(v, which)
        except ValueError:
            got = None
        require((got is None) == (want is None) and (got is None or abs(got - want) < 1e-9), f"{which} {v!r}: {got!r} instead of {want!r}")

    # ------------------------------------------- EDI texts
    def gen_e(rng, tier):
        n = 300 if tier == "quick" else 4000
        for _ in range(n // 6):
            yield {"lat": round(rng.choice([rng.uniform(-90, 90), rng.uniform(-1, 1)]), 7), "lon": round(rng.choice([rng.uniform(-180, 180), rng.uniform(-1, 1)]), 7),
                   "fmt": rng.choice(["dms", "dd", "dms"]), "name": rng.choice(["LON", "LONG"])}

    @reg.rt("EDI header", gen_e, ["Header.write_header", "Header.read_header", "DefineMeasurement.write_measurement"], "50 positions")
    def edi(lat, lon, fmt, name):
        from mt_metadata.transfer_functions.io.edi.metadata import DefineMeasurement, Header

        h = Header(dataid="a", latitude=lat, longitude=lon)
        lines = h.write_header(longitude_format=name, latlon_format=fmt)
        d = {}
        for ln in lines:
            if "=" in ln:
                k, v = ln.strip().split("=", 1)
                d[k] = v
        tol = 1.01e-6 if fmt == "dd" else TOL
        rd = (lambda t: parse(t)) if fmt == "dms" else float
        require("LAT" in d and name in d, f"header without position: {lines}")
        require(abs(rd(d["LAT"]) - lat) <= tol and abs(rd(d[name]) - lon) <= tol, f"({lat}, {lon}) is written {d['LAT']}, {d[name]}")
        g = Header()
        g.read_header(lines)
        require(abs(g.latitude - lat) <= tol and abs(g.longitude - lon) <= tol, f"({lat}, {lon}) reads back as ({g.latitude}, {g.longitude})")
        m = DefineMeasurement(reflat=lat, reflon=lon)
        lines = m.write_measurement(longitude_format=name, latlon_format=fmt)
        g = DefineMeasurement()
        g.read_measurement(lines)
        require(abs(g.reflat - lat) <= tol and abs(g.reflon - lon) <= tol, f"reference ({lat}, {lon}) reads back as ({g.reflat}, {g.reflon})")
