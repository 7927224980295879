"""FDSN channel codes: band, instrument, orientation and back."""

ASSUMPTIONS = [
    "cos has the period 360 degrees",
    "obspy is not installed here; the module of the codes, which does not use it, is loaded without the package that does",
]
FT = "mt_metadata/timeseries/stationxml/fdsn_tools.py:"
BANDS = {
    "B": (10, 80), "C": (250, 1000), "D": (250, 1000), "E": (80, 250), "F": (1000, 5000), "G": (1000, 5000), "H": (80, 250), "L": (0.95, 1.05), "M": (1, 10),
    "P": (0.00001, 0.0001), "Q": (0, 0.000001), "R": (0.0001, 0.001), "S": (10, 80), "T": (0.000001, 0.00001), "U": (0.0095, 0.0105), "V": (0.095, 0.105),
}
MEAS = {
    "tilt": "A", "creep": "B", "calibration": "C", "pressure": "D", "magnetic": "F", "gravity": "G", "humidity": "I", "temperature": "K", "water_current": "O",
    "electric": "Q", "rain_fall": "R", "linear_strain": "S", "tide": "T", "wind": "W",
}
ANGLE = {"N": 0, "E": 90, "Z": 0, "1": 30, "2": 60, "3": 0}
AXIS = {"N": "x", "1": "x", "E": "y", "2": "y", "Z": "z", "3": "z"}


def band(rate):
    """the first band, by letter, with the rate in it"""
    for k, (a, b) in BANDS.items():
        if a <= rate <= b:
            return k
    return "A"


def load():
    """the module, without importing obspy"""
    import importlib
    import os
    import sys
    import types

    import mt_metadata.timeseries as ts

    name = "mt_metadata.timeseries.stationxml"
    if name not in sys.modules:
        pkg = types.ModuleType(name)
        pkg.__path__ = [os.path.join(os.path.dirname(ts.__file__), "stationxml")]
        sys.modules[name] = pkg
    return importlib.import_module(name + ".fdsn_tools")


def contracts():
    import math
    import types

    from pyvc import core
    from pyvc.api import And, Contract, Implies, Not, Or, SymBool, SymNum, SymStr, cos, eq, ite, num_z3, raises, z3
    from pyvc.npmodel import deg2rad

    ft = load()
    out = []

    def lit(v):
        return z3.RealVal(repr(v)) if isinstance(v, float) else z3.RealVal(v)

    # ------------------------------------------------------------ the band
    def expected(x):
        r = z3.StringVal("A")
        for k, (a, b) in reversed(BANDS.items()):
            r = z3.If(z3.And(x >= core.num_z3(a), x <= core.num_z3(b)), z3.StringVal(k), r)
        return r

    def text(s):
        return z3.StringVal(s) if isinstance(s, str) else s.e

    def h_band(p):
        x = p.real("rate")
        r = ft.get_period_code(x)
        p.check("the first band with the rate in it", SymBool(text(r) == expected(x.e)))
        if isinstance(r, str) and r in BANDS:
            a, b = BANDS[r]
            p.check("the rate is in the band", And(x >= a, x <= b))
            p.check("the band of the code read back is that band", ft.read_channel_code(r + "QN")["period"] == {"min": a, "max": b})

    out.append(Contract("band of a rate", [FT + "get_period_code", FT + "read_channel_code"], h_band, replay=("rates", lambda m: {"rate": m.get("rate", 1.0)})))

    # ------------------------------------------------------ the orientation
    def turned(p, az):
        """|cos| of an angle in degrees, of period 360"""
        c = cos(deg2rad(az))
        k = cos(deg2rad(az % 360))
        p.trusted("cos has the period 360 degrees")
        p.fact(num_z3(c) == num_z3(k))
        return ite(c >= 0, c, -c)

    C15, C45, C105 = (abs(math.cos(math.radians(v))) for v in (15, 45, 105))
    W = 1e-12

    def mk_orient(vertical, whole):
        def h(p):
            az = p.int("azimuth") if whole else p.real("azimuth")
            v = turned(p, az)
            # angles exactly on an edge are decided by rounding
            r = ft.get_orientation_code(az, orientation="vertical") if vertical else ft.get_orientation_code(az)
            if vertical:
                p.check("within 15 degrees of the vertical", And(Implies(v > C15 + W, SymBool(text(r) == "Z")), Implies(v < C15 - W, SymBool(text(r) == "3"))))
                p.check("one of the two codes", SymBool(z3.Or(text(r) == "Z", text(r) == "3")))
            else:
                p.check("north within 15 degrees of the axis", Implies(v > C15 + W, SymBool(text(r) == "N")))
                p.check("east within 15 degrees of the other axis", Implies(v < C105 - W, SymBool(text(r) == "E")))
                p.check("1 nearer to north", Implies(And(v < C15 - W, v > C45 + W), SymBool(text(r) == "1")))
                p.check("2 nearer to east", Implies(And(v > C105 + W, v < C45 - W), SymBool(text(r) == "2")))
                p.check("one of the four codes", SymBool(z3.Or(*[text(r) == c for c in "NE12"])))

        return h

    for vert in (False, True):
        for whole in (False, True):
            out.append(Contract(f"{'vertical' if vert else 'horizontal'} orientation of {'a whole' if whole else 'an'} angle", FT + "get_orientation_code", mk_orient(vert, whole),
                                replay=("angles", lambda m, vert=vert: {"azimuth": m.get("azimuth", 0), "vertical": vert})))

    def h_direction(p):
        s = p.string("direction")
        low = s.lower()
        try:
            r = ft.get_orientation_code(direction=s)
        except ValueError as e:
            r = e
        known = Or(*[SymBool(text(low) == c) for c in "xyz"])
        if isinstance(r, ValueError):
            p.cover("refused")
            p.check("only a direction that is none of x, y, z is refused", Not(known))
        else:
            p.cover("accepted")
            p.check("only x, y, z are directions", known)
            for c, w in zip("xyz", "NEZ"):
                p.check(f"code of {c}", Implies(SymBool(text(low) == c), SymBool(text(r) == w)))

    out.append(Contract("orientation of a direction", FT + "get_orientation_code", h_direction, covers=("refused", "accepted"), replay=("directions", lambda m: {"direction": m.get("direction", "x")})))

    # ----------------------------------------------------------- instrument
    def h_measure(p):
        names = sorted(MEAS)
        k = p.choose(len(names), "measurement")
        for w in (names[k], names[k].upper(), names[k].capitalize()):
            p.check(f"code of {w}", ft.get_measurement_code(w) == MEAS[names[k]])

    out.append(Contract("instrument of a measurement", FT + "get_measurement_code", h_measure, replay=("rates", lambda m: {"rate": 1.0})))

    def h_unknown(p):
        s = p.string("measurement")
        low = s.lower()
        p.assume(And(*[SymBool(z3.Not(z3.Contains(z3.StringVal(k), text(low)))) for k in MEAS]))
        p.check("a measurement not in the table is Y", SymBool(text(ft.get_measurement_code(s)) == "Y"))

    out.append(Contract("instrument of another measurement", FT + "get_measurement_code", h_unknown, replay=("other measurements", lambda m: {"measurement": m.get("measurement", "radon")})))

    # ------------------------------------------------------------- location
    def h_location(p):
        n = p.int("number")
        p.assume(n >= 0)
        comp = ("ex", "hy", "Hz", "temperature")[p.choose(4, "component")]
        r = ft.create_location_code(types.SimpleNamespace(component=comp, channel_number=n))
        p.check("first letter and last digit", SymBool(text(r) == z3.Concat(z3.StringVal(comp[0].upper()), z3.IntToStr(num_z3(n % 10)))))

    out.append(Contract("location code", FT + "create_location_code", h_location, replay=("locations", lambda m: {"component": "ex", "number": m.get("number", 7)})))

    # ----------------------------------------------------------- whole code
    def mk_code(meas, vertical):
        def h(p):
            x, az = p.real("rate"), p.real("azimuth")
            kw = {"orientation": "vertical"} if vertical else {}
            # the orientation is taken by its contract: one of the codes
            codes = "Z3" if vertical else "NE12"
            o = codes[p.choose(len(codes), "orientation")]
            old, ft.get_orientation_code = ft.get_orientation_code, lambda *a, **k: seen.append((a, k)) or o
            seen = []
            try:
                code = ft.make_channel_code(x, meas, az, **kw)
            finally:
                ft.get_orientation_code = old
            (a, k), = seen
            given = a[0] if a else k.get("azimuth")
            p.check("the orientation is that of the azimuth", eq(given, az))
            p.check("in its plane", (k.get("orientation") or (a[2] if len(a) > 2 else "horizontal")) == ("vertical" if vertical else "horizontal"))
            p.check("band, instrument, orientation", SymBool(text(code) == z3.Concat(expected(x.e), z3.StringVal(MEAS[meas] + o))))

        return h

    for meas in MEAS:
        for vert in (False, True):
            out.append(Contract(f"code of {meas}, {'vertical' if vert else 'horizontal'}", [FT + "make_channel_code", FT + "get_period_code", FT + "get_measurement_code"], mk_code(meas, vert),
                                replay=("codes", lambda m, meas=meas, vert=vert: {"rate": m.get("rate", 1.0), "measurement": meas, "azimuth": m.get("azimuth", 0.0), "vertical": vert})))

    def h_named(p):
        x = p.real("rate")
        d = "xyzXYZ"[p.choose(6, "direction")]
        meas = ("electric", "magnetic")[p.choose(2, "measurement")]
        code = ft.make_channel_code(x, meas, d)
        p.check("code of a direction", SymBool(text(code) == z3.Concat(expected(x.e), z3.StringVal(MEAS[meas] + {"x": "N", "y": "E", "z": "Z"}[d.lower()]))))

    out.append(Contract("code of a direction", [FT + "make_channel_code", FT + "get_orientation_code"], h_named, replay=("codes", lambda m: {"rate": m.get("rate", 1.0), "measurement": "electric", "azimuth": "x", "vertical": False})))

    # ----------------------------------------------------------- and back
    def h_back(p):
        b = (list(BANDS) + ["A", "X"])[p.choose(18, "band")]
        m, c = sorted(MEAS.items())[p.choose(len(MEAS), "instrument")]
        o = "NEZ123"[p.choose(6, "orientation")]
        r = ft.read_channel_code(b + c + o)
        a, z = BANDS.get(b, (1, 1))
        p.check("the band", r["period"] == {"min": a, "max": z})
        p.check("the measurement", r["measurement"] == ("magnetic" if m == "tide" else m))
        p.check("the orientation", r["orientation"]["angle"] == ANGLE[o] and r["orientation"]["variance"] == 15)
        if m in ("electric", "magnetic", "tide", "temperature"):
            first = {"electric": "e", "temperature": "temperature"}.get(m, "h")
            p.check("the component", ft.create_mt_component(b + c + o) == first + AXIS[o])

    out.append(Contract("reading a code", [FT + "read_channel_code", FT + "create_mt_component"], h_back, replay=("codes", lambda m: {"rate": 1.0, "measurement": "electric", "azimuth": "x", "vertical": False})))

    def h_bad(p):
        s = p.string("code")
        k = p.choose(3, "fault")
        if k == 0:
            p.assume(SymBool(z3.Length(s.e) != 3))
        else:
            p.assume(SymBool(z3.Length(s.e) == 3))
            at = z3.SubString(s.e, k, 1)
            for c in (MEAS.values() if k == 1 else ANGLE):
                p.assume(SymBool(at != z3.StringVal(c)))
        p.check("refused", isinstance(raises(p, lambda: ft.read_channel_code(s), ValueError), ValueError))

    out.append(Contract("unreadable codes", FT + "read_channel_code", h_bad, replay=("unreadable", lambda m: {"code": m.get("code", "LQ")})))
    return out


def runtime(reg):
    import math
    import types

    from loguru import logger

    from pyvc.rt import Skip, require

    ft = load()
    logger.remove()
    EDGES = sorted({v for ab in BANDS.values() for v in ab})

    def gen_rates(rng, tier):
        for v in EDGES:
            for f in (1, 1 + 1e-9, 1 - 1e-9, 1.02, 0.98, 3):
                yield {"rate": v * f}
        for v in (1, 2, 4, 8, 16, 10, 64, 100, 128, 256, 500, 1024, 4096, 24000, 0.1, 0.01, 0.02, 1 / 60, 1e9):
            yield {"rate": v}

    @reg.rt("rates", gen_rates, [FT + "get_period_code"], "all band edges and either side of them")
    def rates(rate):
        r = ft.get_period_code(rate)
        require(r == band(rate), f"{rate} samples per second has the code {r!r} instead of {band(rate)!r}")
        for m, c in MEAS.items():
            for w in (m, m.upper()):
                require(ft.get_measurement_code(w) == c, f"{w!r} has the code {ft.get_measurement_code(w)!r} instead of {c!r}")

    def gen_other(rng, tier):
        for w in ("radon", "voltage", "xyz", "seismic", "Magnetics", "electrical", "q", "Y"):
            yield {"measurement": w}

    @reg.rt("other measurements", gen_other, [FT + "get_measurement_code"], "8 names")
    def others(measurement):
        if any(measurement.lower() in k for k in MEAS):
            raise Skip
        require(ft.get_measurement_code(measurement) == "Y", f"{measurement!r} has the code {ft.get_measurement_code(measurement)!r} instead of 'Y'")

    def orient(az, vertical):
        # degrees from the nearest end of the axis
        d = abs(math.fmod(az, 180))
        d = min(d, 180 - d)
        if min(abs(d - e) for e in ((15,) if vertical else (15, 45, 75))) < 1e-7:
            return None
        if vertical:
            return "Z" if d < 15 else "3"
        return "N" if d < 15 else "1" if d < 45 else "2" if d < 75 else "E"

    def gen_angles(rng, tier):
        for v in (False, True):
            for a in range(-720, 721, 7 if tier == "quick" else 1):
                yield {"azimuth": a, "vertical": v}
                yield {"azimuth": a + rng.random(), "vertical": v}
            for e in (15, 45, 75, 105, 135, 165, 195, 225, 255, 285, 315, 345):
                for d in (-0.01, 0.01):
                    yield {"azimuth": e + d, "vertical": v}

    @reg.rt("angles", gen_angles, [FT + "get_orientation_code"], "angles of two turns in either direction")
    def angles(azimuth, vertical):
        want = orient(azimuth, vertical)
        got = ft.get_orientation_code(azimuth, orientation="vertical" if vertical else "horizontal")
        if want is None:
            require(got in ("Z3" if vertical else "NE12"), f"{azimuth} degrees has the code {got!r}")
        else:
            require(got == want, f"{azimuth} degrees has the code {got!r} instead of {want!r}")

    def gen_dir(rng, tier):
        for d in ("x", "y", "z", "X", "Y", "Z", "q", "", "xy", "N", "1"):
            yield {"direction": d}

    @reg.rt("directions", gen_dir, [FT + "get_orientation_code"], "11 texts")
    def directions(direction):
        want = {"x": "N", "y": "E", "z": "Z"}.get(direction.lower())
        try:
            got = ft.get_orientation_code(direction=direction)
        except ValueError:
            require(want is None, f"the direction {direction!r} is refused")
            return
        require(got == want, f"the direction {direction!r} has the code {got!r} instead of {want!r}")

    def gen_loc(rng, tier):
        for c in ("ex", "hy", "Hz", "temperature"):
            for n in (0, 1, 5, 9, 10, 11, 27, 100, 1234):
                yield {"component": c, "number": n}

    @reg.rt("locations", gen_loc, [FT + "create_location_code"], "36 channels")
    def locations(component, number):
        got = ft.create_location_code(types.SimpleNamespace(component=component, channel_number=int(number)))
        want = component[0].upper() + str(int(number))[-1]
        require(got == want, f"channel {number} of {component} has the location {got!r} instead of {want!r}")

    def gen_codes(rng, tier):
        for r in (0.0000005, 0.01, 0.1, 1, 4, 8, 100, 1024, 24000):
            for m in MEAS:
                for a in (0, 20.0, 50, 88.5, 181, -90, 359, "x", "Y", "z"):
                    yield {"rate": r, "measurement": m, "azimuth": a, "vertical": False}
                yield {"rate": r, "measurement": m, "azimuth": 3.0, "vertical": True}
                yield {"rate": r, "measurement": m, "azimuth": 40, "vertical": True}

    @reg.rt("codes", gen_codes, [FT + "make_channel_code", FT + "read_channel_code", FT + "create_mt_component"], "9 rates, 14 measurements, 12 orientations")
    def codes(rate, measurement, azimuth, vertical):
        code = ft.make_channel_code(rate, measurement, azimuth, **({"orientation": "vertical"} if vertical else {}))
        o = {"x": "N", "y": "E", "z": "Z"}[azimuth.lower()] if isinstance(azimuth, str) else orient(azimuth, vertical)
        if o is None:
            raise Skip
        want = band(rate) + MEAS[measurement] + o
        require(code == want, f"{measurement} at {rate} and {azimuth} has the code {code!r} instead of {want!r}")
        r = ft.read_channel_code(code)
        lo, hi = BANDS.get(code[0], (1, 1))
        require(r["period"] == {"min": lo, "max": hi}, f"the band of {code} is {r['period']}")
        require(r["measurement"] == ("magnetic" if measurement == "tide" else measurement), f"{code} is read as {r['measurement']!r} instead of {measurement!r}")
        require(r["orientation"]["angle"] == ANGLE[o], f"{code} is read with the angle {r['orientation']['angle']}")
        if measurement in ("electric", "magnetic", "tide", "temperature"):
            w = {"electric": "e", "temperature": "temperature"}.get(measurement, "h") + AXIS[o]
            got = ft.create_mt_component(code)
            require(got == w, f"{code} is the component {got!r} instead of {w!r}")

    def gen_bad(rng, tier):
        for c in ("", "L", "LQ", "LQNN", "LYN", "LQX", "L1N", "LqN", "LQn", "lqn"):
            yield {"code": c}

    @reg.rt("unreadable", gen_bad, [FT + "read_channel_code"], "10 codes")
    def unreadable(code):
        if len(code) == 3 and code[1] in MEAS.values() and code[2] in ANGLE:
            raise Skip
        try:
            r = ft.read_channel_code(code)
        except ValueError:
            return
        require(False, f"{code!r} is read as {r}")

    def gen_rel(rng, tier):
        yield {"all": True}

    @reg.rt("release of a licence", gen_rel, ["release_dict"], "all licences")
    def release(all_):
        from mt_metadata.common import LicenseEnum

        d = ft.release_dict
        require(d[None] == "open" and all(d[k] == k for k in ("open", "closed", "partial")), "the release statuses are not kept")
        for k in LicenseEnum.__members__:
            parts = k.split("_")
            if not k.startswith("CC"):
                want = "partial"
            elif "ND" in parts:
                want = "closed"
            elif any(x in parts for x in ("SA", "NC", "NA")):
                want = "partial"
            else:
                want = "open"
            require(d.get(k) == want, f"the licence {k} is {d.get(k)!r} instead of {want!r}")
