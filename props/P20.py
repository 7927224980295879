"""EMTF (ZMM) files: geographic rotation, covariances, reading and writing."""

ASSUMPTIONS = [
    "numpy: matmul is the matrix product, inv of a 2x2 matrix is its inverse; complex64 storage and rounding are not modelled",
    "cos and sin are uninterpreted real functions of the angle with cos^2+sin^2 = 1",
]
ZF = "mt_metadata/transfer_functions/io/zfiles/zmm.py:ZMM."


def contracts():
    from mt_metadata.transfer_functions.io.zfiles.metadata import Channel
    from mt_metadata.transfer_functions.io.zfiles.zmm import ZMM
    from pyvc.api import And, Contract, Implies, Not, Or, SymArray, SymBool, SymComplex, SymNum, cos, eq, num_z3, put, raises, sin, sqrt, z3
    from pyvc.blockmodel import Store, SymBlock, SymDS
    from pyvc.npmodel import deg2rad

    out = []

    def make(p, order, tipper=True):
        """a ZMM with channels at the given 1-based numbers and any azimuths, responses and covariances"""
        p.loop_specs["objarrays"] = True
        p.use_ring()
        z = ZMM()
        az = {}
        for ch, num in order.items():
            c = Channel(channel=ch, number=num)
            az[ch] = p.real("az_" + ch)
            put(c, azimuth=az[ch])
            setattr(z, ch, c)
        n = p.int("num_freq")
        p.assume(n >= 1)
        k = len(order) - 2
        z.num_freq, z.num_channels = n, len(order)
        z.transfer_functions = SymBlock.fresh(p, "tf", n, (k, 2), "complex")
        z.sigma_e = SymBlock.fresh(p, "res", n, (k, k), "complex")
        z.sigma_s = SymBlock.fresh(p, "isp", n, (2, 2), "complex")
        return z, az, n

    def dirs(az, angle):
        a = deg2rad(az - angle)
        return cos(a), sin(a)

    ORDERS = {
        "standard": {"hx": 1, "hy": 2, "hz": 3, "ex": 4, "ey": 5},
        "swapped": {"hx": 2, "hy": 1, "hz": 5, "ex": 4, "ey": 3},
        "no tipper": {"hx": 1, "hy": 2, "ex": 3, "ey": 4},
    }

    def rp(name):
        return lambda m: {"order": name, "az": {c: m.get("az_" + c, 0.0) for c in ORDERS[name]}, "angle": m.get("angle", 0.0), "seed": 1}

    def mk_imp(name):
        order = ORDERS[name]

        def h(p):
            z, az, n = make(p, order)
            angle = p.real("angle")
            A = {c: dirs(az[c], angle) for c in ("hx", "hy", "ex", "ey")}
            det = A["hx"][0] * A["hy"][1] - A["hx"][1] * A["hy"][0]
            p.assume_nonzero(det)
            p.assume_nonzero(az["hx"] - az["hy"])
            p.assume_nonzero(az["ex"] - az["ey"])
            imp, err = z.calculate_impedance(angle=angle)
            i = SymNum(z3.Int("i"))
            p.assume(And(i >= 0, i < n))
            Z = imp.at(i.e)
            T = z.transfer_functions.at(i.e)
            H = {c: order[c] - 1 for c in ("hx", "hy")}
            E = {c: order[c] - 3 for c in ("ex", "ey")}
            p.check("one tensor per period", And(eq(imp.n, n), imp.cells.shape == (2, 2)))
            for part in ("re", "im"):
                for r in (0, 1):
                    for k in ("hx", "hy"):
                        lhs = sum(getattr(Z[r, j], part) * A[k][j] for j in (0, 1))
                        rhs = sum(A[m][r] * getattr(T[E[m], H[k]], part) for m in ("ex", "ey"))
                        lhs, rhs = SymNum(num_z3(lhs)), SymNum(num_z3(rhs))
                        p.check(f"unit field on {k}: component {r} ({part})", eq(lhs, rhs))

        return h

    def field(p, z, az, order, angle):
        """directions of the channels, positions in the arrays, values at any period"""
        i = z3.Int("i")
        p.inputs["i"] = SymNum(i)
        p.assume(And(SymNum(i) >= 0, SymNum(i) < z.num_freq))
        A = {c: dirs(az[c], angle) for c in az if c != "hz"}
        det = A["hx"][0] * A["hy"][1] - A["hx"][1] * A["hy"][0]
        p.assume_nonzero(det)
        return i, A, {c: order[c] - 1 if order[c] < 3 else order[c] - 3 for c in order}

    def sum_c(xs):
        r = None
        for x in xs:
            r = x if r is None else r + x
        return r

    def mk_ierr(name):
        order = ORDERS[name]

        def h(p):
            z, az, n = make(p, order)
            angle = p.real("angle")
            i, A, pos = field(p, z, az, order, angle)
            p.assume_nonzero(az["hx"] - az["hy"])
            p.assume_nonzero(az["ex"] - az["ey"])
            imp, err = z.calculate_impedance(angle=angle)
            E = z.sigma_e.at(i)
            got = err.at(i)
            for r in (0, 1):
                res = sum_c(E[pos[a], pos[b]] * (A[a][r] * A[b][r]) for a in ("ex", "ey") for b in ("ex", "ey"))
                for k in (0, 1):
                    M = spec_axis(z, A, pos, i, k)
                    want = sqrt((res * M).real)
                    p.check(f"error {r}{k} is the root of residual times inverse signal power along the axes", eq(got[r, k], want))

        return h

    def spec_axis(z, A, pos, i, k):
        # the field is north * n + east * e; channel a contributes its direction, so (n, e) = U^T (hx, hy)
        S = z.sigma_s.at(i)
        det = A["hx"][0] * A["hy"][1] - A["hx"][1] * A["hy"][0]
        # U^-1: column a, row k with U rows (hx, hy)
        inv = {(0, "hx"): A["hy"][1], (0, "hy"): A["hx"][1] * -1, (1, "hx"): A["hy"][0] * -1, (1, "hy"): A["hx"][0]}
        return sum_c(S[pos[a], pos[b]] * (inv[k, a] * inv[k, b] / (det * det)) for a in ("hx", "hy") for b in ("hx", "hy"))

    def mk_tip(name):
        order = ORDERS[name]

        def h(p):
            z, az, n = make(p, order)
            angle = p.real("angle")
            i, A, pos = field(p, z, az, order, angle)
            tip, err = z.calculate_tippers(angle=angle)
            p.check("one tipper per period", And(eq(tip.n, n), tip.cells.shape == (1, 2), err.cells.shape == (1, 2)))
            t, e, T, E = tip.at(i), err.at(i), z.transfer_functions.at(i), z.sigma_e.at(i)
            for part in ("re", "im"):
                for k in ("hx", "hy"):
                    lhs = sum(getattr(t[0, j], part) * A[k][j] for j in (0, 1))
                    p.check(f"unit field on {k} ({part})", eq(SymNum(num_z3(lhs)), getattr(T[pos["hz"], pos[k]], part)))
            for k in (0, 1):
                want = sqrt((E[pos["hz"], pos["hz"]] * spec_axis(z, A, pos, i, k)).real)
                p.check(f"error {k} is the root of residual times inverse signal power", eq(e[0, k], want))

        return h

    def h_absent(p):
        z, az, n = make(p, ORDERS["no tipper"])
        p.check("no tipper without a vertical channel", z.calculate_tippers() == (None, None))
        z.ex = None
        p.check("no impedance without electric channels", z.calculate_impedance() == (None, None))
        z, az, n = make(p, ORDERS["standard"])
        p.assume(az["hx"] == az["hy"])
        p.check("no impedance with parallel magnetic channels", z.calculate_impedance() == (None, None))

    for name in ORDERS:
        out.append(Contract(f"impedance rotation, {name} channels", ZF + "calculate_impedance", mk_imp(name), replay=("rotation", rp(name))))
        out.append(Contract(f"impedance errors, {name} channels", ZF + "calculate_impedance", mk_ierr(name), replay=("rotation", rp(name))))
        if "hz" in ORDERS[name]:
            out.append(Contract(f"tipper rotation, {name} channels", ZF + "calculate_tippers", mk_tip(name), replay=("rotation", rp(name))))
    out.append(Contract("missing or parallel channels", [ZF + "calculate_impedance", ZF + "calculate_tippers"], h_absent))

    # ----------------------------------------------- filling from the file
    def mk_fill(k):
        def h(p):
            z = ZMM()
            n = p.int("n")
            p.assume(n >= 1)
            z.num_freq, z.num_channels = n, k + 2
            z.transfer_functions = SymBlock.fresh(p, "tf", n, (k, 2), "complex")
            z.sigma_e = SymBlock.fresh(p, "res", n, (k, k), "complex")
            z.sigma_s = SymBlock.fresh(p, "isp", n, (2, 2), "complex")
            old = [x.copy() for x in (z.transfer_functions, z.sigma_s, z.sigma_e)]
            i, j = p.int("i"), p.int("j")
            p.assume(And(i >= 0, i < n, j >= 0, j < n, Not(i == j)))
            tf = [[p.complex(f"t{a}{b}") for b in (0, 1)] for a in range(k)]
            sig = [[p.complex("s00")], [p.complex("s10"), p.complex("s11")]]
            res = [[p.complex(f"r{a}{b}") for b in range(a + 1)] for a in range(k)]
            z._fill_tf_array_from_block(tf, i)
            z._fill_sig_array_from_block(sig, i)
            z._fill_res_array_from_block(res, i)
            T, S, E = z.transfer_functions.at(i.e), z.sigma_s.at(i.e), z.sigma_e.at(i.e)
            for a in range(k):
                for b in (0, 1):
                    p.check("responses are stored by predicted and predicting channel", eq(T[a, b], tf[a][b]))
                for b in range(k):
                    p.check("residual covariance is the Hermitian matrix with the given lower triangle", eq(E[a, b], res[a][b] if b <= a else res[b][a].conjugate()))
            for a in (0, 1):
                for b in (0, 1):
                    p.check("inverse signal power is the Hermitian matrix with the given lower triangle", eq(S[a, b], sig[a][b] if b <= a else sig[b][a].conjugate()))
            for now, was in zip((z.transfer_functions, z.sigma_s, z.sigma_e), old):
                p.check("other periods are unchanged", And([eq(x, y) for x, y in zip(now.at(j.e).flat, was.at(j.e).flat)]))

        return h

    for k in (1, 2, 3, 4):
        out.append(Contract(f"filling a period of {k} predicted channels",
                            [ZF + "_fill_tf_array_from_block", ZF + "_fill_sig_array_from_block", ZF + "_fill_res_array_from_block", ZF + "_flatten_list"], mk_fill(k),
                            replay=("file", lambda m: None)))
    # ------------------------------------------- storing in the data set
    def mk_store(name, rotate, dec):
        order = ORDERS[name]

        def h(p):
            p.inputs["order"], p.inputs["rotate"], p.inputs["dec"] = name, rotate, dec
            z, az, n = make(p, order)
            z.channel_nomenclature = z.channel_dict
            per = p.array("period", n=n)
            z.periods = per
            D = p.real("declination")
            put(z.station_metadata.location.declination, value=D)
            chans = ["ex", "ey", "hz", "hx", "hy"]
            made = []

            def fresh_ds(periods=None):
                made.append(periods)
                zero = lambda o, i: SymArray(n, lambda j: 0)
                return SymDS(periods, chans, chans, {v: Store(n, chans, chans, zero) for v in ("transfer_function", "transfer_function_error", "inverse_signal_power", "residual_covariance")})

            z._initialize_transfer_function = fresh_ds
            hz = "hz" in order
            zb, ze = SymBlock.fresh(p, "Z", n, (2, 2), "complex"), SymBlock.fresh(p, "Ze", n, (2, 2), "real")
            tb, te = SymBlock.fresh(p, "T", n, (1, 2), "complex"), SymBlock.fresh(p, "Te", n, (1, 2), "real")
            angles = []

            def imp(angle=0.0):
                angles.append(angle)
                return zb, ze

            def tip(angle=0.0):
                angles.append(angle)
                return tb, te

            z.calculate_impedance, z.calculate_tippers = imp, tip
            z._fill_dataset(rotate_to_measurement_coordinates=rotate, use_declination=dec)
            i = p.index(per)
            d = z.dataset.d
            val = lambda v, o, c: d[v].store.cell[o, c].at(i)
            p.check("the periods of the file", z.dataset.period_values is per)
            if rotate:
                for a in angles:
                    p.check("turned by minus the declination when asked, else by the channel azimuths only", eq(a, 0 - D) if dec else eq(a, 0))
                p.check("both blocks are turned", len(angles) == 2)
                for a, o in enumerate(("ex", "ey")):
                    for b, c in enumerate(("hx", "hy")):
                        p.check(f"turned impedance {o}/{c}", And(eq(val("transfer_function", o, c), zb.cells[a, b].at(i)), eq(val("transfer_function_error", o, c), ze.cells[a, b].at(i))))
                for b, c in enumerate(("hx", "hy")):
                    p.check(f"turned tipper {c}", And(eq(val("transfer_function", "hz", c), tb.cells[0, b].at(i)), eq(val("transfer_function_error", "hz", c), te.cells[0, b].at(i))))
            else:
                for o in order:
                    for c in ("hx", "hy"):
                        if o not in ("hx", "hy"):
                            p.check(f"printed response {o}/{c}", eq(val("transfer_function", o, c), z.transfer_functions.at(i)[order[o] - 3, order[c] - 1]))
            S, E = z.sigma_s.at(i), z.sigma_e.at(i)
            for a in order:
                for b in order:
                    if order[a] < 3 and order[b] < 3:
                        p.check(f"inverse signal power {a}/{b}", eq(val("inverse_signal_power", a, b), S[order[a] - 1, order[b] - 1]))
                    if order[a] > 2 and order[b] > 2:
                        p.check(f"residual covariance {a}/{b}", eq(val("residual_covariance", a, b), E[order[a] - 3, order[b] - 3]))

        return h

    for name in ("standard", "swapped", "no tipper"):
        for rotate, dec in ((True, False), (True, True), (False, False)):
            if rotate and name == "no tipper":
                continue
            out.append(Contract(f"storing the responses of {name} channels{' turned' if rotate else ''}{' by the declination' if dec else ''}", ZF + "_fill_dataset", mk_store(name, rotate, dec),
                                replay=("file", lambda m, name=name, rotate=rotate, dec=dec: {
                                    "order": name, "az": {c: (90.0 if c in ("hy", "ey") else 0.0) for c in ORDERS[name]}, "seed": 3, "periods": [0.5, 2.0], "rotate": rotate, "dec": dec,
                                    "head": {"ptype": "Robust Single station", "station": "300", "colon": True, "lat": 10.0, "lon": 20.0, "dec": round(float(m.get("declination", 5.0)), 2)}})))
    return out


ORDER_NAMES = {
    "standard": {"hx": 1, "hy": 2, "hz": 3, "ex": 4, "ey": 5},
    "swapped": {"hx": 2, "hy": 1, "hz": 5, "ex": 4, "ey": 3},
    "no tipper": {"hx": 1, "hy": 2, "ex": 3, "ey": 4},
    "tipper only": {"hx": 1, "hy": 2, "hz": 3},
}


def runtime(reg):
    import math
    import os
    import shutil
    import tempfile

    import numpy as np
    from loguru import logger
    from mt_metadata.transfer_functions.core import TF
    from mt_metadata.transfer_functions.io.zfiles.metadata import Channel
    from mt_metadata.transfer_functions.io.zfiles.zmm import ZMM
    from pyvc.rt import Skip, require

    logger.remove()

    def near(a, b, rel=2e-5, scale=None):
        a, b = np.asarray(a), np.asarray(b)
        m = np.max(np.abs(b)) if scale is None and b.size else (scale or 1.0)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rel * max(m, 1e-30)))

    def hermitian(g, n, k):
        a = g.normal(size=(n, k, k)) + 1j * g.normal(size=(n, k, k))
        return a @ np.conj(np.transpose(a, (0, 2, 1)))

    def data(seed, n, k):
        g = np.random.default_rng(seed)
        return (g.normal(size=(n, k, 2)) + 1j * g.normal(size=(n, k, 2))), hermitian(g, n, 2), hermitian(g, n, k)

    def geographic(order, az, angle, T, S, E):
        """responses and errors along north and east, from the channel directions"""
        d = {c: np.array([math.cos(math.radians(az[c] - angle)), math.sin(math.radians(az[c] - angle))]) for c in az}
        U = np.zeros((2, 2))
        for c in ("hx", "hy"):
            U[order[c] - 1] = d[c]
        if abs(np.linalg.det(U)) < 0.05:
            raise Skip("parallel magnetic channels")
        # field = U^T h, so h = inv(U^T) field; inverse power transforms with U^-1
        Hi = np.linalg.inv(U.T)
        Ui = np.linalg.inv(U)
        Sg = Ui @ S @ Ui.T
        res = {}
        if "ex" in order:
            V = np.zeros((2, len(order) - 2))
            for c in ("ex", "ey"):
                V[:, order[c] - 3] = d[c]
            res["z"] = V @ T @ Hi
            Eg = V @ E @ V.T
            res["z_err"] = np.sqrt(np.abs(np.real(np.einsum("nr,nk->nrk", np.diagonal(Eg, axis1=1, axis2=2), np.diagonal(Sg, axis1=1, axis2=2)))))
        if "hz" in order:
            q = order["hz"] - 3
            res["t"] = (T @ Hi)[:, q:q + 1, :]
            res["t_err"] = np.sqrt(np.abs(np.real(E[:, q, q][:, None] * np.diagonal(Sg, axis1=1, axis2=2))))[:, None, :]
        return res

    def azimuths(rng, order, ortho=False):
        h = rng.choice([0, 0, 13.1, -25.5, 90, 200, round(rng.uniform(-180, 180), 2)])
        e = rng.choice([h, h, round(rng.uniform(-180, 180), 2)])
        s = 0 if ortho else rng.choice([0, 0, round(rng.uniform(-30, 30), 2)])
        az = {"hx": h, "hy": h + 90 + s, "hz": 0.0, "ex": e, "ey": e + rng.choice([90, 90, -90, 75.5])}
        return {c: round(float(az[c]), 2) for c in order}

    def gen_rot(rng, tier):
        for _ in range(80 if tier == "quick" else 2000):
            order = rng.choice(list(ORDER_NAMES))
            yield {"order": order, "az": azimuths(rng, ORDER_NAMES[order]), "angle": rng.choice([0.0, 0.0, 12.5, -7.25, round(rng.uniform(-180, 180), 2)]), "seed": rng.randrange(10**6)}

    @reg.rt("rotation", gen_rot, ["ZMM.calculate_impedance", "ZMM.calculate_tippers"], "80 random geometries")
    def rotation(order, az, angle, seed):
        order = ORDER_NAMES[order]
        z = ZMM()
        for ch, num in order.items():
            setattr(z, ch, Channel(channel=ch, number=num, azimuth=az.get(ch, 0.0)))
        n, k = 3, len(order) - 2
        if "ex" in order and (az["ex"] == az["ey"] or az["hx"] == az["hy"]):
            raise Skip("parallel")
        T, S, E = data(seed, n, k)
        z.num_freq, z.num_channels = n, k + 2
        z.transfer_functions, z.sigma_s, z.sigma_e = T.copy(), S.copy(), E.copy()
        want = geographic(order, az, angle, T, S, E)
        if "ex" in order:
            imp, err = z.calculate_impedance(angle=angle)
            require(near(imp, want["z"], 1e-4), f"impedance {imp[0]} instead of {want['z'][0]}")
            require(near(err, want["z_err"], 1e-4), f"impedance errors {err[0]} instead of {want['z_err'][0]}")
        tip, terr = z.calculate_tippers(angle=angle)
        if "hz" in order:
            require(near(tip, want["t"], 1e-4), f"tipper {tip[0]} instead of {want['t'][0]}")
            require(near(terr, want["t_err"], 1e-4), f"tipper errors {terr[0]} instead of {want['t_err'][0]}")
        else:
            require(tip is None and terr is None, "a tipper without a vertical channel")
        require((z.transfer_functions == T).all() and (z.sigma_s == S).all() and (z.sigma_e == E).all(), "rotating changes the measured values")

    # ---------------------------------------------------------------- files
    def num(c):
        return f"{c.real:>12.4E}{c.imag:>12.4E}"

    def r4(a):
        f = np.vectorize(lambda c: complex(float(f"{c.real:.4E}"), float(f"{c.imag:.4E}")))
        return f(a)

    def text(order, az, head, periods, T, S, E):
        names = sorted(order, key=lambda c: order[c])
        ls = ["TRANSFER FUNCTIONS IN MEASUREMENT COORDINATES", "********** WITH FULL ERROR COVARINCE*********", head["ptype"],
              f"station    :{head['station']}" if head["colon"] else f"{head['station']}",
              f"coordinate {head['lat']:>9.3f} {head['lon']:>9.3f} declination {head['dec']:>8.2f}",
              f"number of channels {len(order):>3d}   number of frequencies {len(periods):>3d}", " orientations and tilts of each channel"]
        for c in names:
            ls.append(f"{order[c]:>5d} {az[c]:>8.2f} {0.0:>8.2f} {head['station']:>3}  {c.capitalize()}")
        ls.append("")
        for q, p in enumerate(periods):
            ls.append(f"period : {p:>12.5f}    decimation level {q % 4 + 1:>3d}    freq. band from {5 + q:>4d} to {9 + q:>4d}")
            ls.append(f"number of data point {1000 + q:>7d} sampling freq. {4.0 / (q + 1):>7.3f} Hz")
            ls.append(" Transfer Functions")
            ls += ["".join(num(x) for x in row) for row in T[q]]
            ls.append(" Inverse Coherent Signal Power Matrix")
            ls += ["".join(num(S[q, a, b]) for b in range(a + 1)) for a in range(2)]
            ls.append(" Residual Covaraince")
            ls += ["".join(num(E[q, a, b]) for b in range(a + 1)) for a in range(E.shape[1])]
        return "\n".join(ls) + "\n"

    def gen_file(rng, tier):
        for k in range(90 if tier == "quick" else 900):
            order = rng.choice(list(ORDER_NAMES)[:3] if k % 6 else list(ORDER_NAMES))
            n = rng.choice([1, 2, 3, 6, 11])
            ps = sorted(rng.sample([round(0.01 * 1.7**q, 5) for q in range(30)], n))
            yield {"order": order, "az": azimuths(rng, ORDER_NAMES[order]), "seed": rng.randrange(10**6), "periods": ps if rng.random() < 0.7 else ps[::-1],
                   "head": {"ptype": rng.choice(["Robust Single station", "Robust Remote Reference"]), "station": rng.choice(["300", "mt01", "abc_9"]), "colon": rng.random() < 0.7,
                            "lat": round(rng.uniform(-89, 89), 3), "lon": round(rng.uniform(-179, 359), 3), "dec": round(rng.choice([rng.uniform(-30, 30), rng.uniform(-180, 180)]), 2)},
                   "rotate": rng.random() < 0.75, "dec": rng.random() < 0.45}

    @reg.rt("reading a file", gen_file, ["ZMM.read", "ZMM.read_header", "ZMM._read_period_block", "ZMM._fill_dataset", "TF.from_zmm"], "90 random files, up to 11 periods")
    def file(order, az, seed, periods, head, rotate, dec):
        order = ORDER_NAMES[order]
        n, k = len(periods), len(order) - 2
        T, S, E = (r4(x) for x in data(seed, n, k))
        for a in range(2):
            S[:, a, a] = S[:, a, a].real
        for a in range(k):
            E[:, a, a] = E[:, a, a].real
        want = geographic(order, az, -head["dec"] if dec else 0.0, T, S, E)
        d = tempfile.mkdtemp(prefix="p20")
        try:
            fn = os.path.join(d, "x.zmm")
            with open(fn, "w") as f:
                f.write(text(order, az, head, periods, T, S, E))
            if "ex" not in order and rotate:
                raise Skip("a file without electric channels cannot be rotated")
            z = ZMM()
            z.read(fn, rotate_to_measurement_coordinates=rotate, use_declination=dec)
            check_zmm(z, order, az, head, periods, T, S, E, want if rotate else None)
            t = TF(fn)
            t.read(rotate_to_measurement_coordinates=rotate, use_declination=dec)
            check_tf(t, order, head, periods, T, S, E, want if rotate else None)
            # written again: what was stored is what is read, at the file's precision
            if not rotate:
                fn2 = os.path.join(d, "y.zmm")
                t.write(fn2)
                u = TF(fn2)
                u.read(rotate_to_measurement_coordinates=False)
                check_tf(u, order, dict(head, lon=t.longitude), periods, T, S, E, None)
                fn3 = os.path.join(d, "w.zmm")
                u.write(fn3)
                a, b = open(fn2).read(), open(fn3).read()
                require(a == b, f"writing what was read gives another file: {[(x, y) for x, y in zip(a.splitlines(), b.splitlines()) if x != y][:3]}")
        finally:
            shutil.rmtree(d)

    def gen_again(rng, tier):
        for k in range(10 if tier == "quick" else 100):
            turned = k % 5 == 0
            h = 13.1 if turned else 0.0
            yield {"order": rng.choice(["standard", "no tipper"]), "turn": h, "seed": rng.randrange(10**6), "periods": [0.25, 1.5, 40.0]}

    @reg.rt("writing what was read in geographic coordinates", gen_again, ["TF.to_zmm", "ZMM.write", "ZMM.write_header", "TF.from_zmm"], "10 files")
    def again(order, turn, seed, periods):
        order = ORDER_NAMES[order]
        az = {c: turn + (90.0 if c in ("hy", "ey") else 0.0) for c in order}
        T, S, E = (r4(x) for x in data(seed, len(periods), len(order) - 2))
        head = {"ptype": "x", "station": "s1", "colon": True, "lat": 10.0, "lon": 20.0, "dec": 0.0}
        d = tempfile.mkdtemp(prefix="p20")
        try:
            fn, fn2 = os.path.join(d, "x.zmm"), os.path.join(d, "y.zmm")
            with open(fn, "w") as f:
                f.write(text(order, az, head, periods, T, S, E))
            t = TF(fn)
            t.read()
            t.write(fn2)
            u = TF(fn2)
            u.read()
            a, b = t.dataset.transfer_function.data, u.dataset.transfer_function.data
            require(np.allclose(a, b, atol=2e-4 * np.abs(a).max()), "responses read again differ from those written: they are rotated a second time",
                    "zmm-rewrite-rotates" if turn else None)
        finally:
            shutil.rmtree(d)

    def sel(da, o, i):
        return da.loc[dict(output=[o], input=[i])].data.flatten()

    def check_zmm(z, order, az, head, periods, T, S, E, want):
        require(z.num_freq == len(periods) and z.num_channels == len(order), f"{z.num_freq} periods, {z.num_channels} channels")
        require(np.allclose(z.periods, periods, rtol=1e-9), f"periods {z.periods}")
        lon = head["lon"] - 360 if head["lon"] > 180 else head["lon"]
        require(abs(z.latitude - head["lat"]) < 1e-9 and abs(z.longitude - lon) < 1e-9, f"position {z.latitude}, {z.longitude}")
        require(abs(z.declination - head["dec"]) < 1e-9, f"declination {z.declination}")
        require(z.station == head["station"], f"station {z.station!r}")
        require(z.has_tipper == ("hz" in order) and z.has_impedance == ("ex" in order), "kinds of channels")
        names = sorted(order, key=lambda c: order[c])
        require(z.input_channels == names[:2] and z.output_channels == names[2:], f"channels {z.channels_recorded}")
        for c in order:
            require(getattr(z, c).azimuth == az[c] and getattr(z, c).number == order[c], f"channel {c}: {getattr(z, c)}")
        for q, p in enumerate(periods):
            got = z.decimation_dict[f"{p:.10g}"]
            require(got["level"] == q % 4 + 1 and tuple(got["bands"]) == (5 + q, 9 + q) and got["npts"] == 1000 + q, f"decimation of {p}: {got}")
        check_ds(z.dataset, order, periods, T, S, E, want)

    def check_ds(ds, order, periods, T, S, E, want, errors=True):
        require(np.allclose(ds.period.data, periods, rtol=1e-9), f"periods {ds.period.data}")
        names = sorted(order, key=lambda c: order[c])
        ins, outs = names[:2], names[2:]
        for a, o in enumerate(outs):
            for b, i in enumerate(ins):
                if want is None:
                    w = T[:, a, b]
                elif o == "hz":
                    w = want["t"][:, 0, ("hx", "hy").index(i)]
                else:
                    w = want["z"][:, ("ex", "ey").index(o), ("hx", "hy").index(i)]
                require(near(sel(ds.transfer_function, o, i), w, 1e-4, np.abs(T).max() * 2), f"response {o}/{i}: {sel(ds.transfer_function, o, i)} instead of {w}")
                if want is not None and errors:
                    w = want["t_err"][:, 0, ("hx", "hy").index(i)] if o == "hz" else want["z_err"][:, ("ex", "ey").index(o), ("hx", "hy").index(i)]
                    require(near(sel(ds.transfer_function_error, o, i), w, 1e-4, None), f"error {o}/{i}: {sel(ds.transfer_function_error, o, i)} instead of {w}")
            for b, i in enumerate(outs):
                require(near(sel(ds.residual_covariance, o, i), E[:, a, b]), f"residual covariance {o}/{i}: {sel(ds.residual_covariance, o, i)} instead of {E[:, a, b]}")
        for a, o in enumerate(ins):
            for b, i in enumerate(ins):
                require(near(sel(ds.inverse_signal_power, o, i), S[:, a, b]), f"inverse signal power {o}/{i}: {sel(ds.inverse_signal_power, o, i)} instead of {S[:, a, b]}")

    def check_tf(t, order, head, periods, T, S, E, want):
        lon = head["lon"] - 360 if head["lon"] > 180 else head["lon"]
        require(abs(t.latitude - head["lat"]) < 1e-3 and abs(t.longitude - lon) < 1e-3 and t.station == head["station"], f"station {t.station!r} at {t.latitude}, {t.longitude}")
        check_ds(t.dataset, order, periods, T, S, E, want, errors=False)
        names = sorted(order, key=lambda c: order[c])
        for a, o in enumerate(names[2:]):
            for b, i in enumerate(names[:2]):
                w = np.sqrt(np.abs(E[:, a, a] * S[:, b, b]))
                require(near(sel(t.dataset.transfer_function_error, o, i), w, 1e-4), f"error {o}/{i}: {sel(t.dataset.transfer_function_error, o, i)} instead of {w}")
