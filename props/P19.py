"""EDI files: reading printed values, apparent resistivity and cross spectra, writing."""

import re

ASSUMPTIONS = [
    "numpy: matmul is the matrix product, inv of a 2x2 matrix is its inverse; rounding is not modelled",
    "float() of a printed token is the number it spells or a ValueError; a number printed with a format reads back as that number rounded to its digits (runtime contracts)",
    "cos and sin are uninterpreted real functions of the angle with cos^2+sin^2 = 1",
]
EF = "mt_metadata/transfer_functions/io/edi/edi.py:EDI."
Z = [("zxx", 0, 0), ("zxy", 0, 1), ("zyx", 1, 0), ("zyy", 1, 1)]
T = [("tx", 0), ("ty", 1)]


def contracts():
    from mt_metadata.transfer_functions.io.edi.edi import EDI
    from pyvc.api import And, Contract, Implies, Not, Or, SymArray, SymBool, SymComplex, SymNum, SymStr, cos, eq, ite, num_z3, put, raises, sin, sqrt, z3
    from pyvc import core
    import numpy as np
    from pyvc.blockmodel import Store, SymBlock, SymDS
    from mt_metadata.transfer_functions.core import TF
    from pyvc.core import SymSeq
    from pyvc.helpers import Inv, SymOpaque, VList, unl
    from pyvc.npmodel import deg2rad, uf

    out = []
    I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()

    class Token(SymOpaque):
        pytype = str

        def __init__(self, ok, num):
            self.ok, self.num = ok, num

        def __float_sym__(self):
            if core.ctx().branch(self.ok):
                return SymNum(self.num)
            raise ValueError("could not convert string to float")

    class Tokens(VList):
        pass

    class DataLine(SymOpaque):
        """a line of n printed tokens"""

        pytype = str

        def __init__(self, p, name, n):
            self.n = n
            self.ok, self.num = uf(name + ".ok", I, B), uf(name + ".num", I, R)

        def strip(self, *a):
            return self

        def contains(self, x):
            return SymBool(z3.BoolVal(False))

        def find(self, x):
            return -1

        def lower(self):
            return self

        def startswith(self, x):
            return False

        def split(self, *a):
            r = VList()
            r.sym = SymSeq(self.n, lambda i: Token(self.ok(i), self.num(i)), "tokens")
            r.line = self
            return r

        def value(self, i, empty):
            """the stored value: 0 for anything that is not a number or is the empty value"""
            return SymNum(z3.If(z3.And(self.ok(i), self.num(i) != num_z3(empty)), self.num(i), z3.RealVal(0)))

    def token_loops(p, empty):
        def spec(loop, loc, names):
            lst = [v for v in loc.values() if type(v) is VList and getattr(v, "line", None) is not None and v.sym is not None and v.sym.n.e.eq(loop.seq.n.e)]
            if not lst:
                return None
            lst = lst[-1]
            line = lst.line

            def havoc(i, env):
                done = z3.simplify(i == line.n.e)
                if z3.is_true(done):
                    lst.sym = SymSeq(line.n, lambda j: line.value(j, empty), "values")
                    lst.sym.numeric = True
                else:
                    lst.sym = SymSeq(line.n, lambda j: line.value(j, empty) if core.ctx().branch(j < i) else Token(line.ok(j), line.num(j)), "tokens")
                return {}

            def inv(i, env):
                if not inv.proving:
                    inv.proving = True
                    return SymBool(z3.BoolVal(True))
                j = z3.Int(p.fresh("tok"))
                p.assume(And(SymNum(j) >= 0, SymNum(j) < line.n))
                if not p.branch(j < i):
                    return SymBool(z3.BoolVal(isinstance(lst.sym.at(j), Token)))
                v = lst.sym.at(j)
                return eq(v, line.value(j, empty)) if isinstance(v, SymNum) or isinstance(v, float) else SymBool(z3.BoolVal(False))

            inv.proving = False
            iv = Inv("tokens become numbers, anything else 0", [], havoc, inv)
            iv.may_modify = lambda x: x is lst
            return iv

        return spec

    def edi():
        return EDI()

    # --------------------------------------------------- order of frequency
    def h_order(p):
        e = edi()
        f = p.array("frequency")
        n = f.n
        p.assume(n >= 1)
        e.frequency = f
        have = {k: bool(p.choose(2, k)) for k in ("z", "t")}
        old = {}
        for k, tail, kind in (("z", (2, 2), "complex"), ("z_err", (2, 2), "real"), ("t", (1, 2), "complex"), ("t_err", (1, 2), "real")):
            b = SymBlock.fresh(p, k, n, tail, kind) if have[k[0]] else None
            old[k] = None if b is None else b.copy()
            setattr(e, k, b)
        rot = p.array("rot", n=n)
        f0, r0 = f.copy(), rot.copy()
        e.rotation_angle = rot
        e._assert_descending_frequency()
        i = p.index(f)
        asc = And(n > 1, f0.at(0) < f0.at(1))
        k = z3.If(core.as_z3bool(asc), n.e - 1 - i, i)
        p.check("frequencies run from high to low", And(eq(e.frequency.n, n), eq(e.frequency.at(i), f0.f(k))))
        p.check("rotation angles follow their frequency", eq(e.rotation_angle.at(i), r0.f(k)))
        for q, b in old.items():
            now = getattr(e, q)
            if b is None:
                p.check("absent values stay absent", now is None)
                continue
            p.check("values follow their frequency", And([eq(x, y) for x, y in zip(now.at(i).flat, b.at(k).flat)]))

    out.append(Contract("frequency order", EF + "_assert_descending_frequency", h_order, replay=("reading a file", lambda m: None)))

    # ----------------------------------------------- impedance and tipper
    def section(p, key, n, parts, M):
        """header line and data lines of one block; the value at any index"""
        lines = [f">{key.upper()} // 7\n"]
        ns, ds = [], []
        for q in range(parts):
            m = n if parts == 1 else (M, n - M)[q]
            d = DataLine(p, f"{key}{q}", m)
            ds.append(d)
            lines.append(d)

        def value(i, empty):
            if parts == 1:
                return ds[0].value(i, empty)
            m = M.e
            a, b = ds[0].value(i, empty), ds[1].value(i - m, empty)
            return SymNum(z3.If(i < m, a.e, b.e))

        return lines, value

    def setup(p, keys, parts):
        e = edi()
        n, M = p.int("n"), p.int("first_line")
        p.assume(And(n >= 2, M >= 1, M < n))
        empty = 1.0e32
        p.loop_specs["*"] = token_loops(p, empty)
        lines, val = [">!****FREQUENCIES****!\n", "\n"], {}
        for k in keys:
            a, v = section(p, k, n, parts, M)
            lines += a
            val[k] = lambda i, v=v: v(i, empty)
        return e, n, lines + [">END\n"], val

    def at(p, e, n, val):
        """an index into the read arrays and the position in the file it comes from"""
        i = z3.Int("i")
        p.inputs["i"] = SymNum(i)
        p.assume(And(SymNum(i) >= 0, SymNum(i) < n))
        asc = (val["freq"](z3.IntVal(0)) < val["freq"](z3.IntVal(1))).e
        rev = p.branch(asc)
        return i, (n.e - 1 - i if rev else i)

    def mk_mt(tip, var, rot, parts, only=None):
        def h(p):
            keys = ["freq"] + (["zrot"] if rot else [])
            for k, a, b in Z:
                if only in (None, k):
                    keys += [k + "r", k + "i"] + ([k + ".var"] if var else [])
            if tip:
                for k, b in T:
                    keys += [k + "r.exp", k + "i.exp"] + ([k + "var.exp"] if var else [])
            e, n, lines, val = setup(p, keys, parts)
            e._read_mt(lines)
            i, k = at(p, e, n, val)
            p.check("frequencies are the printed ones", And(eq(e.frequency.n, n), eq(e.frequency.at(i), val["freq"](k))))
            p.check("one tensor per frequency", And(eq(e.z.n, n), eq(e.t.n, n), eq(e.z_err.n, n), eq(e.t_err.n, n)))
            zz, ze, t, te = e.z.at(i), e.z_err.at(i), e.t.at(i), e.t_err.at(i)
            for key, a, b in Z:
                if only not in (None, key):
                    p.check("components that are not printed are 0", And(eq(zz[a, b], 0), eq(ze[a, b], 0)))
                    continue
                p.check(f"{key} is the printed value", eq(zz[a, b], SymComplex(val[key + "r"](k), val[key + "i"](k))))
                want = sqrt(abs(val[key + ".var"](k))) if var else 0
                p.check(f"{key} error is the root of the printed variance", eq(ze[a, b], want))
            for key, b in T:
                want = SymComplex(val[key + "r.exp"](k), val[key + "i.exp"](k)) if tip else 0
                p.check(f"{key} is the printed value", eq(t[0, b], want))
                want = sqrt(abs(val[key + "var.exp"](k))) if tip and var else 0
                p.check(f"{key} error is the root of the printed variance", eq(te[0, b], want))
            p.check("rotation angles", eq(e.rotation_angle.at(i), val["zrot"](k) if rot else 0))

        return h

    rp = lambda what: ("reading a file", lambda m: {"what": what})
    out.append(Contract("impedance and tipper blocks", EF + "_read_mt", mk_mt(True, True, True, 1), replay=rp("z")))
    for k in ("zxy", "zyx"):
        out.append(Contract(f"{k} over two lines, nothing else", EF + "_read_mt", mk_mt(False, True, False, 2, k), replay=rp("z")))
    out.append(Contract("blocks without variances", EF + "_read_mt", mk_mt(True, False, True, 1), replay=rp("z")))

    # --------------------------------------- apparent resistivity and phase
    def mk_rho(key, a, b, err):
        def h(p):
            r, f = "rho" + key, "phs" + key
            e, n, lines, val = setup(p, ["freq", r, f] + ([f + ".err"] if err else []), 1)
            e._read_mt(lines)
            i, k = at(p, e, n, val)
            fr, rho, ph = val["freq"](k), val[r](k), deg2rad(val[f](k))
            mag = sqrt(fr * rho * 5)
            zz, ze = e.z.at(i), e.z_err.at(i)
            got = zz[a, b]
            want = SymComplex(mag * cos(ph), mag * sin(ph))
            if (a, b) == (1, 0):
                # a phase given in the first quadrant denotes the opposite one
                same, opp = eq(got, want), eq(got, SymComplex(mag * cos(ph) * -1, mag * sin(ph) * -1))
                zero = eq(cos(ph), 0)
                p.check("impedance has the magnitude and the phase, or the opposite one", Or(same, opp, zero))
                av = SymArray(n, lambda j: val[f](j)).mean()
                p.check("only a mean phase in the first quadrant is turned", Implies(Not(And(av > 0, av < 90)), same))
            else:
                p.check("impedance has the magnitude and the phase", eq(got, want))
            if err:
                p.check("error is the magnitude times the phase error", eq(ze[a, b], deg2rad(val[f + ".err"](k)) * mag))
            for _, c, d in Z:
                if (c, d) != (a, b):
                    p.check("other components are 0", And(eq(zz[c, d], 0), eq(ze[c, d], 0)))

        return h

    for key, a, b in Z:
        out.append(Contract(f"impedance from resistivity and phase of {key[1:]}", EF + "_read_mt", mk_rho(key[1:], a, b, key != "zxx"), replay=rp("rho")))

    # --------------------------------------------------------- cross spectra
    CH = {
        "7 channels": ["hx", "hy", "hz", "ex", "ey", "rhx", "rhy"],
        "7 channels in another order": ["ey", "hz", "rhx", "hy", "ex", "rhy", "hx"],
        "6 channels without hz": ["hx", "hy", "ex", "ey", "rhx", "rhy"],
        "5 channels without a reference": ["hx", "hy", "hz", "ex", "ey"],
        "4 channels": ["hx", "hy", "ex", "ey"],
        "3 channels without electrics": ["hx", "hy", "hz"],
        "5 channels without electrics": ["hx", "hy", "hz", "rhx", "rhy"],
    }

    class Num(SymOpaque):
        pytype = str

        def __init__(self, v):
            self.v = v

        def __float_sym__(self):
            return self.v

    class Row(SymOpaque):
        pytype = str

        def __init__(self, vs):
            self.vs = vs

        def strip(self, *a):
            return self

        def lower(self):
            return self

        def contains(self, x):
            return SymBool(z3.BoolVal(False))

        def find(self, x):
            return -1

        def startswith(self, x):
            return False

        def split(self, *a):
            return [Num(v) for v in self.vs]

    def mk_spec(k):
        names = CH[k]
        k = len(names)

        def h(p):
            p.loop_specs["objarrays"] = True
            p.use_ring()
            e = edi()
            S = [[p.real(f"s{a}{b}") for b in range(k)] for a in range(k)]
            for a in range(k):
                for b in range(k):
                    p.assume_nonzero(S[a][b])
                    p.assume_nonzero(S[a][b] - SymNum(z3.RealVal("1e32")))
            avgt = 4
            lines = [">SPECTRA FREQ=8.0 ROTSPEC=0 BW=2.0 AVGT=4.0 // 49\n"] + [Row(r) for r in S] + [">END\n"]

            def pw(a, b):
                """cross power of two channels: real part below, imaginary part above the diagonal"""
                a, b = names.index(a), names.index(b)
                if a == b:
                    return SymComplex(S[a][a], SymNum(z3.RealVal(0)))
                lo, hi = max(a, b), min(a, b)
                return SymComplex(S[lo][hi], S[hi][lo] * (-1 if a < b else 1))

            ins = ("hx", "hy")
            R = {c: ("r" + c if "rhx" in names else c) for c in ins}
            X = [[p.complex(f"x{a}{b}") for b in range(2)] for a in range(2)]
            if "rhx" not in names:  # the inverse of a hermitian matrix is hermitian
                X[1][0] = X[0][1].conjugate()
                for a in range(2):
                    X[a][a] = SymComplex(X[a][a].re, SymNum(z3.RealVal(0)))

            def inverse(a):
                """X is the inverse of the matrix of <reference, input>, its adjoint that of the adjoint"""
                want = [[pw(R[r], c) for c in ins] for r in ins]
                same = a.shape == (2, 2) and all(p.branch(core.as_z3bool(eq(a[i, j], want[i][j]))) for i in range(2) for j in range(2))
                adj = not same and a.shape == (2, 2) and all(p.branch(core.as_z3bool(eq(a[i, j], want[j][i].conjugate()))) for i in range(2) for j in range(2))
                p.check("the inverted matrix is the cross power of reference and input channels", SymBool(z3.BoolVal(bool(same or adj))))
                p.trusted("np.linalg.inv of a 2x2 matrix is its inverse; the inverse of the adjoint is the adjoint of the inverse")
                o = np.empty((2, 2), dtype=object)
                for i in range(2):
                    for j in range(2):
                        o[i, j] = X[i][j] if same else X[j][i].conjugate()
                return o

            p.loop_specs["inv"] = inverse
            p.loop_specs["det"] = lambda a: SymComplex(p.real("det"), SymNum(z3.RealVal(0)))
            # the errors that are not zero
            p.loop_specs["nan_to_num"] = lambda a: [p.assume_nonzero(v) for v in np.asarray(a, dtype=object).ravel() if isinstance(v, SymNum) and not z3.is_rational_value(z3.simplify(v.e))]
            e._read_spectra(lines, comp_list=list(names))
            p.check("one frequency", And(eq(e.frequency[0], 8.0), len(e.frequency) == 1))
            outs = (["ex", "ey"] if "ex" in names else []) + (["hz"] if "hz" in names else [])

            def two(name, got, want, parts=("re", "im")):
                got, want = SymComplex.lift(got), SymComplex.lift(want)
                for part in parts:
                    p.check(f"{name} ({part})", eq(getattr(got, part), getattr(want, part)))

            zero = SymComplex(SymNum(z3.RealVal(0)), SymNum(z3.RealVal(0)))
            add = lambda xs: sum(xs[1:], xs[0])
            spec = {}
            for q, o in enumerate(outs):
                row = e.t[0, 0] if o == "hz" else e.z[0, q]
                for j in range(2):
                    # least squares: conj(tf) = X <R, o>
                    spec[o, j] = add([X[j][r] * pw(R[c], o) for r, c in enumerate(ins)]).conjugate()
                    two(f"{o} is the least squares response to {ins[j]}", row[j], spec[o, j])
                    two(f"{o} response to {ins[j]} as transfer function", e.tf[0, q, j], spec[o, j])
            sig = [[add([X[a][r] * pw(R[ins[r]], R[ins[s]]) * X[b][s].conjugate() for r in range(2) for s in range(2)]) for b in range(2)] for a in range(2)]
            for a in range(2):
                for b in range(2):
                    two(f"inverse signal power {a}{b}", e.signal_inverse_power[0, a, b], sig[a][b])
            for q, o in enumerate(outs):
                for w, o2 in enumerate(outs):
                    r = pw(o, o2)
                    r = r - add([spec[o, c] * pw(ins[c], o2) for c in range(2)])
                    r = r - add([pw(ins[c], o).conjugate() * spec[o2, c].conjugate() for c in range(2)])
                    r = r + add([spec[o, c] * pw(ins[c], ins[d]) * spec[o2, d].conjugate() for c in range(2) for d in range(2)])
                    r = r / avgt
                    two(f"residual covariance of {o} and {o2}", e.residual_covariance[0, q, w], r)
                    if o == o2:
                        err = e.t_err[0, 0] if o == "hz" else e.z_err[0, q]
                        for j in range(2):
                            # the square of the error is the modulus of residual times signal
                            v = e.residual_covariance[0, q, q] * e.signal_inverse_power[0, j, j]
                            p.check(f"error of the response of {o} to {ins[j]}", eq(err[j], sqrt(abs(v))))

        return h

    for k in CH:
        out.append(Contract(f"responses from cross spectra of {k}", EF + "_read_spectra", mk_spec(k), replay=("reading spectra", lambda m: None)))
    
    # ---------------------------------------------------- writing a block
    def mk_block(key, zero_is_empty):
        def h(p):
            e = edi()
            a = p.array("block")
            n = a.n
            p.assume(n >= 1)
            made = []

            def name_of(head):
                """the block a header line names"""
                t = head if isinstance(head, str) else (head.pieces or ("",))[0] if isinstance(head, SymStr) else ""
                return t.split()[0][1:] if isinstance(t, str) and t.startswith(">") and " " in t else None

            def value_of(item):
                """(number, line breaks after it) of one written item"""
                ps = item.pieces if isinstance(item, SymStr) else [item]
                if not ps or not all(isinstance(x, (str, tuple)) for x in ps):
                    return None
                nums = [x for x in ps if isinstance(x, tuple)]
                text = [x for x in ps if isinstance(x, str)]
                if len(nums) == 1:
                    k = ps.index(nums[0])
                    m = re.fullmatch(r"( ?)[<>=^+ ]?(\d*)\.(\d+)[eE]", nums[0][1])
                    if not m:
                        return None
                    if int(m.group(3)) < 6 or not (m.group(1) or int(m.group(2) or 0) > int(m.group(3)) + 8 or (k and ps[0][-1:] in (" ", "\n"))):
                        return False
                    if any(x.strip() for x in text):
                        return None
                    return num_z3(nums[0][2]), "".join(x for x in ps[k + 1:] if isinstance(x, str))
                if not nums:
                    return z3.RealVal(repr(float("".join(text)))), "".join(text)[len("".join(text).rstrip()):]
                return None

            def spec(loop, loc, names):
                lst = [v for v in loc.values() if type(v) is VList and v.sym is None and len(v) == 1 and name_of(v[0])]
                if len(lst) != 1:
                    return None
                lst = lst[0]
                head = lst[0]
                state = {}

                def havoc(i, env):
                    lst.clear()
                    lst.sym = state["at"] = SymSeq(SymNum(z3.simplify(i + 1)), lambda j: SymOpaque(), "lines")
                    return {}

                def inv(i, env):
                    if "at" not in state or "assumed" not in state:
                        if "at" in state:
                            state["assumed"] = True
                        return SymBool(z3.BoolVal(True))
                    new = lst.sym
                    if getattr(new, "prefix", None) is not state["at"]:
                        raise core.Unsupported("not one item per value")
                    got = value_of(new.last)
                    if got is None:
                        raise core.Unsupported("an item that is not one number")
                    if got is False:
                        return SymBool(z3.BoolVal(False))
                    at = z3.simplify(i - 1)
                    x = num_z3(a.at(at))
                    want = z3.If(x == 0, z3.RealVal("1e32"), x) if zero_is_empty else x
                    ok = [got[0] == want]
                    # a line ends at least after the last value
                    if not got[1].count("\n"):
                        ok.append(z3.Not(i == n.e))
                    return SymBool(z3.And(ok))

                iv = Inv("each value, or the empty value for a zero, in at least seven digits, the last one ends the line", [], havoc, inv)
                iv.may_modify = lambda x: x is lst
                made.append((lst, head, state))
                return iv

            p.loop_specs["*"] = spec
            lines = e._write_data_block(a, key)
            if len(made) != 1 or lines is not made[0][0]:
                raise core.Unsupported("the block is not the list filled by the loop")
            lst, head, state = made[0]
            p.check("a header and one item per value", SymBool(lst.sym.n.e == n.e + 1))
            p.check("the header names the block", SymBool(z3.BoolVal(name_of(head) == key.upper())))

        return h

    for key, empty in (("freq", True), ("zrot", False), ("trot", False), ("zxxr", True), ("zyx.var", True), ("txr.exp", True), ("tyvar.exp", True)):
        out.append(Contract(f"writing a block of {key}", EF + "_write_data_block", mk_block(key, empty), replay=("write and read", lambda m: None)))
    
    # -------------------------------------------- between TF and EDI objects
    def symtf(p, n):
        t = TF()
        per = SymArray(n, p.array("period").f)
        chans = ["ex", "ey", "hz", "hx", "hy"]
        stores = {}
        for v, kind in (("transfer_function", "complex"), ("transfer_function_error", "real"), ("transfer_function_model_error", "real"),
                        ("inverse_signal_power", "complex"), ("residual_covariance", "complex")):
            b = SymBlock.fresh(p, v, n, (5, 5), kind)
            stores[v] = Store(n, chans, chans, lambda o, i, b=b: b.cells[chans.index(o), chans.index(i)])
        t._transfer_function = SymDS(per, chans, chans, stores)
        return t, per

    OUT = {("z", 0): "ex", ("z", 1): "ey", ("t", 0): "hz"}

    def h_to(p):
        n = p.int("n")
        p.assume(n >= 2)
        t, per = symtf(p, n)
        angle = p.array("angle")
        one = p.choose(2, "one angle")
        if one:
            t._rotation_angle = 30.0
        else:
            p.assume(angle.n == n)
            t._rotation_angle = angle
        t.has_impedance = lambda: True
        t.has_tipper = lambda: True
        # the number of data is printed and parsed back: see the runtime contracts
        kinds = {type(EDI().Data): "read_data", type(EDI().Measurement): "read_measurement"}
        real = {k: k.__dict__[v] for k, v in kinds.items()}
        try:
            for k, v in kinds.items():
                setattr(k, v, lambda self, *a, **k: None)
            e = t.to_edi()
        finally:
            for k, v in kinds.items():
                setattr(k, v, real[k])
        i = p.index(per)
        d = t._transfer_function.d
        for (k, q), o in OUT.items():
            for j, c in enumerate(("hx", "hy")):
                p.check(f"response of {o} to {c}", eq(getattr(e, k).at(i)[q, j], d["transfer_function"].store.cell[o, c].at(i)))
                p.check(f"error of the response of {o} to {c}", eq(getattr(e, k + "_err").at(i)[q, j], d["transfer_function_error"].store.cell[o, c].at(i)))
        p.assume_nonzero(per.at(i)) if getattr(p, "ring", None) else p.assume(per.at(i) > 0)
        p.check("frequency is one over the period", And(eq(e.frequency.n, n), eq(e.frequency.at(i) * per.at(i), 1)))
        r = e.rotation_angle
        p.check("one rotation angle per period", And(eq(r.n if isinstance(r, SymArray) else len(r), n), eq(r.at(i), 30.0 if one else angle.at(i))))

    def h_from(p):
        n = p.int("n")
        p.assume(n >= 2)
        e = edi()
        e.frequency = SymArray(n, p.array("frequency").f)
        for k, tail, kind in (("z", (2, 2), "complex"), ("z_err", (2, 2), "real"), ("t", (1, 2), "complex"), ("t_err", (1, 2), "real")):
            setattr(e, k, SymBlock.fresh(p, k, n, tail, kind))
        angle = SymArray(n, p.array("angle").f)
        e.rotation_angle = angle
        t, per = symtf(p, n)
        i = p.index(e.frequency)
        p.assume(e.frequency.at(i) > 0)
        p.ufapps.setdefault("indices", []).append(i)
        t.from_edi(e)
        d = t._transfer_function.d
        for (k, q), o in OUT.items():
            for j, c in enumerate(("hx", "hy")):
                p.check(f"response of {o} to {c}", eq(d["transfer_function"].store.cell[o, c].at(i), getattr(e, k).at(i)[q, j]))
                p.check(f"error of the response of {o} to {c}", eq(d["transfer_function_error"].store.cell[o, c].at(i), getattr(e, k + "_err").at(i)[q, j]))
        p.check("period is one over the frequency", And(eq(t.period.n, n), eq(e.frequency.at(i) * t.period.at(i), 1)))
        p.check("rotation angles", eq(t._rotation_angle.at(i), angle.at(i)))

    TFF = "mt_metadata/transfer_functions/core.py:TF."
    out.append(Contract("a transfer function as EDI object", TFF + "to_edi", h_to, replay=("write and read", lambda m: None)))
    out.append(Contract("a transfer function from an EDI object", TFF + "from_edi", h_from, replay=("write and read", lambda m: None)))
    return out


def runtime(reg):
    import functools
    import os
    import shutil
    import tempfile

    import numpy as np
    from loguru import logger
    from mt_metadata.timeseries import Electric, Magnetic, Run
    from mt_metadata.transfer_functions.core import TF
    from mt_metadata.transfer_functions.io.edi.edi import EDI
    from pyvc.rt import require

    logger.remove()
    # building a coordinate reference system is slow and without effect
    from pyproj import CRS

    if not hasattr(CRS.from_user_input, "cache_info"):
        CRS.from_user_input = functools.lru_cache(maxsize=None)(CRS.from_user_input)
    EMPTY = 1e32

    class scratch:
        def __enter__(self):
            self.d = tempfile.mkdtemp(prefix="p19")
            return self.d

        def __exit__(self, *a):
            shutil.rmtree(self.d)

    def near(a, b, rel=3e-6):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rel * np.abs(b) + 1e-300))

    def block(name, values, per_line, tail="", junk=()):
        ls = [f">{name} {tail} // {len(values)}".replace("  ", " ")]
        toks = [junk[k] if k < len(junk) and junk[k] else f"{v: .9e}" for k, v in enumerate(values)]
        ls += [" ".join(toks[k:k + per_line]) for k in range(0, len(toks), per_line)]
        return ls

    def head(m):
        h = m["head"]
        ls = [">HEAD", f"    DATAID=\"{h['station']}\"" if h["quoted"] else f"    DATAID={h['station']}", f"    ACQBY={h['by']}", "    ACQDATE=2012-10-02", f"    LAT={h['lat_s']}",
              f"    {h['lonkey']}={h['lon_s']}", f"    ELEV={h['elev']}", "    STDVERS=SEG 1.0", f"    EMPTY={EMPTY:.1e}", "", ">INFO  MAXLINES=1000", "  some text", "", ">=DEFINEMEAS",
              "    MAXCHAN=7", "    MAXRUN=999", "    MAXMEAS=9999", "    UNITS=M", f"    REFLAT={h['lat_s']}", f"    REFLON={h['lon_s']}", f"    REFELEV={h['elev']}", ""]
        for k, c in enumerate(m["chans"]):
            kind = c.upper().replace("R", "RR") if c.startswith("r") else c.upper()
            if c[-2] == "h":
                ls.append(f">HMEAS ID={101 + k}.001 CHTYPE={kind} X=0.0 Y=0.0 Z=0.0 AZM={h['azm'] + (90.0 if c[-1] == 'y' else 0.0)}")
            else:
                ls.append(f">EMEAS ID={101 + k}.001 CHTYPE={kind} X=0.0 Y=0.0 Z=0.0 X2={100.0 if c == 'ex' else 0.0} Y2={80.0 if c == 'ey' else 0.0}")
        return ls + [""]

    def position(deg, style):
        if style == "dd":
            return f"{deg:.6f}"
        a = abs(deg)
        d, r = int(a), (a - int(a)) * 60
        return f"{'-' if deg < 0 else ''}{d:02d}:{int(r):02d}:{(r - int(r)) * 60:05.2f}"

    def mk_head(rng):
        lat, lon, style = round(rng.uniform(-80, 80), 4), round(rng.uniform(-170, 170), 4), rng.choice(["dd", "dms"])
        return {"station": rng.choice(["mt01", "s7", "abc_12"]), "quoted": rng.random() < 0.3, "by": rng.choice(["me", "some one"]), "lat": lat, "lon": lon, "lat_s": position(lat, style),
                "lon_s": position(lon, style), "lonkey": rng.choice(["LON", "LONG"]), "elev": round(rng.uniform(-50, 3000), 1), "azm": round(rng.choice([0.0, 13.0]), 1)}

    def check_head(e, m):
        h = m["head"]
        require(e.station_metadata.id == h["station"], f"station {e.station_metadata.id!r}")
        loc = e.station_metadata.location
        require(abs(loc.latitude - h["lat"]) < 1e-5 and abs(loc.longitude - h["lon"]) < 1e-5, f"position {loc.latitude}, {loc.longitude} instead of {h['lat']}, {h['lon']}")
        require(abs(loc.elevation - h["elev"]) < 1e-6, f"elevation {loc.elevation}")
        require(e.station_metadata.acquired_by.author == h["by"], f"acquired by {e.station_metadata.acquired_by.author!r}")

    def freqs(rng, n, up):
        f = sorted((round(10 ** rng.uniform(-4, 3), 7) for _ in range(n)), reverse=not up)
        return f

    ZK = ["zxx", "zxy", "zyx", "zyy"]

    # ------------------------------------------------------------- reading
    def gen_read(rng, tier):
        for k in range(56 if tier == "quick" else 1500):
            n = rng.choice([1, 2, 3, 6, 7, 13])
            yield {"head": mk_head(rng), "chans": ["hx", "hy", "hz", "ex", "ey"], "freq": freqs(rng, n, rng.random() < 0.5), "seed": rng.randrange(10**6),
                   "kind": rng.choice(["z", "z", "z", "rho"]), "tip": rng.random() < 0.6, "var": rng.random() < 0.8, "zrot": rng.choice(["none", "zero", "each"]),
                   "junk": rng.random() < 0.4, "per_line": rng.choice([1, 3, 5, 6]), "case": rng.random() < 0.8}

    @reg.rt("reading a file", gen_read, ["EDI.read", "EDI._read_data", "EDI._read_mt", "EDI._assert_descending_frequency", "TF.from_edi"], "56 generated files, up to 13 frequencies")
    def reading(m):
        g = np.random.default_rng(m["seed"])
        n = len(m["freq"])
        f = np.array(m["freq"])
        Z = g.normal(size=(n, 2, 2)) * 10 ** g.uniform(-3, 4) + 1j * g.normal(size=(n, 2, 2))
        V = g.uniform(0.001, 3, size=(n, 2, 2))
        T = g.normal(size=(n, 1, 2)) + 1j * g.normal(size=(n, 1, 2))
        VT = g.uniform(0.001, 3, size=(n, 1, 2))
        rot = g.uniform(-90, 90, n) if m["zrot"] == "each" else np.zeros(n)
        junk = {}
        opts = ["1.000000e+32", "****", "NaN?", "1e32"]

        def bad(q):
            if not m["junk"] or g.random() < 0.5:
                return [None] * n, np.zeros(n, bool)
            b = g.random(n) < 0.3
            return [opts[g.integers(len(opts))] if x else None for x in b], b

        ls = head(m) + [">=MTSECT", f'    SECTID="{m["head"]["station"]}"', f"    NFREQ={n}", "    HX=101.001", "    HY=102.001", "    HZ=103.001", "    EX=104.001", "    EY=105.001", ""]
        ls += [">!****FREQUENCIES****!"] + block("FREQ", f, m["per_line"])
        if m["zrot"] != "none":
            ls += block("ZROT", rot, m["per_line"])
        up = (lambda x: x) if m["case"] else str.lower
        for a in range(2):
            for b in range(2):
                k = ZK[2 * a + b].upper()
                if m["kind"] == "z":
                    for nm, arr in ((k + "R", "re"), (k + "I", "im")):
                        j, w = bad(nm)
                        v = Z.real if arr == "re" else Z.imag
                        ls += block(up(nm), v[:, a, b].copy(), m["per_line"], "ROT=ZROT", j)
                        if arr == "re":
                            Z[w, a, b] = 1j * Z[w, a, b].imag
                        else:
                            Z[w, a, b] = Z[w, a, b].real
                    if m["var"]:
                        ls += block(up(k + ".VAR"), V[:, a, b], m["per_line"], "ROT=ZROT")
                    else:
                        V[:, a, b] = 0
                else:
                    rho = g.uniform(0.1, 1000, n)
                    phs = g.uniform(5, 85, n) if not (a == 1 and b == 0) or g.random() < 0.5 else g.uniform(-175, -95, n)
                    if (a, b) in ((0, 0), (1, 1)):
                        phs = g.uniform(-180, 180, n)
                    dp = g.uniform(0.1, 10, n)
                    ls += block(up("RHO" + k[1:]), rho, m["per_line"]) + block(up("PHS" + k[1:]), phs, m["per_line"]) + block(up("PHS" + k[1:] + ".ERR"), dp, m["per_line"])
                    mod = np.sqrt(5 * f * rho)
                    Z[:, a, b] = mod * np.exp(1j * np.radians(phs))
                    if (a, b) == (1, 0) and 0 < phs.mean() < 90:
                        Z[:, a, b] *= -1  # the same apparent resistivity and phase, third quadrant
                    V[:, a, b] = (np.radians(dp) * mod) ** 2
        if m["tip"]:
            if m["zrot"] != "none":
                ls += block("TROT", rot, m["per_line"])
            for b, k in enumerate(("TX", "TY")):
                ls += block(up(k + "R.EXP"), T[:, 0, b].real, m["per_line"], "ROT=TROT") + block(up(k + "I.EXP"), T[:, 0, b].imag, m["per_line"], "ROT=TROT")
                if m["var"]:
                    ls += block(up(k + "VAR.EXP"), VT[:, 0, b], m["per_line"], "ROT=TROT")
                else:
                    VT[:, 0, b] = 0
        else:
            T[:], VT[:] = 0, 0
        ls.append(">END")
        o = slice(None, None, -1) if n > 1 and f[0] < f[1] else slice(None)
        with scratch() as d:
            fn = os.path.join(d, "x.edi")
            with open(fn, "w") as fid:
                fid.write("\n".join(ls) + "\n")
            e = EDI(fn=fn)
            check_head(e, m)
            require(near(e.frequency, f[o]), f"frequencies {e.frequency} instead of {f[o]}")
            for got, want, nm in ((e.z, Z, "impedance"), (e.z_err, np.sqrt(V), "impedance errors"), (e.t, T, "tipper"), (e.t_err, np.sqrt(VT), "tipper errors"), (e.rotation_angle, rot, "rotation angles")):
                require(near(got, want[o], 1e-7), f"{nm} {np.ravel(got)[:4]} instead of {np.ravel(want[o])[:4]}")
            t = TF(fn)
            t.read()
            compare(t, 1.0 / f[o], Z[o], np.sqrt(V)[o], T[o] if m["tip"] else None, np.sqrt(VT)[o], rot[o], 1e-7)
            again(t, d)

    def compare(t, period, Z, ZE, T, TE, rot, rel=3e-6):
        require(near(t.period, period, rel), f"periods {t.period} instead of {period}")
        if Z is None:
            require(not t.has_impedance() or not np.any(t.impedance.data), "an impedance that was not given")
        else:
            require(near(t.impedance.data, Z, rel), f"impedance {t.impedance.data.ravel()[:4]} instead of {Z.ravel()[:4]}")
            require(near(t.impedance_error.data, ZE, rel), f"impedance errors {t.impedance_error.data.ravel()[:4]} instead of {ZE.ravel()[:4]}")
        if T is None:
            require(not t.has_tipper() or not np.any(t.tipper.data), "a tipper that was not given")
        else:
            require(near(t.tipper.data, T, rel), f"tipper {t.tipper.data.ravel()[:4]} instead of {T.ravel()[:4]}")
            require(near(t.tipper_error.data, TE, rel), f"tipper errors {t.tipper_error.data.ravel()[:4]} instead of {TE.ravel()[:4]}")
        rot = np.zeros(len(period)) if rot is None else rot
        require(near(t._rotation_angle, rot, rel), f"rotation angles {t._rotation_angle} instead of {rot}")

    def again(t, d):
        """what was read, written and read again"""
        fn = os.path.join(d, "again.edi")
        t.to_edi().write(fn)
        u = TF(fn)
        u.read()
        z, ze = (t.impedance.data, t.impedance_error.data) if t.has_impedance() else (None, None)
        k, ke = (t.tipper.data, t.tipper_error.data) if t.has_tipper() else (None, None)
        compare(u, t.period, z, ze, k, ke, t._rotation_angle)
        require(u.station == t.station and abs(u.latitude - t.latitude) < 1e-5 and abs(u.longitude - t.longitude) < 1e-5 and abs(u.elevation - t.elevation) < 1e-3,
                f"station {u.station} at {u.latitude}, {u.longitude}, {u.elevation} instead of {t.station} at {t.latitude}, {t.longitude}, {t.elevation}")

    # ------------------------------------------------------------- spectra
    SP = {7: ["hx", "hy", "hz", "ex", "ey", "rhx", "rhy"], 6: ["hx", "hy", "ex", "ey", "rhx", "rhy"], 5: ["hx", "hy", "hz", "ex", "ey"], 4: ["hx", "hy", "ex", "ey"]}

    def gen_spec(rng, tier):
        for k in range(36 if tier == "quick" else 1000):
            nch = rng.choice([4, 5, 6, 7])
            n = rng.choice([1, 2, 3, 5])
            yield {"head": mk_head(rng), "chans": SP[nch], "freq": freqs(rng, n, rng.random() < 0.5), "seed": rng.randrange(10**6), "avgt": rng.choice([1.0, 4.0, 37.0]), "per_line": rng.choice([nch, 3])}

    @reg.rt("reading spectra", gen_spec, ["EDI.read", "EDI._read_spectra", "index_locator", "TF.from_edi"], "36 generated files, 4 to 7 channels, up to 5 frequencies")
    def spectra(m):
        g = np.random.default_rng(m["seed"])
        ch, f = m["chans"], np.array(m["freq"])
        k, n = len(ch), len(f)
        ls = head(m) + [">=SPECTRASECT", f'    SECTID="{m["head"]["station"]}"', f"    NCHAN={k}", f"    NFREQ={n}", f"    MAXBLKS={n}", f"// {k}"]
        ls += ["    " + " ".join(f"{101 + q}.001" for q in range(k)), ""]
        outs = [c for c in ("ex", "ey", "hz") if c in ch]
        R = ["rhx", "rhy"] if "rhx" in ch else ["hx", "hy"]
        TF_, ER = np.zeros((n, len(outs), 2), complex), np.zeros((n, len(outs), 2))
        for q in range(n):
            x = g.normal(size=(k, 40)) + 1j * g.normal(size=(k, 40))
            hx, hy = ch.index("hx"), ch.index("hy")
            for c in outs:
                a = g.normal(size=2) + 1j * g.normal(size=2)
                x[ch.index(c)] = a[0] * x[hx] + a[1] * x[hy] + 0.3 * x[ch.index(c)]
            for r, h in zip(R, ("hx", "hy")):
                if r not in ("hx", "hy"):
                    x[ch.index(r)] = x[ch.index(h)] + 0.2 * x[ch.index(r)]
            S = x @ x.conj().T / 40  # <A, B*>
            # real part below the diagonal; imaginary part above, of <row, column*>
            P = np.zeros((k, k))
            for a in range(k):
                for b in range(a + 1):
                    P[a, b] = S[a, b].real
                    if a != b:
                        P[b, a] = S[a, b].imag
            toks = [f"{v: .9e}" for v in P.ravel()]
            ls.append(f">SPECTRA  FREQ={f[q]:.7E} ROTSPEC=0 BW=1.0E+00 AVGT={m['avgt']:.4E} // {k * k}")
            ls += [" ".join(toks[z:z + m["per_line"]]) for z in range(0, k * k, m["per_line"])]
            I = [ch.index(c) for c in ("hx", "hy")]
            J = [ch.index(c) for c in R]
            hh, rh, rr = (lambda a, b: np.array([[S[v, u] for v in b] for u in a]))(I, I), np.array([[S[v, u] for v in I] for u in J]), np.array([[S[v, u] for v in J] for u in J])
            for w, c in enumerate(outs):
                o = ch.index(c)
                # <r*, o> = sum of <r*, h> t:  response of o = sum t h, with S[a, b] = <a b*>
                A = np.array([[S[u, v] for u in I] for v in J])
                y = np.array([S[o, v] for v in J])
                t = np.linalg.solve(A, y)
                TF_[q, w] = t
                he = np.array([S[u, o] for u in I])
                res = S[o, o] - np.sum(t * he) - np.sum(np.conj(t * he)) + sum(t[a] * np.conj(t[b]) * S[I[a], I[b]] for a in range(2) for b in range(2))
                X = np.linalg.inv(A)  # h* weights
                RR = np.array([[S[u, v] for u in J] for v in J])
                sig = X @ RR @ X.conj().T
                ER[q, w] = np.sqrt(np.abs(res / m["avgt"] * np.diag(sig)))
        ls.append(">END")
        o = np.argsort(-f)
        with scratch() as d:
            fn = os.path.join(d, "x.edi")
            with open(fn, "w") as fid:
                fid.write("\n".join(ls) + "\n")
            e = EDI(fn=fn)
            check_head(e, m)
            require(near(e.frequency, f[o]), f"frequencies {e.frequency} instead of {f[o]}")
            for q, c in enumerate(outs):
                got, err = (e.t[:, 0], e.t_err[:, 0]) if c == "hz" else (e.z[:, q], e.z_err[:, q])
                require(np.allclose(got, TF_[o, q], rtol=1e-5, atol=1e-6), f"response of {c} {got[0]} instead of {TF_[o, q][0]}")
                require(np.allclose(err, ER[o, q], rtol=1e-4, atol=1e-6), f"error of {c} {err[0]} instead of {ER[o, q][0]}")
            t = TF(fn)
            t.read()
            require(near(t.period, 1 / f[o]), f"periods {t.period}")
            require(np.allclose(t.impedance.data, TF_[o][:, :2], rtol=1e-5, atol=1e-6), f"impedance {t.impedance.data[0]} instead of {TF_[o][0, :2]}")
            require(np.allclose(t.impedance_error.data, ER[o][:, :2], rtol=1e-4, atol=1e-6), f"impedance error {t.impedance_error.data[0]} instead of {ER[o][0, :2]}")
            if "hz" in ch:
                require(np.allclose(t.tipper.data[:, 0], TF_[o][:, 2], rtol=1e-5, atol=1e-6), f"tipper {t.tipper.data[0]} instead of {TF_[o][0, 2]}")
                require(np.allclose(t.tipper_error.data[:, 0], ER[o][:, 2], rtol=1e-4, atol=1e-6), f"tipper error {t.tipper_error.data[0]}")
            again(t, d)

    # ----------------------------------------------------- write and read
    def gen_write(rng, tier):
        for k in range(56 if tier == "quick" else 1200):
            n = rng.choice([1, 2, 3, 6, 7, 13])
            yield {"n": n, "seed": rng.randrange(10**6), "up": rng.random() < 0.5, "kind": rng.choice(["both", "both", "both", "z", "t"]), "rot": rng.choice(["none", "number", "each"]),
                   "zeros": rng.random() < 0.3, "mag": rng.choice([0, 0, -12, 15]), "lat": rng.choice([round(rng.uniform(-89, 89), 5), -0.25, 0.0001]), "lon": rng.choice([round(rng.uniform(-179, 179), 5), -0.4]),
                   "elev": round(rng.uniform(-200, 4000), 2), "dec": rng.choice([0.0, 11.5, -3.25]), "station": rng.choice(["mt01", "a1", "abc_12"]), "survey": rng.choice(["sv", "big survey"]),
                   "project": rng.choice([None, "proj"]), "author": rng.choice([None, "me", "some one else"]), "place": rng.choice([None, "here, there"]), "country": rng.choice([None, "USA"]),
                   "start": rng.choice([None, "2020-01-02T03:04:05+00:00"]), "chans": rng.random() < 0.6, "azm": rng.choice([0.0, 10.0, 347.5]), "fmt": rng.choice(["dms", "dd"]), "lonkey": rng.choice(["LON", "LONG"])}

    @reg.rt("write and read", gen_write, ["TF.to_edi", "TF.from_edi", "EDI.write", "EDI._write_data_block", "EDI.read", "EDI._read_mt", "Header", "DefineMeasurement", "Information", "DataSection"],
            "56 transfer functions, up to 13 periods")
    def writing(m):
        g = np.random.default_rng(m["seed"])
        n = m["n"]
        per = np.sort(10 ** g.uniform(-4, 5, n))
        per = per if m["up"] else per[::-1].copy()
        k = 10.0 ** m["mag"]
        Z, ZE = k * (g.normal(size=(n, 2, 2)) + 1j * g.normal(size=(n, 2, 2))), k * g.uniform(0.01, 2, (n, 2, 2))
        T, TE = g.normal(size=(n, 1, 2)) + 1j * g.normal(size=(n, 1, 2)), g.uniform(0.01, 2, (n, 1, 2))
        if m["zeros"]:
            Z[g.random(Z.shape) < 0.2] = 0
            Z.real[g.random(Z.shape) < 0.2] = 0
            ZE[g.random(Z.shape) < 0.2] = 0
        rot = {"none": None, "number": 12.5, "each": g.uniform(-180, 180, n)}[m["rot"]]
        t = TF()
        t.period = per
        if m["kind"] != "t":
            t.impedance, t.impedance_error = Z, ZE
        if m["kind"] != "z":
            t.tipper, t.tipper_error = T, TE
        if rot is not None:
            t._rotation_angle = rot
        st, sv = t.station_metadata, t.survey_metadata
        st.id, st.geographic_name = m["station"], m["place"]
        st.location.latitude, st.location.longitude, st.location.elevation = m["lat"], m["lon"], m["elev"]
        st.location.declination.value = m["dec"]
        st.acquired_by.author = m["author"]
        sv.id, sv.project = m["survey"], m["project"]
        sv.country = m["country"]
        if m["start"]:
            st.time_period.start = m["start"]
        want = {}
        if m["chans"]:
            r = Run(id=m["station"] + "a")
            for q, c in enumerate(["hx", "hy", "hz", "ex", "ey"]):
                az = m["azm"] + (90.0 if c[1] == "y" else 0.0)
                az = 0.0 if c == "hz" else az % 360
                ch = (Magnetic if c[0] == "h" else Electric)(component=c, channel_id=str(q + 1), channel_number=q + 1, measurement_azimuth=az, translated_azimuth=az)
                if c[0] == "h":
                    ch.location.x, ch.location.y = round(g.uniform(-9, 9), 1), round(g.uniform(-9, 9), 1)
                    want[c] = (az, ch.location.x, ch.location.y)
                else:
                    ch.dipole_length = round(g.uniform(10, 200), 1)
                    dx, dy = (ch.dipole_length / 2 * np.cos(np.radians(az)), ch.dipole_length / 2 * np.sin(np.radians(az)))
                    ch.negative.x, ch.negative.y, ch.positive.x2, ch.positive.y2 = (round(float(v), 1) for v in (-dx, -dy, dx, dy))
                    want[c] = (az, ch.negative.x, ch.negative.y, ch.positive.x2, ch.positive.y2, ch.dipole_length)
                r.add_channel(ch)
            st.runs = [r]
        with scratch() as d:
            fn = os.path.join(d, "x.edi")
            e = t.to_edi()
            e.write(fn, longitude_format=m["lonkey"], latlon_format=m["fmt"])
            u = TF(fn)
            u.read()
            o = np.argsort(per)
            rr = np.zeros(n) if rot is None else np.broadcast_to(rot, n)
            compare(u, per[o], None if m["kind"] == "t" else Z[o], ZE[o], None if m["kind"] == "z" else T[o], TE[o], rr[o])
            s2, v2 = u.station_metadata, u.survey_metadata
            loc = s2.location
            for nm, a, b, tol in (("latitude", loc.latitude, m["lat"], 3e-6), ("longitude", loc.longitude, m["lon"], 3e-6), ("elevation", loc.elevation, m["elev"], 1e-3), ("declination", loc.declination.value, m["dec"], 1e-3)):
                require(abs(a - b) <= tol, f"{nm} {a} instead of {b}")
            for nm, a, b in (("station", s2.id, m["station"]), ("survey", v2.id, m["survey"]), ("project", v2.project, m["project"]), ("country", v2.country, [m["country"]] if isinstance(v2.country, list) else m["country"]),
                             ("author", s2.acquired_by.author, m["author"]), ("place", s2.geographic_name, m["place"])):
                if b not in (None, [None]):
                    require(a == b, f"{nm} {a!r} instead of {b!r}")
            if m["start"]:
                require(str(s2.time_period.start)[:10] == m["start"][:10], f"start {s2.time_period.start}")
            for c, w in want.items():
                ch = [x.get_channel(c) for x in s2.runs if c in x.channels_recorded_all]
                require(len(ch) == 1, f"channel {c} is in {len(ch)} runs")
                ch = ch[0]
                if c[0] == "h":
                    got = (ch.measurement_azimuth, ch.location.x, ch.location.y)
                else:
                    got = (ch.measurement_azimuth, ch.negative.x, ch.negative.y, ch.positive.x2, ch.positive.y2, ch.dipole_length)
                tol = 0.11
                bad = [(a, b) for q, (a, b) in enumerate(zip(got, w)) if abs(a - b) > tol and not (q == 0 and c[0] == "e")]
                require(not bad, f"channel {c}: {got} instead of {w}")
            again(u, d)
