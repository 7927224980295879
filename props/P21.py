"""EMTF XML files: reading and writing periods, responses, errors and covariances."""

ASSUMPTIONS = [
    "xml.etree keeps the elements, attributes and text it is given; a number printed with a format reads back as that number rounded to its digits (runtime contracts)",
    "numpy / xarray cell selection and assignment by label are as in pyvc/blockmodel.py",
]
DF = "mt_metadata/transfer_functions/io/emtfxml/metadata/data.py:TransferFunction."
TFF = "mt_metadata/transfer_functions/core.py:TF."

# array -> (outputs, inputs, kind)
LAYOUT = {
    "z": (["ex", "ey"], ["hx", "hy"], "complex"),
    "z_var": (["ex", "ey"], ["hx", "hy"], "real"),
    "z_invsigcov": (["hx", "hy"], ["hx", "hy"], "complex"),
    "z_residcov": (["ex", "ey"], ["ex", "ey"], "complex"),
    "t": (["hz"], ["hx", "hy"], "complex"),
    "t_var": (["hz"], ["hx", "hy"], "real"),
    "t_invsigcov": (["hx", "hy"], ["hx", "hy"], "complex"),
    "t_residcov": (["hz"], ["hz"], "complex"),
}
EMPTY = 1e32


def contracts():
    import itertools
    import re
    from xml.etree import ElementTree as et

    from mt_metadata.transfer_functions.core import TF
    from mt_metadata.transfer_functions.io.emtfxml import EMTFXML
    from mt_metadata.transfer_functions.io.emtfxml.metadata import TransferFunction
    from pyvc import core
    from pyvc.api import And, Contract, Implies, Not, Or, SymArray, SymBool, SymComplex, SymNum, SymStr, eq, ite, num_z3, put, raises, z3
    from pyvc.blockmodel import Store, SymBlock, SymDS
    from pyvc.core import SymSeq
    from pyvc.helpers import Inv, SymOpaque, VDict

    out = []

    class Token(SymOpaque):
        pytype = str

        def __init__(self, *nums):
            self.nums = nums

        def __float_sym__(self):
            if len(self.nums) != 1:
                raise ValueError("could not convert string to float")
            return self.nums[0]

        def strip(self, *a):
            return self

        def split(self, *a):
            return [Token(x) for x in self.nums]

    def data(p, n):
        d = TransferFunction()
        blocks = {k: SymBlock.fresh(p, k, n, (len(o), len(i)), kind) for k, (o, i, kind) in LAYOUT.items()}
        put(d, period=p.array("period", n=n), **blocks)
        return d, {k: b.copy() for k, b in blocks.items()}

    def shown(case, s):
        return {"lower": s, "cap": s.capitalize(), "upper": s.upper()}[case]

    def spelled(key):
        """how the keys of a file come out of the key conversion"""
        head, *tail = key.split("_")
        return head + ("." + "_".join(tail[0]) if tail else "")

    ANY = lambda m: {"seed": 1, "n": 3, "kind": "both", "cov": True, "case": "cap", "typed": True, "derived": False, "count": True, "empty": 0.1, "shuffle": True, "missing": 0.0}

    def mk_read(key, variant):
        o, i, kind = LAYOUT[key]

        def h(p):
            n = p.int("n")
            p.assume(n >= 1)
            d, old = data(p, n)
            q, j = p.int("q"), p.int("j")
            p.assume(And(q >= 0, q < n, j >= 0, j < n, Not(q == j)))
            pairs = list(itertools.product(o, i))
            if variant == "reversed":
                pairs = pairs[::-1]
            vals, items = {}, []
            for a, b in pairs:
                v = vals[a, b] = p.complex(a + b) if kind == "complex" else p.real(a + b)
                text = Token(v.re, v.im) if kind == "complex" else Token(v)
                items.append({"output": shown("cap" if variant != "reversed" else "upper", a), "input": shown("cap" if variant != "reversed" else "lower", b), "value": text})
            comp = {"value": items if len(items) > 1 or variant == "reversed" else items[0], "units": "[mV/km]/[nT]", "size": "2 2"}
            if variant != "untyped":
                comp["type"] = kind
            block = {"value": Token(p.real("per")), spelled(key): comp, "rho": {"type": "real", "value": [{"output": "Ex", "input": "Hx", "value": Token(p.real("rho"))}]}}
            d.read_block(block, q)
            now = d.array_dict
            for (a, b), v in vals.items():
                p.check(f"{key} of {a} {b} is the value written for it", eq(now[key].at(q.e)[o.index(a), i.index(b)], v))
            p.check("other periods are unchanged", And([eq(x, y) for x, y in zip(now[key].at(j.e).flat, old[key].at(j.e).flat)]))
            for k in LAYOUT:
                if k != key:
                    p.check("other quantities are unchanged", And([eq(x, y) for t in (q, j) for x, y in zip(now[k].at(t.e).flat, old[k].at(t.e).flat)]))

        return h

    for key in LAYOUT:
        for variant in ("plain", "reversed", "untyped"):
            out.append(Contract(f"{key} values of a period, {variant}", DF + "read_block", mk_read(key, variant), replay=("reading a file", ANY)))

    # ------------------------------------------------------------ all periods
    def h_dict(p):
        n = p.int("n")
        p.assume(n >= 1)
        d = TransferFunction()
        per = p.array("value", n=n)
        calls = []

        class Block(SymOpaque):
            pytype = dict

            def __init__(self, i):
                self.i = i

            def __getitem__(self, k):
                if k != "value":
                    raise KeyError(k)
                return Token(per.at(self.i))

        seq = SymSeq(n, Block, "blocks")
        put(d, **{k: None for k in LAYOUT})

        def init(m):
            put(d, period=SymArray(m if isinstance(m, SymNum) else SymNum(num_z3(m)), lambda i: SymNum(z3.RealVal(0))))
            calls.append(("init", m))

        def reader(block, i):
            calls.append((block, i))

        object.__setattr__(d, "__dict__", dict(d.__dict__, initialize_arrays=init, read_block=reader))
        state = {}

        def spec(loop, loc, names):
            def havoc(i, env):
                put(d, period=SymArray(n, lambda j: ite(SymBool(core.as_z3int(j) < i), per.at(j), SymNum(z3.RealVal(0)))))
                calls[:] = calls[:1]
                return {}

            def inv(i, env):
                if len(calls) == 1:
                    return SymBool(z3.BoolVal(True))
                if len(calls) != 2 or not isinstance(calls[1][0], Block):
                    raise core.Unsupported("not one block per iteration")
                b, t = calls[1]
                k = z3.Int("any_period")
                return And(eq(SymNum(num_z3(t)), SymNum(i - 1)), SymBool(b.i == i - 1),
                           Implies(SymBool(z3.And(k >= 0, k < i)), eq(d.period.at(k), per.at(k))))

            iv = Inv("periods so far are stored, each block is read at its index", [], havoc, inv)
            iv.may_modify = lambda x: x is d or x is d.period
            state["used"] = True
            return iv

        p.loop_specs["*"] = spec
        has = p.choose(2, "count")
        root = {"data": {"period": seq}}
        if has:
            root["data"]["count"] = Token(n)
        d.read_dict(root)
        if not state:
            raise core.Unsupported("no loop over the blocks")
        p.check("arrays are made for the number of periods", eq(SymNum(num_z3(calls[0][1])), n))
        i = p.index(per)
        p.check("every period of the file is stored", And(eq(d.period.n, n), eq(d.period.at(i), per.at(i))))

    out.append(Contract("all periods of a file", DF + "read_dict", h_dict, replay=("reading a file", ANY)))

    def h_one(p):
        d = TransferFunction()
        block = {"value": Token(p.real("per")), "z": {"type": "complex", "value": []}}
        vals = {}
        for a, b in itertools.product(*LAYOUT["z"][:2]):
            vals[a, b] = SymComplex(p.real(a + b + "r"), p.real(a + b + "i"))
            block["z"]["value"].append({"output": a, "input": b, "value": Token(vals[a, b].re, vals[a, b].im)})
        p.loop_specs["objarrays"] = True
        d.read_dict({"data": {"period": block, "count": "1"}})
        p.check("one period", len(d.period) == 1 if not isinstance(d.period, SymArray) else eq(d.period.n, 1))
        p.check("its value", eq(d.period[0], block["value"].nums[0]))
        for (a, b), v in vals.items():
            p.check("its responses", eq(d.z[0, LAYOUT["z"][0].index(a), LAYOUT["z"][1].index(b)], v))

    out.append(Contract("a file of one period", [DF + "read_dict", DF + "read_block", DF + "initialize_arrays"], h_one, replay=("reading a file", lambda m: dict(ANY(m), n=1))))

    # --------------------------------------------------------------- writing
    def pieces(s):
        ps = s.pieces if isinstance(s, SymStr) else None
        if not ps or not all(isinstance(x, (str, tuple)) for x in ps):
            raise core.Unsupported("text that is not made of numbers")
        return ps

    def mk_write(key):
        o, i, kind = LAYOUT[key]

        def h(p):
            n = p.int("n")
            p.assume(n >= 1)
            d, old = data(p, n)
            put(d, **{k: None for k in LAYOUT if k != key})
            q = p.int("q")
            p.assume(And(q >= 0, q < n))
            parent = et.Element("Data")
            d.write_block(parent, q)
            kids = list(parent)
            p.check("one period element", len(kids) == 1 and kids[0].tag == "Period")
            val = pieces(kids[0].attrib["value"])
            num = [x for x in val if isinstance(x, tuple)]
            p.check("the period is printed with enough digits", len(num) == 1 and bool(re.fullmatch(r"[<>]?\d*\.(\d+)[eE]", num[0][1])) and int(re.search(r"\.(\d+)", num[0][1]).group(1)) >= 9)
            p.check("the period element names its period", eq(SymNum(num_z3(num[0][2])), d.period.at(q.e)))
            comps = list(kids[0])
            p.check("one element for the quantity", [c.tag for c in comps] == [key.replace("_", ".").upper()] and comps[0].attrib["type"] == kind)
            items = list(comps[0])
            p.check("one value for each pair of channels", sorted((x.attrib["output"].lower(), x.attrib["input"].lower()) for x in items) == sorted(itertools.product(o, i)))
            for x in items:
                a, b = x.attrib["output"].lower(), x.attrib["input"].lower()
                if key in ("z", "t"):
                    nm = {"exhx": "zxx", "exhy": "zxy", "eyhx": "zyx", "eyhy": "zyy", "hzhx": "tx", "hzhy": "ty"}[a + b]
                    p.check("the value is named", x.attrib.get("name", "").lower() == nm)
                v = old[key].at(q.e)[o.index(a), i.index(b)]
                v = [v.re, v.im] if kind == "complex" else [v]
                zero = And([eq(c, 0) for c in v])
                got = x.text
                if isinstance(got, str):
                    nums = [(None, ".6e", SymNum(z3.RealVal(t))) for t in map(lambda t: repr(float(t)), got.split())]
                else:
                    nums = [t for t in pieces(got) if isinstance(t, tuple)]
                    for t in pieces(got):
                        if isinstance(t, str):
                            nums_txt = t.split()
                            if nums_txt:
                                raise core.Unsupported("mixed text")
                p.check("a value has its real and imaginary part", len(nums) == len(v))
                for c, t in zip(v, nums):
                    m = re.fullmatch(r"[<>]?\d*\.(\d+)[eE]", t[1])
                    p.check("values are printed with at least seven digits", bool(m) and int(m.group(1)) >= 6)
                    p.check(f"{a} {b}: the value, or the empty value for a zero", eq(SymNum(num_z3(t[2])), ite(zero, EMPTY, c)))

        return h

    for key in LAYOUT:
        out.append(Contract(f"writing {key}", DF + "write_block", mk_write(key), replay=("write and read", lambda m: None)))

    # ------------------------------------------------ to and from TF objects
    def symtf(p, n, new=False):
        t = TF()
        per = p.array("period", n=n)
        chans = ["ex", "ey", "hz", "hx", "hy"]
        stores = {}
        for v, kind in (("transfer_function", "complex"), ("transfer_function_error", "real"), ("transfer_function_model_error", "real"),
                        ("inverse_signal_power", "complex"), ("residual_covariance", "complex")):
            b = SymBlock.fresh(p, v, n, (5, 5), kind)
            if new and v[:8] != "transfer":
                b = b.map(lambda x: SymComplex(0, 0))
            stores[v] = Store(n, chans, chans, lambda o, i, b=b: b.cells[chans.index(o), chans.index(i)])
        t._transfer_function = SymDS(per, chans, chans, stores)
        return t, per

    SRC = {"z": "transfer_function", "t": "transfer_function", "z_var": "transfer_function_error", "t_var": "transfer_function_error",
           "z_invsigcov": "inverse_signal_power", "t_invsigcov": "inverse_signal_power", "z_residcov": "residual_covariance", "t_residcov": "residual_covariance"}

    def mk_to(cov):
        def h(p):
            n = p.int("n")
            p.assume(n >= 1)
            t, per = symtf(p, n)
            for f in ("has_impedance", "has_tipper"):
                t.__dict__[f] = lambda: True
            for f in ("has_residual_covariance", "has_inverse_signal_power"):
                t.__dict__[f] = lambda: cov
            e = t.to_emtfxml()
            i = p.index(per)
            dset = t._transfer_function.d
            for key, (o, c, kind) in LAYOUT.items():
                if SRC[key][:8] != "transfer" and not cov:
                    continue
                got = getattr(e.data, key).at(i)
                cell = dset[SRC[key]].store.cell
                for a in o:
                    for b in c:
                        v = cell[a, b].at(i)
                        p.check(f"{key} of {a} {b}", eq(got[o.index(a), c.index(b)], v * v if key.endswith("var") else v))
            p.check("the same periods", And(eq(e.data.period.n, n), eq(e.data.period.at(i), per.at(i))))

        return h

    for cov in (True, False):
        out.append(Contract(f"a transfer function as EMTFXML object, {'with' if cov else 'without'} covariances", TFF + "to_emtfxml", mk_to(cov), replay=("write and read", lambda m: None)))

    def h_from(p):
        n = p.int("n")
        p.assume(n >= 2)  # one period: runtime contracts
        t, per = symtf(p, n, True)
        e = EMTFXML()
        d, old = data(p, n)
        e.__dict__["data"] = d
        i = p.index(d.period)
        p.ufapps.setdefault("indices", []).append(i)
        for k in ("z_var", "t_var"):
            for x in old[k].at(i).flat:
                p.assume(x >= 0)
        # both quantities carry the same inverse signal power
        for x, y in zip(old["z_invsigcov"].at(i).flat, old["t_invsigcov"].at(i).flat):
            p.assume(eq(x, y))
        t.from_emtfxml(e)
        dset = t._transfer_function.d
        for key, (o, c, kind) in LAYOUT.items():
            cell = dset[SRC[key]].store.cell
            for a in o:
                for b in c:
                    v, w = cell[a, b].at(i), old[key].at(i)[o.index(a), c.index(b)]
                    if key.endswith("var"):
                        p.check(f"error of {a} to {b} is the root of the variance", And(v >= 0, eq(v * v, w)))
                    else:
                        p.check(f"{key} of {a} {b}", eq(v, w))
        p.check("the same periods", And(eq(t.period.n, n), eq(t.period.at(i), d.period.at(i))))

    out.append(Contract("a transfer function from an EMTFXML object", TFF + "from_emtfxml", h_from, replay=("reading a file", ANY)))
    return out


def runtime(reg):
    import contextlib
    import functools
    import os
    import shutil
    import tempfile

    import numpy as np
    import pyproj
    from loguru import logger
    from mt_metadata.timeseries import Electric, Magnetic, Run
    from mt_metadata.transfer_functions.core import TF
    from mt_metadata.transfer_functions.io.emtfxml import EMTFXML
    from pyvc.rt import require

    logger.remove()
    if not hasattr(pyproj.CRS.from_user_input, "cache_info"):
        pyproj.CRS.from_user_input = functools.lru_cache(None)(pyproj.CRS.from_user_input)

    @contextlib.contextmanager
    def scratch():
        d = tempfile.mkdtemp()
        try:
            yield d
        finally:
            shutil.rmtree(d)

    def near(a, b, rel=2e-6):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rel * np.abs(b)))

    def fmt(x, digits):
        return f"{x:.{digits}e}"

    def printed(a, digits):
        """the numbers the printed digits spell"""
        f = lambda v: float(fmt(v, digits))
        a = np.asarray(a)
        if np.iscomplexobj(a):
            return np.vectorize(lambda c: complex(f(c.real), f(c.imag)))(a)
        return np.vectorize(f)(a)

    def make(m, g, n):
        d = {}
        for k, (o, i, kind) in LAYOUT.items():
            a = g.normal(size=(n, len(o), len(i)))
            a = a + 1j * g.normal(size=a.shape) if kind == "complex" else np.abs(a) + 0.01
            d[k] = a * 10.0 ** m.get("mag", 0)
        return d

    NAMES = {"exhx": "Zxx", "exhy": "Zxy", "eyhx": "Zyx", "eyhy": "Zyy", "hzhx": "Tx", "hzhy": "Ty"}

    # ------------------------------------------------------------- reading
    def gen_read(rng, tier):
        for k in range(40 if tier == "quick" else 900):
            yield {"seed": rng.randrange(10**6), "n": rng.choice([1, 2, 3, 5, 9]), "kind": rng.choice(["both", "both", "z", "t"]), "cov": rng.random() < 0.6, "case": rng.choice(["cap", "lower", "upper"]),
                   "typed": rng.random() < 0.8, "derived": rng.random() < 0.4, "count": rng.random() < 0.8, "shuffle": rng.random() < 0.6, "missing": rng.choice([0.0, 0.0, 0.2]),
                   "digits": rng.choice([6, 9, 3]), "lat": round(rng.uniform(-89, 89), 4), "lon": round(rng.uniform(-179, 179), 4), "elev": round(rng.uniform(-100, 4000), 2), "station": rng.choice(["mt01", "KAK"]),
                   "az": rng.choice([0.0, 13.5]), "optional": rng.random() < 0.5, "up": rng.random() < 0.5, "notes": rng.random() < 0.5}

    def text(m, g, per, d):
        case = {"cap": str.capitalize, "lower": str.lower, "upper": str.upper}[m["case"]]
        keys = [k for k in LAYOUT if (m["kind"] == "both" or k[0] == m["kind"]) and (m["cov"] or "cov" not in k)]
        az = m.get("az", 0.0)
        ls = ["<?xml version='1.0' encoding='UTF-8'?>", "<EM_TF>", " <Description>Magnetotelluric Transfer Functions</Description>", " <ProductId>a.b.2020</ProductId>", " <SubType>MT_TF</SubType>", " <Tags>impedance</Tags>", " <Attachment/>" if m.get("optional") else " <Attachment><Filename>a.zip</Filename></Attachment>"]
        if m.get("optional"):
            ls += [" <Copyright><Citation/></Copyright>"]
        ls += [f" <Site><Id>{m.get('station', 'a')}</Id><Name>here</Name><Project>pr</Project><Survey>sv</Survey><Location><Latitude>{m.get('lat', 1.5)}</Latitude><Longitude>{m.get('lon', 2.5)}</Longitude><Elevation units='meters'>{m.get('elev', 3.5)}</Elevation></Location>"
               "<Orientation angle_to_geographic_north='0'>orthogonal</Orientation><Start>2020-01-01T00:00:00</Start><End>2020-02-01T00:00:00</End><AcquiredBy>me</AcquiredBy></Site>"]
        if m.get("notes"):
            ls += [" <FieldNotes run='r1'><Instrument><Manufacturer>x</Manufacturer><Name>MT-1</Name><Id>7</Id></Instrument>" + ("<Magnetometer type='coil'><Manufacturer>x</Manufacturer><Name>hx</Name><Id>3</Id></Magnetometer>" if m.get("optional") else "")
                   + f"<Dipole name='Ex' type='wire'><Manufacturer>x</Manufacturer><Length units='meters'>94.5</Length><Azimuth units='degrees'>{az}</Azimuth></Dipole>"
                   "<SamplingRate units='Hz'>8.0</SamplingRate><Start>2020-01-01T00:00:00</Start><End>2020-02-01T00:00:00</End></FieldNotes>"]
        ls += [" <SiteLayout><InputChannels>", f"  <Magnetic name='Hx' orientation='{az}' x='1' y='2' z='0'/><Magnetic name='Hy' orientation='{az + 90}' x='3' y='4' z='0'/>", " </InputChannels><OutputChannels>"]
        if m["kind"] != "t":
            ls += [f"  <Electric name='Ex' orientation='{az}' x='-50' y='0' z='0' x2='44.5' y2='0' z2='0'/><Electric name='Ey' orientation='{az + 90}' x='0' y='-40' z='0' x2='0' y2='41' z2='0'/>"]
        if m["kind"] != "z":
            ls += ["  <Magnetic name='Hz' orientation='0' x='5' y='6' z='0'/>"]
        ls += [" </OutputChannels></SiteLayout>", f" <Data count='{len(per)}'>" if m["count"] else " <Data>"]
        want = {k: np.zeros_like(d[k]) for k in LAYOUT}
        for q, p in enumerate(per):
            ls.append(f"  <Period value='{p:.9e}' units='secs'>")
            for k in keys:
                o, i, kind = LAYOUT[k]
                t = f" type='{kind}'" if m["typed"] else ""
                ls.append(f"   <{k.replace('_', '.').upper()}{t} size='{len(o)} {len(i)}'>")
                rows = []
                for a, ch in enumerate(o):
                    for b, ci in enumerate(i):
                        v = d[k][q, a, b]
                        if g.random() < m["missing"] and len(o) * len(i) > 2:
                            continue
                        want[k][q, a, b] = v
                        nm = f" name='{NAMES[ch + ci]}'" if ch + ci in NAMES and k in ("z", "t", "z_var", "t_var") else ""
                        val = f"{v.real:.{m.get('digits', 6)}e} {v.imag:.{m.get('digits', 6)}e}" if kind == "complex" else f"{v:.{m.get('digits', 6)}e}"
                        rows.append(f"    <value{nm} output='{case(ch)}' input='{case(ci)}'>{val}</value>")
                if m["shuffle"]:
                    g.shuffle(rows)
                ls += rows + [f"   </{k.replace('_', '.').upper()}>"]
            if m["derived"]:
                ls += ["   <RHO type='real' size='2 2' units='Ohm-m'><value name='Rhoxx' output='Ex' input='Hx'>1.0e3</value><value name='Rhoxy' output='Ex' input='Hy'>2.0e3</value></RHO>",
                       "   <PHS.VAR type='real' size='2 2'><value name='Phsxx' output='Ex' input='Hx'>4.0</value></PHS.VAR>", "   <TIPMAG type='real' size='1 1'><value name='Tipmag' output='Hz' input='Hx'>4.0</value></TIPMAG>"]
            ls.append("  </Period>")
        ls += [" </Data>", " <PeriodRange min='1' max='2'/>", "</EM_TF>", ""]
        return "\n".join(ls), {k: printed(v, m.get("digits", 6)) for k, v in want.items()}, keys

    def compare(t, per, want, keys):
        require(near(t.period, per, 1e-8), f"periods {t.period} instead of {per}")
        chans = {"z": "impedance", "t": "tipper"}
        for k in ("z", "t"):
            has = getattr(t, "has_" + chans[k])()
            require(has == (k in keys), f"{chans[k]} {'is there' if has else 'is missing'}")
            if k not in keys:
                continue
            got = getattr(t, chans[k]).data
            require(near(got, want[k], 1e-9), f"{chans[k]} {got[0]} instead of {want[k][0]}")
            if k + "_var" in keys:
                got = getattr(t, chans[k] + "_error").data
                require(near(got, np.sqrt(want[k + "_var"]), 1e-6), f"{chans[k]} errors {got[0]} instead of {np.sqrt(want[k + '_var'])[0]}")
        ds = t.dataset
        for k in keys:
            if k.endswith("cov"):
                o, i, _ = LAYOUT[k]
                src = ds.inverse_signal_power if "inv" in k else ds.residual_covariance
                w = want["t_invsigcov" if "inv" in k and "t_invsigcov" in keys else k]
                for q in range(len(per)):
                    for a in o:
                        for b in i:
                            v = complex(src.loc[dict(output=a, input=b)].data[q])
                            x = w[q, o.index(a), i.index(b)]
                            require(abs(v - x) <= 1e-9 * abs(x), f"{k} of {a} {b} is {v} instead of {x}")

    def layout(t, m):
        s = t.station_metadata
        require(s.id == m["station"], f"station {s.id}")
        for nm, a, b in (("latitude", s.location.latitude, m["lat"]), ("longitude", s.location.longitude, m["lon"]), ("elevation", s.location.elevation, m["elev"])):
            require(abs(a - b) < 1e-6, f"{nm} {a} instead of {b}")
        require(str(s.time_period.start).startswith("2020-01-01T00:00:00") and str(s.time_period.end).startswith("2020-02-01T00:00:00"), f"times {s.time_period}")
        want = {"hx": (m["az"], 1, 2), "hy": (m["az"] + 90, 3, 4)}
        if m["kind"] != "t":
            want.update(ex=(m["az"], -50, 0, 44.5, 0), ey=(m["az"] + 90, 0, -40, 0, 41))
        if m["kind"] != "z":
            want["hz"] = (0.0, 5, 6)
        require(len(s.runs) == 1, f"{len(s.runs)} runs")
        r = s.runs[0]
        for c, w in want.items():
            ch = r.get_channel(c)
            require(ch is not None, f"no channel {c}")
            got = (ch.measurement_azimuth,) + ((ch.location.x, ch.location.y) if c[0] == "h" else (ch.negative.x, ch.negative.y, ch.positive.x2, ch.positive.y2))
            require(all(abs(a - b) < 1e-6 for a, b in zip(got, w)), f"channel {c} at {got} instead of {w}")
        if m["notes"]:
            require(r.id == "r1" and r.sample_rate == 8.0, f"run {r.id} at {r.sample_rate} samples per second")
            require(abs(r.get_channel("ex").dipole_length - 94.5) < 1e-6, f"dipole of {r.get_channel('ex').dipole_length}")
            require(r.data_logger.id == "7" and r.data_logger.type == "MT-1" and r.data_logger.manufacturer == "x", f"data logger {r.data_logger.to_dict(single=True)}")

    @reg.rt("reading a file", gen_read, ["EMTFXML.read", "TransferFunction.read_dict", "TransferFunction.read_block", "TF.from_emtfxml", "Run.read_dict"], "40 generated files, up to 9 periods")
    def reading(m):
        m = dict(gen_default, **m)
        g = np.random.default_rng(m["seed"])
        n = m["n"]
        per = printed(np.sort(10 ** g.uniform(-3, 4, n)), 9)
        per = per if m["up"] else per[::-1].copy()
        d = make(m, g, n)
        s, want, keys = text(m, g, per, d)
        with scratch() as where:
            fn = os.path.join(where, "a.xml")
            with open(fn, "w") as f:
                f.write(s)
            t = TF(fn)
            t.read()
            compare(t, per, want, keys)
            layout(t, m)
            # writing it and reading that again changes nothing
            fn = os.path.join(where, "b.xml")
            e = t.to_emtfxml()
            e.write(fn)
            u = TF(fn)
            u.read()
            again(t, u, 2e-6)
            layout(u, m)

    gen_default = {"digits": 6, "lat": 1.5, "lon": 2.5, "elev": 3.5, "station": "a", "az": 0.0, "optional": False, "up": True, "notes": False}

    def again(t, u, rel):
        require(near(u.period, t.period, 1e-8), f"periods {u.period} instead of {t.period}")
        for k in ("impedance", "impedance_error", "tipper", "tipper_error"):
            a, b = getattr(t, k), getattr(u, k)
            if a is not None:
                require(b is not None, f"{k} is missing")
                w = np.where(np.abs(a.data) == 0, (1e16 if k.endswith("error") else 1e32 + 1e32j), a.data)
                parts = [(b.data.real, w.real), (b.data.imag, w.imag)] if np.iscomplexobj(w) else [(b.data, w)]
                require(all(near(x, y, rel) for x, y in parts), f"{k} {b.data[0]} instead of {a.data[0]}")

    # ----------------------------------------------------- printed values
    def gen_text(rng, tier):
        for k in range(60 if tier == "quick" else 2000):
            yield {"n": rng.choice([1, 1, 2, 5]), "seed": rng.randrange(10**6), "mag": rng.choice([0, -12, 9]), "odd": rng.choice([0, 0.2, 0.5]), "only": rng.choice([None, None, "z", "t"])}

    @reg.rt("printed values", gen_text, ["TransferFunction.write_block", "TransferFunction.to_xml"], "60 data blocks with zero, imaginary, real and undefined values")
    def printed_text(m):
        from mt_metadata.transfer_functions.io.emtfxml.metadata.data import TransferFunction

        g = np.random.default_rng(m["seed"])
        o = TransferFunction()
        o.initialize_arrays(m["n"])
        o.period = np.sort(10 ** g.uniform(-5, 6, m["n"]))
        arrays = {}
        for k, a in o.array_dict.items():
            if m["only"] and not k.startswith(m["only"]):
                setattr(o, k, None)
                continue
            v = g.normal(size=a.shape) * 10.0 ** m["mag"]
            if np.iscomplexobj(a):
                v = v + 1j * g.normal(size=a.shape) * 10.0 ** m["mag"]
                v.real[g.random(a.shape) < m["odd"]] = 0
                v.imag[g.random(a.shape) < m["odd"]] = 0
            v[g.random(a.shape) < m["odd"]] = 0
            v[g.random(a.shape) < m["odd"] / 3] = np.nan
            setattr(o, k, v)
            arrays[k] = v.copy()
        root = o.to_xml()
        require(root.attrib["count"] == str(m["n"]) and len(root) == m["n"], f"{root.attrib} with {len(root)} periods")
        OUT = {"z": "Ex Ey", "z_var": "Ex Ey", "z_residcov": "Ex Ey", "t": "Hz", "t_var": "Hz", "t_residcov": "Hz"}
        IN = {"z_residcov": "Ex Ey", "t_residcov": "Hz"}
        for q, pe in enumerate(root):
            require(abs(float(pe.attrib["value"]) / o.period[q] - 1) < 1e-9, f"period {pe.attrib} instead of {o.period[q]}")
            found = {c.tag.lower().replace(".", "_"): c for c in pe}
            require(set(found) == set(arrays), f"period {q}: {sorted(found)} are written, {sorted(arrays)} are set")
            for k, v in arrays.items():
                require(np.array_equal(getattr(o, k), v, equal_nan=True), f"writing changes {k}")
                outs, ins = OUT.get(k, "Hx Hy").split(), IN.get(k, "Hx Hy").split()
                got = {(x.attrib["output"], x.attrib["input"]): [float(y) for y in x.text.split()] for x in found[k]}
                require(len(found[k]) == len(outs) * len(ins), f"{k} has {len(found[k])} values")
                for a, co in enumerate(outs):
                    for b, ci in enumerate(ins):
                        w = v[q, a, b]
                        parts = [w.real, w.imag] if np.iscomplexobj(v) else [w]
                        parts = [0.0 if np.isnan(y) else y for y in parts]
                        if not any(parts):
                            parts = [1e32] * len(parts)
                        y = got.get((co, ci))
                        require(y is not None and len(y) == len(parts) and all(abs(s - t) <= 6e-7 * abs(t) for s, t in zip(y, parts)), f"{k} {co} {ci} at period {q}: {y} instead of {parts}")

    # ----------------------------------------------------- write and read
    def gen_write(rng, tier):
        for k in range(40 if tier == "quick" else 900):
            yield {"n": rng.choice([1, 2, 3, 6]), "seed": rng.randrange(10**6), "up": rng.random() < 0.5, "kind": rng.choice(["both", "both", "z", "t"]), "cov": rng.random() < 0.5, "mag": rng.choice([0, 0, -8, 6]), "zeros": rng.random() < 0.3,
                   "lat": rng.choice([round(rng.uniform(-89, 89), 5), -0.25]), "lon": round(rng.uniform(-179, 179), 5), "elev": round(rng.uniform(-200, 4000), 2), "dec": rng.choice([0.0, 11.5, -3.25]), "station": rng.choice(["mt01", "a1"]),
                   "survey": rng.choice(["sv", "big"]), "place": rng.choice([None, "here, there"]), "region": rng.choice([None, "sv region"]), "project": rng.choice([None, "proj"]), "author": rng.choice([None, "me"]), "chans": rng.random() < 0.7, "rate": rng.choice([0, 1.0, 8.0]),
                   "azm": rng.choice([0.0, 10.0, 347.5]), "some": rng.random() < 0.8}

    @reg.rt("write and read", gen_write, ["TF.to_emtfxml", "TF.from_emtfxml", "EMTFXML.write", "EMTFXML.read", "TransferFunction.write_block", "TransferFunction.read_block", "EMTFXML.station_metadata", "EMTFXML.survey_metadata"],
            "40 transfer functions, up to 6 periods")
    def writing(m):
        g = np.random.default_rng(m["seed"])
        n = m["n"]
        per = np.sort(10 ** g.uniform(-4, 5, n))
        per = per if m["up"] else per[::-1].copy()
        d = make(m, g, n)
        if m["zeros"]:
            d["z"].real[g.random(d["z"].shape) < 0.2] = 0
            d["z"][g.random(d["z"].shape) < 0.1] = 0
            d["z"][0, 0, 1] = 1 + 1j
        t = TF()
        t.period = per
        if m["cov"]:
            t.inverse_signal_power = d["z_invsigcov"]
            t.residual_covariance = g.normal(size=(n, 3, 3)) + 1j * g.normal(size=(n, 3, 3))
        if m["kind"] != "t":
            t.impedance, t.impedance_error = d["z"], d["z_var"]
        if m["kind"] != "z":
            t.tipper, t.tipper_error = d["t"], d["t_var"]
        st, sv = t.station_metadata, t.survey_metadata
        st.id, st.geographic_name = m["station"], m["place"]
        st.location.latitude, st.location.longitude, st.location.elevation = m["lat"], m["lon"], m["elev"]
        st.location.declination.value = m["dec"]
        st.acquired_by.author = m["author"]
        sv.id, sv.project = m["survey"], m["project"]
        if m["region"]:
            sv.geographic_name = m["region"]
        st.time_period.start, st.time_period.end = "2020-01-02T03:04:05+00:00", "2020-01-03T03:04:05+00:00"
        want = {}
        if m["chans"]:
            r = Run(id=m["station"] + "a", sample_rate=m["rate"])
            r.time_period.start, r.time_period.end = "2020-01-02T03:04:05+00:00", "2020-01-03T03:04:05+00:00"
            for c in ["hx", "hy", "hz", "ex", "ey"]:
                if c == "hz" and (m["kind"] == "z" or not m["some"]):
                    continue
                if c[0] == "e" and m["kind"] == "t":
                    continue
                az = 0.0 if c == "hz" else (m["azm"] + (90.0 if c[1] == "y" else 0.0)) % 360
                ch = (Magnetic if c[0] == "h" else Electric)(component=c, measurement_azimuth=az, translated_azimuth=az)
                if c[0] == "h":
                    ch.location.x, ch.location.y = round(g.uniform(-9, 9), 1), round(g.uniform(-9, 9), 1)
                    want[c] = (az, ch.location.x, ch.location.y)
                else:
                    ch.dipole_length = round(g.uniform(10, 200), 1)
                    ch.negative.x, ch.negative.y, ch.positive.x2, ch.positive.y2 = (round(g.uniform(-90, 90), 1) for _ in range(4))
                    want[c] = (az, ch.negative.x, ch.negative.y, ch.positive.x2, ch.positive.y2, ch.dipole_length)
                r.add_channel(ch)
            st.runs = [r]
        before = {k: None if getattr(t, k) is None else getattr(t, k).data.copy() for k in ("impedance", "impedance_error", "tipper", "tipper_error", "inverse_signal_power", "residual_covariance")}
        with scratch() as where:
            fn = os.path.join(where, "x.xml")
            e = t.to_emtfxml()
            e.write(fn)
            for k, v in before.items():
                now = getattr(t, k)
                require((now is None) == (v is None) and (v is None or np.array_equal(now.data, v)), f"writing changes the {k}")
            u = TF(fn)
            u.read()
            again(t, u, 2e-6)
            if m["cov"]:
                a, b = t.dataset, u.dataset
                for name, o, i in (("inverse_signal_power", ["hx", "hy"], ["hx", "hy"]), ("residual_covariance", ["ex", "ey"], ["ex", "ey"]), ("residual_covariance", ["hz"], ["hz"])):
                    x, y = (q[name].loc[dict(output=o, input=i)].data for q in (a, b))
                    require(all(near(p, w, 2e-6) for p, w in ((y.real, x.real), (y.imag, x.imag))), f"{name} {y[0]} instead of {x[0]}")
            s2, v2 = u.station_metadata, u.survey_metadata
            loc = s2.location
            for nm, a, b in (("latitude", loc.latitude, m["lat"]), ("longitude", loc.longitude, m["lon"]), ("elevation", loc.elevation, m["elev"]), ("declination", loc.declination.value, m["dec"])):
                require(abs(a - b) <= 1e-5, f"{nm} {a} instead of {b}")
            for nm, a, b in (("station", s2.id, m["station"]), ("survey", v2.id, m["region"] or m["survey"]), ("project", v2.project, m["project"]), ("author", s2.acquired_by.author, m["author"]), ("place", s2.geographic_name, m["place"])):
                if b is not None:
                    require(a == b, f"{nm} {a!r} instead of {b!r}")
            require(str(s2.time_period.start)[:19] == "2020-01-02T03:04:05" and str(s2.time_period.end)[:19] == "2020-01-03T03:04:05", f"times {s2.time_period}")
            if want and m["rate"]:
                require([q.id for q in s2.runs] == [m["station"] + "a"] and s2.runs[0].sample_rate == m["rate"], f"runs {[q.id for q in s2.runs]}")
            for c, w in want.items():
                ch = [x.get_channel(c) for x in s2.runs if c in x.channels_recorded_all]
                require(len(ch) == 1, f"channel {c} is in {len(ch)} runs")
                ch = ch[0]
                if c[0] == "h":
                    got = (ch.measurement_azimuth, ch.location.x, ch.location.y)
                else:
                    got = (ch.measurement_azimuth, ch.negative.x, ch.negative.y, ch.positive.x2, ch.positive.y2) + ((ch.dipole_length,) if m["rate"] else ())
                bad = [(a, b) for a, b in zip(got, w) if a is None or abs(a - b) > 2e-3]
                require(not bad, f"channel {c}: {got} instead of {w}")
