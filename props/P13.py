"""Units: names, symbols, products and quotients mean the same unit everywhere they are stored."""

ASSUMPTIONS = ["a unit's part is a word: no white space, slash or bracket in it, and not the word per"]

FIELDS = [
    ("transfer_functions.io.edi.metadata.header", "Header", "units"),
    ("features.feature_decimation_channel", "FeatureDecimationChannel", "units"),
    ("timeseries.filters.filter_base", "FilterBase", "units_in"),
    ("timeseries.filters.filter_base", "FilterBase", "units_out"),
    ("timeseries.channel", "ChannelBase", "units"),
    ("transfer_functions.tf.transfer_function", "TransferFunction", "units"),
    ("transfer_functions.io.edi.metadata.define_measurement", "DefineMeasurement", "units"),
    ("transfer_functions.io.emtfxml.metadata.data_type", "DataType", "units"),
    ("transfer_functions.io.emtfxml.metadata.channels", "Channels", "units"),
    ("processing.fourier_coefficients.fc_channel", "FCChannel", "units"),
    ("transfer_functions.tf.statistical_estimate", "StatisticalEstimate", "units"),
    ("transfer_functions.io.zonge.metadata.unit", "Unit", "length"),
]


def contracts():
    import importlib

    import mt_metadata.common.units as mu
    from pyvc.api import And, Contract, Fold, I, Implies, Not, Or, SymBool, SymNum, SymObj, SymSeq, SymStr, eq, raises, uf, z3
    from pyvc.core import Unsupported, as_z3int, str_z3
    from pyvc.helpers import VList, run_validators, unl

    out = []
    S = z3.StringSort()
    V = z3.StringVal
    ATTRS = ("name", "description", "symbol", "plot_label")

    class patched:
        """module names replaced while a contract runs"""

        def __init__(self, mod=mu, **kw):
            self.mod, self.kw = mod, kw

        def __enter__(self):
            self.old = {k: self.mod.__dict__.get(k, self) for k in self.kw}
            self.mod.__dict__.update(self.kw)

        def __exit__(self, *a):
            for k, v in self.old.items():
                if v is self:
                    self.mod.__dict__.pop(k, None)
                else:
                    self.mod.__dict__[k] = v

    # -------------------------------------------------- the first separator
    def h_sep(p):
        s = p.string("s")
        r = mu.find_separator(s)
        at = {x: z3.IndexOf(s.e, V(x), 0) for x in ("/", " per ", " ")}
        if r is None:
            p.check("none only when there is none", SymBool(z3.And(*[v < 0 for v in at.values()])))
            return
        p.check("it is a separator", r in at)
        p.check("it is in the text", SymBool(at[r] >= 0))
        p.check("none comes before it", SymBool(z3.And(*[z3.Or(v < 0, v >= at[r]) for v in at.values()])))
        if r == " ":
            p.check("a space only when no per is there", SymBool(at[" per "] != at[" "]))

    out.append(Contract("first separator", "find_separator", h_sep, replay=("texts", lambda q: {"text": q["s"]})))

    # --------------------------------------------------------------- a text
    class Words(SymStr):
        """a text of literals and words of unknown content"""

        __slots__ = ("parts",)

        def __init__(self, parts):
            out = []
            for x in parts:
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                elif x != "" if isinstance(x, str) else True:
                    out.append(x)
            self.parts = tuple(out)
            es = [V(x) if isinstance(x, str) else x.e for x in out] or [V("")]
            SymStr.__init__(self, z3.Concat(*es) if len(es) > 1 else es[0])

        @staticmethod
        def of(x):
            return x.parts if isinstance(x, Words) else (x,) if isinstance(x, str) else None

        def __eq__(self, o):
            if isinstance(o, str):
                if all(isinstance(x, str) for x in self.parts):
                    return "".join(self.parts) == o
                if len(self.parts) == 1 and (o == "" or any(ch in o for ch in " \t/[]")):
                    return False
            return SymStr.__eq__(self, o)

        __hash__ = None

        def __ne__(self, o):
            r = self.__eq__(o)
            return not r if isinstance(r, bool) else Not(r)

        def __add__(self, o):
            b = Words.of(o)
            return SymStr.__add__(self, o) if b is None else Words(self.parts + b)

        def __radd__(self, o):
            b = Words.of(o)
            return SymStr.__radd__(self, o) if b is None else Words(b + self.parts)

        def __bool__(self):
            return bool(self.parts)

        def separators_only(self, a):
            if not isinstance(a, str) or a.strip(" \t/[]") not in ("", "per") or a.strip() == "per" and a == a.strip():
                raise Unsupported(f"text {a!r} sought in words")

        def replace(self, a, b):
            self.separators_only(a)
            return Words([x.replace(a, b) if isinstance(x, str) else x for x in self.parts])

        def find(self, a):
            self.separators_only(a)
            before = z3.IntVal(0)
            for x in self.parts:
                if isinstance(x, str):
                    k = x.find(a)
                    if k >= 0:
                        return SymNum(z3.simplify(before + k))
                    before = before + len(x)
                else:
                    before = before + z3.Length(x.e)
            return -1

        def strip(self, *a):
            if a:
                raise Unsupported("strip(chars)")
            q = list(self.parts)
            if q and isinstance(q[0], str):
                q[0] = q[0].lstrip()
            if q and isinstance(q[-1], str):
                q[-1] = q[-1].rstrip()
            return Words(q)

        def split(self, sep=None, maxsplit=-1):
            groups = [[]]
            if sep is not None:
                self.separators_only(sep)
            for x in self.parts:
                if not isinstance(x, str):
                    groups[-1].append(x)
                    continue
                if sep is None:
                    bits = [x] if x == x.strip() and len(x.split()) == 1 else None
                    if bits is None:
                        for ch in x:
                            if ch.isspace():
                                groups.append([])
                            else:
                                groups[-1].append(ch)
                        continue
                else:
                    left = maxsplit if maxsplit < 0 else maxsplit - (len(groups) - 1)
                    bits = [x] if left == 0 else x.split(sep, left)
                groups[-1].append(bits[0])
                groups += [[b] for b in bits[1:]]
            if sep is None:
                groups = [g for g in groups if g]
                if maxsplit != -1 and len(groups) > maxsplit + 1:
                    raise Unsupported("split with a limit")
            return VList([Words(g) for g in groups])

        def __getitem__(self, k):
            raise Unsupported("characters of a text of words")

        def __format__(self, spec):
            raise Unsupported("format")

    GAPS = {"/": "/", " per ": "per", " ": " ", " / ": "/", "  ": " ", "  per ": "per", "/ ": "/"}

    def mk_parse(n, gaps, styles):
        def h(p):
            words = []
            for k in range(n):
                w = SymStr(p.string(f"unit{k}").e)
                p.add(z3.And(z3.Length(w.e) >= 1, *[z3.Not(z3.Contains(w.e, V(ch))) for ch in " /[]"], w.e != V("per")))
                words.append(w)
            used = [list(gaps)[p.choose(len(gaps), f"gap {k}")] for k in range(n - 1)]
            style = p.choose(len(styles), "brackets")
            parts = []
            for k, w in enumerate(words):
                if styles[style] == "each":
                    parts += ["[", w, "]"]
                elif styles[style] == "rest" and k == 1:
                    parts += ["[", w]
                else:
                    parts += [w]
                if styles[style] == "rest" and n > 1 and k == n - 1:
                    parts += ["]"]
                if k < n - 1:
                    parts.append(used[k])
            if styles[style] == "spaces":
                parts = ["  "] + parts + [" "]
            r = mu.parse_unit_string(Words(parts))
            r = list(unl(r))
            p.check("one entry per unit", len(r) == n)
            for k, (e, w) in enumerate(zip(r, words)):
                p.check(f"unit {k} by its name", eq(e["name"], w))
                if k:
                    sep = e["sep"]
                    got = "/" if isinstance(sep, str) and sep.strip() in ("/", "per") else " " if sep == " " else None
                    p.check(f"unit {k} follows by its separator", got == ("/" if used[k - 1].strip() in ("/", "per") else " "))

        return h

    for n, gaps, styles in ((1, [" "], ["none", "each", "spaces"]), (2, list(GAPS), ["none", "each", "spaces"]), (3, list(GAPS), ["none", "rest"]), (4, ["/", " per ", " "], ["none"])):
        out.append(Contract(f"a text of {n} units", ["parse_unit_string", "find_separator"], mk_parse(n, gaps, styles), bounded=f"{n} units of any name, {len(gaps)} ways to separate them"))

    def h_notext(p):
        x = [None, 5, ["m"], 2.5][p.choose(4, "what")]
        p.check("something else is refused", isinstance(raises(p, lambda: mu.parse_unit_string(x)), TypeError))
        e = ["", " ", "/", "[]", " / "][p.choose(5, "empty")]
        p.check("a text without a unit is refused", isinstance(raises(p, lambda: mu.parse_unit_string(e)), ValueError))

    out.append(Contract("no text", "parse_unit_string", h_notext))

    # -------------------------------------------------------- combining two
    def unit(p, label):
        return mu.Unit.model_construct(**{a: p.string(f"{label}.{a}") for a in ATTRS})

    def joined(a, b, quotient):
        res = {}
        for n in ATTRS:
            sep = (" per " if quotient else " ") if n in ("name", "description") else ("/" if quotient else " ")
            res[n] = z3.Concat(str_z3(getattr(a, n)), V(sep), str_z3(getattr(b, n)))
        return res

    def h_combine(p):
        a, b = unit(p, "a"), unit(p, "b")
        sep = ["/", "per", " per ", " "][p.choose(4, "separator")]
        before = {n: (getattr(a, n), getattr(b, n)) for n in ATTRS}
        r = a.combine(b, separator=sep) if p.choose(2, "given") or sep != "/" else a.combine(b)
        want = joined(a, b, sep != " ")
        for n in ATTRS:
            p.check(f"{n} of both in order", SymBool(str_z3(getattr(r, n)) == want[n]))
        p.check("neither is changed", r is not a and r is not b and all(getattr(a, n) is v[0] and getattr(b, n) is v[1] for n, v in before.items()))

    out.append(Contract("combining two units", "Unit.combine", h_combine))

    def h_combine_bad(p):
        a = unit(p, "a")
        x = ["m", None, {"name": "m"}][p.choose(3, "what")]
        p.check("only units combine", isinstance(raises(p, lambda: a.combine(x)), TypeError))

    out.append(Contract("combining with something else", "Unit.combine", h_combine_bad))

    # -------------------------------------------------------- the unit table
    from pyvc.core import _LOWER

    COL = {a: uf(f"table.{a}", I, S) for a in ATTRS}

    class Mask:
        def __init__(self, f):
            self.f = f

        def __or__(self, o):
            return Mask(lambda k: z3.Or(self.f(k), o.f(k)))

        def __and__(self, o):
            return Mask(lambda k: z3.And(self.f(k), o.f(k)))

    class Col:
        def __init__(self, f):
            self.f = f

        @property
        def str(self):
            c = self

            class Text:
                def lower(self):
                    return Col(lambda k: _LOWER(c.f(k)))

            return Text()

        def __eq__(self, o):
            e = str_z3(o)
            return Mask(lambda k: self.f(k) == e)

        __hash__ = None

    class Row:
        def __init__(self, k):
            self.k = k

        def to_dict(self):
            return {a: SymStr(COL[a](self.k)) for a in ATTRS}

        def __getitem__(self, a):
            return SymStr(COL[a](self.k))

    class Table:
        def __init__(self, p, n, mask=None):
            self.p, self.n, self.mask = p, n, mask
            if mask is not None:
                self.first = z3.Int(p.fresh("first"))
                self.none = z3.Bool(p.fresh("none"))
                p.add(z3.Or(self.none, z3.And(self.first >= 0, self.first < n, mask.f(self.first))))
                self.know(self.first)
                for k in p.ufapps.get("indices", ()):
                    self.know(k)

        def know(self, k):
            """a row chosen is the first one, and there is one when one holds"""
            self.p.add(z3.Implies(z3.And(k >= 0, k < self.n, self.mask.f(k)), z3.And(z3.Not(self.none), self.first <= k)))

        def __getitem__(self, k):
            if isinstance(k, str):
                if self.mask is not None:
                    raise Unsupported("column of a selection")
                return Col(COL[k])
            if isinstance(k, Mask) and self.mask is None:
                return Table(self.p, self.n, k)
            raise Unsupported("table subscript")

        @property
        def empty(self):
            return SymBool(self.none)

        @property
        def iloc(self):
            t = self

            class Loc:
                def __getitem__(self, i):
                    if i != 0:
                        raise Unsupported("other rows")
                    if t.p.branch(t.none):
                        raise IndexError("single positional indexer is out-of-bounds")
                    return Row(t.first)

            return Loc()

    def h_df(p):
        n = z3.Int(p.fresh("n"))
        p.add(n >= 0)
        v = p.string("value")
        allow = bool(p.choose(2, "unknown allowed"))
        k = z3.Int(p.fresh("k"))
        p.add(z3.And(k >= 0, k < n))
        p.ufapps.setdefault("indices", []).append(k)
        exact = lambda j: z3.Or(_LOWER(COL["name"](j)) == _LOWER(v.e), COL["symbol"](j) == v.e)
        loose = lambda j: z3.And(z3.Length(v.e) == 1, _LOWER(COL["symbol"](j)) == _LOWER(v.e))
        p.trusted("pandas: selecting by a mask keeps exactly the rows where it holds, in order")
        with patched(UNITS_DF=Table(p, n)):
            try:
                r = mu.get_unit_from_df(v, allow_none=allow)
            except KeyError:
                p.check("an error only when unknown units are not allowed", not allow)
                p.check("and no unit has this name or symbol", SymBool(z3.Not(z3.Or(exact(k), loose(k)))))
                p.cover("unknown")
                return
        if isinstance(r.name, str):
            p.check("unknown when allowed", allow and r.name == "unknown" and r.symbol == "unknown")
            p.check("and no unit has this name or symbol", SymBool(z3.Not(z3.Or(exact(k), loose(k)))))
            return
        p.cover("found")
        e = r.name.e
        p.check("the result is a row of the table", z3.is_app(e) and e.decl().name() == COL["name"].name())
        row = e.arg(0)
        p.check("all of it", SymBool(z3.And(row >= 0, row < n, *[str_z3(getattr(r, a)) == COL[a](row) for a in ATTRS])))
        p.check("it has this name in any case or this symbol, a single letter in any case",
                SymBool(z3.Or(exact(row), loose(row))))
        p.check("the first one so named", SymBool(z3.Implies(z3.And(exact(k), exact(row)), row <= k)))
        p.check("an exact symbol comes before one in another case", SymBool(z3.Implies(exact(k), exact(row))))

    out.append(Contract("a unit of the table", "get_unit_from_df", h_df))

    # ------------------------------------------------------- any unit's text
    UN = {a: uf(f"unit.{a}", S, S) for a in ATTRS}

    def h_object(p):
        s = p.string("text")
        n = p.int("n").e
        p.add(n >= 1)
        NM, SP, SUB = uf("part.name", I, S), uf("part.sep", I, S), uf("re.sub", S, S)
        FO = {a: uf(f"fold.{a}", I, S) for a in ATTRS}
        allow = bool(p.choose(2, "unknown allowed"))
        asked, parsed = [], []

        def of(name):
            return mu.Unit.model_construct(**{a: SymStr(UN[a](str_z3(name))) for a in ATTRS})

        def get(value, allow_none=True):
            asked.append((value, allow_none))
            return of(value)

        def parse(text):
            parsed.append(text)
            lst = VList()
            lst.sym = SymSeq(SymNum(n), lambda i: {"name": SymStr(NM(as_z3int(i))), "sep": SymStr(SP(as_z3int(i)))}, "parts")
            return lst

        class Re:
            IGNORECASE = I = 2

            @staticmethod
            def sub(pattern, repl, text, count=0, flags=0):
                p.trusted("re.sub is a function of its text")
                return SymStr(SUB(str_z3(text)))

        per = lambda k: z3.Or(*[SP(k) == V(x) for x in ("/", "per", " per ")])

        def step(i):
            for a in ATTRS:
                sep = z3.If(per(i + 1), V(" per "), V(" ")) if a in ("name", "description") else z3.If(per(i + 1), V("/"), V(" "))
                yield SymBool(FO[a](i + 1) == z3.Concat(FO[a](i), sep, UN[a](NM(i + 1))))

        for a in ATTRS:
            p.add(FO[a](z3.IntVal(0)) == UN[a](NM(z3.IntVal(0))))
        same = lambda x, y: And(*[SymBool(str_z3(getattr(x, a)) == str_z3(getattr(y, a))) for a in ATTRS])
        p.loop_specs["*"] = [Fold("the units so far joined", lambda i: mu.Unit.model_construct(**{a: SymStr(FO[a](as_z3int(i))) for a in ATTRS}), step, equal=same)]
        with patched(get_unit_from_df=get, parse_unit_string=parse, re=Re):
            r = mu.get_unit_object(s, allow_none=allow)
        p.check("unknown units are handled as asked", all(x[1] is allow for x in asked))
        if not parsed:
            if not asked:
                p.check("only an empty text is unknown", SymBool(s.e == V("")))
                p.check("it is unknown", r.name == "unknown")
                return
            p.check("only digital counts are special", SymBool(z3.Or(*[_LOWER(s.e) == V(x) for x in ("digital counts", "counts", "digital count")])))
            p.check("they are looked up by name", asked[-1][0] == "digital counts" or eq(asked[-1][0], "digital counts"))
            return
        p.check("the text is read", Or(eq(parsed[0], s), SymBool(parsed[0].e == SUB(s.e)) if isinstance(parsed[0], SymStr) else False))
        for a in ATTRS:
            p.check(f"the {a} is the parts' joined in order", SymBool(str_z3(getattr(r, a)) == FO[a](n - 1)))

    out.append(Contract("any text", ["get_unit_object", "Unit.combine"], h_object))

    def h_none(p):
        r = mu.get_unit_object(None if p.choose(2, "none") else "", allow_none=bool(p.choose(2, "unknown allowed")))
        p.check("no unit is unknown", r.name == "unknown" and r.symbol == "unknown")

    out.append(Contract("no unit", "get_unit_object", h_none))

    # ----------------------------------------------------- fields with units
    def mk_field(modname, cname, field):
        mod = importlib.import_module("mt_metadata." + modname)
        cls = getattr(mod, cname)

        def h(p):
            s = p.string("text")
            known = bool(p.choose(2, "known"))
            asked = []

            def get(value, allow_none=True):
                asked.append(value)
                if not known:
                    raise KeyError("unit") if p.choose(2, "how") else ValueError("unit")
                return mu.Unit.model_construct(**{a: SymStr(UN[a](str_z3(value))) for a in ATTRS})

            with patched(mod, get_unit_object=get):
                try:
                    r = run_validators(cls, field, s, {})
                except KeyError:
                    p.check("an error only when there is no such unit", not known)
                    return
            if not asked:
                p.check("only an empty text is kept", And(SymBool(s.e == V("")), eq(r, "")))
                return
            p.check("no error is hidden", known)
            meter = And(cname == "DefineMeasurement", eq(asked[0], "m"))
            p.check("the unit is sought by the text", Or(eq(asked[0], s), meter))
            a = "symbol" if cname == "DataType" else "name"
            p.check(f"its {a} is stored", SymBool(str_z3(r) == UN[a](str_z3(asked[0]))))

        return Contract(f"units of {cname}.{field}", f"{cname}.validate_units", h)

    for f in FIELDS:
        out.append(mk_field(*f))
    return out


SI = {"": "", "yotta": "Y", "zetta": "Z", "exa": "E", "peta": "P", "tera": "T", "giga": "G", "mega": "M", "kilo": "k", "hecto": "h", "deca": "da", "deci": "d", "centi": "c",
      "milli": "m", "micro": "\u03bc", "nano": "n", "pico": "p", "femto": "f", "atto": "a", "zepto": "z", "yocto": "y"}
BASE = {"meter": "m", "kilogram": "kg", "second": "s", "ampere": "A", "kelvin": "K", "mole": "mol", "candela": "cd", "radian": "rad", "hertz": "Hz", "newton": "N", "joule": "J",
        "watt": "W", "pascal": "Pa", "coulomb": "C", "volt": "V", "ohm": "\u03a9", "siemens": "S", "weber": "Wb", "tesla": "T", "henry": "H"}
OTHER = {"samples": "samples", "celsius": "C", "unknown": "unknown"}


def runtime(reg):
    import importlib
    import unicodedata

    from loguru import logger

    import mt_metadata.common.units as mu
    from pyvc.rt import Skip, require

    logger.remove()
    ALL = {p + u: (SI[p] + s) for p in SI for u, s in BASE.items()}
    ALL.update(OTHER)
    # the first unit listed with a symbol is the one it means
    BYSYM = {}
    for nm in [*OTHER, *(p + u for p in SI for u in BASE)]:
        BYSYM.setdefault(ALL[nm], nm)
    BYSYM["count"] = BYSYM["counts"] = "digital counts"
    nf = lambda s: unicodedata.normalize("NFKC", s)

    def meaning(w):
        """the unit a word means: (name in lower case, symbol), None for an unknown one"""
        if w.lower() in ("digital counts", "digital count", "counts", "count"):
            return "digital counts", None
        if w.lower() in ALL:
            return w.lower(), ALL[w.lower()]
        if w in BYSYM:
            return BYSYM[w], w
        if len(w) == 1:
            order = [*OTHER, *(p + u for p in SI for u in BASE)]
            hit = [n for n in order if ALL[n].lower() == w.lower()]
            if hit:
                return hit[0], ALL[hit[0]]
        return None

    def agrees(u, w, m):
        require(u.name.lower() == m[0], f"{w!r} is read as {u.name!r} instead of {m[0]!r}")
        if m[1] is not None:
            require(nf(u.symbol) == nf(m[1]), f"{w!r} has the symbol {u.symbol!r} instead of {m[1]!r}")
            if m[0] not in OTHER:
                require(nf(u.plot_label) == nf(m[1]), f"{w!r} has the label {u.plot_label!r} instead of {m[1]!r}")
        else:
            require(u.symbol in ("count", "counts"), f"{w!r} has the symbol {u.symbol!r}")
        require(bool(u.description), f"{w!r} has no description")

    # -------------------------------------------------- every unit there is
    def gen_all(rng, tier):
        for nm, sy in ALL.items():
            for w in dict.fromkeys([nm, nm.upper(), nm.capitalize(), sy, " " + nm + " ", f"[{sy}]"]):
                yield {"text": w}
        for w in ("digital counts", "Digital Counts", "counts", "COUNTS", "count", "digital count", "v", "t", "M", "h", "j", "w", "k", "a"):
            yield {"text": w}
        for w in ("ft", "mv", "nt", "KM", "meters", "inch", "hz", "unit", "xyz", "0", "\u00b5V", "q", "milli", "perm", "mper"):
            yield {"text": w}

    @reg.rt("texts", gen_all, ["get_unit_object", "get_unit_from_df"], "every unit by name in three cases, symbol, brackets; unknown ones")
    def texts(text):
        w = text.replace("[", "").replace("]", "").strip()
        if not isinstance(text, str) or any(ch in w for ch in " /\t\n") and w.lower() not in ("digital counts", "digital count") or not w:
            raise Skip
        m = meaning(w)
        if m is None:
            u = mu.get_unit_object(text)
            require(u.name == "unknown" and u.symbol == "unknown", f"{text!r} is read as {u.name!r}")
            try:
                u = mu.get_unit_object(text, allow_none=False)
            except KeyError:
                return
            require(False, f"{text!r} is accepted as {u.name!r}")
        for allow in (True, False):
            agrees(mu.get_unit_object(text, allow_none=allow), text, m)

    # ------------------------------------------------ products and quotients
    WORDS = list(ALL) + list(BYSYM)
    SEPS = ["/", " per ", " ", " / ", "  per ", "  ", "/ ", " per  ", " /"]

    def gen_comp(rng, tier):
        for _ in range(500 if tier == "quick" else 6000):
            n = rng.randint(1, 4)
            ws = []
            for _ in range(n):
                w = rng.choice(["millivolt", "mV", "nT", "km", "digital counts", "Digital Counts", "m", "V", "ohm", "celsius", "samples", "second", "T"]) if rng.random() < .5 else rng.choice(WORDS)
                if w in ALL and rng.random() < .3:
                    w = rng.choice([w.upper(), w.capitalize()])
                ws.append("unknownish" if rng.random() < .04 else w)
            yield {"words": ws, "seps": [rng.choice(SEPS) for _ in range(n - 1)], "style": rng.choice(["", "", "each", "rest", "spaces"])}

    def written(words, seps, style):
        t = ""
        for k, w in enumerate(words):
            t += f"[{w}]" if style == "each" else ("[" if style == "rest" and k == 1 else "") + w
            t += seps[k] if k < len(seps) else ""
        if style == "rest" and len(words) > 1:
            t += "]"
        return f"  {t} " if style == "spaces" else t

    def wanted(words, seps):
        ms = [meaning(w) for w in words]
        name = "unknown" if ms[0] is None else ms[0][0]
        sym = ["unknown"] if ms[0] is None else [ms[0][1]] if ms[0][1] else ["count", "counts"]
        for m, s in zip(ms[1:], seps):
            q = s.strip() in ("/", "per")
            name += (" per " if q else " ") + ("unknown" if m is None else m[0])
            sym = [a + ("/" if q else " ") + b for a in sym for b in (["unknown"] if m is None else [m[1]] if m[1] else ["count", "counts"])]
        return name, sym, ms

    @reg.rt("products and quotients", gen_comp, ["get_unit_object", "parse_unit_string", "Unit.combine"], "500 texts of 1 to 4 units")
    def comp(words, seps, style):
        t = written(words, seps, style)
        name, sym, ms = wanted(words, seps)
        u = mu.get_unit_object(t)
        require(u.name.lower() == name, f"{t!r} is read as {u.name!r} instead of {name!r}")
        require(nf(u.symbol) in [nf(s) for s in sym], f"{t!r} has the symbol {u.symbol!r} instead of {sym[0]!r}")
        if None in ms:
            try:
                mu.get_unit_object(t, allow_none=False)
            except KeyError:
                return
            require(False, f"{t!r} is accepted though a part is unknown")
        # its name denotes the same unit again, and so does its symbol (but for symbols of two units)
        v = mu.get_unit_object(u.name, allow_none=False)
        require(v.name == u.name, f"the name {u.name!r} is read back as {v.name!r}")
        require(v.symbol.replace("counts", "count") == u.symbol.replace("counts", "count"), f"the symbol of {u.name!r} was {u.symbol!r}, read back it is {v.symbol!r}")
        if not any(m[0].endswith("coulomb") and m[1] == "C" for m in ms):
            v = mu.get_unit_object(u.symbol, allow_none=False)
            require(v.name == u.name, f"the symbol {u.symbol!r} of {u.name!r} is read back as {v.name!r}")

    # ------------------------------------------------------ fields with units
    def gen_fields(rng, tier):
        for i in gen_comp(rng, tier):
            yield {**i, "field": rng.randrange(len(FIELDS)), "empty": rng.random() < .05}

    import functools

    import pyproj

    pyproj.CRS.from_user_input = functools.lru_cache(None)(pyproj.CRS.from_user_input)
    from mt_metadata.timeseries import Auxiliary, Electric, Magnetic
    from mt_metadata.timeseries.filters import CoefficientFilter, FIRFilter, FrequencyResponseTableFilter, PoleZeroFilter, TimeDelayFilter

    SUB = {"ChannelBase": [(Electric, "ex"), (Magnetic, "hx"), (Auxiliary, "temperature")],
           "FilterBase": [(c, None) for c in (CoefficientFilter, FIRFilter, FrequencyResponseTableFilter, PoleZeroFilter, TimeDelayFilter)]}

    @reg.rt("fields", gen_fields, ["*.validate_units"], "500 texts set in the fields of 12 classes")
    def fields(words, seps, style, field, empty):
        mod, cname, f = FIELDS[field]
        t = "" if empty else written(words, seps, style)
        cls = getattr(importlib.import_module("mt_metadata." + mod), cname)
        objs = [cls()] if cname not in SUB else [c(component=x) if x else c(name="f") for c, x in SUB[cname]]
        name, sym, ms = wanted(words, seps)
        for o in objs:
            said = f"{type(o).__name__}.{f} = {t!r}"
            old = getattr(o, f)
            if cname == "FilterBase" and not empty and None in ms:
                try:
                    setattr(o, f, t)
                except Exception:
                    require(getattr(o, f) == old, f"{said} failed and left {getattr(o, f)!r}")
                    continue
                require(False, f"{said} was accepted")
            setattr(o, f, t)
            got = getattr(o, f)
            if empty:
                require(got in ("", "unknown") and (got == "" or cname == "FilterBase"), f"{said} reads {got!r}")
                continue
            if cname == "DataType":
                require(nf(got) in [nf(s) for s in sym], f"{said} reads {got!r} instead of {sym[0]!r}")
                if any(m and m[0].endswith("coulomb") and m[1] == "C" for m in ms):
                    continue
            else:
                require(got.lower() == name, f"{said} reads {got!r} instead of {name!r}")
            # set again as stored, and through a dictionary, it stays
            setattr(o, f, got)
            require(getattr(o, f).replace("counts", "count") == got.replace("counts", "count"), f"{said} reads {got!r}; set again {getattr(o, f)!r}")
            if cname == "ChannelBase":
                d = type(o)(component=o.component)
                d.from_dict(o.to_dict())
                require(d.units == got, f"{said} reads {got!r}; from a dictionary {d.units!r}")
                u = o.unit_object
                require(u.name == got and nf(u.symbol) in [nf(s) for s in sym], f"{said}: unit object {u.name!r} {u.symbol!r}")
            if cname == "FilterBase":
                u = getattr(o, f + "_object")
                require(u.name == got and nf(u.symbol) in [nf(s) for s in sym], f"{said}: unit object {u.name!r} {u.symbol!r}")
