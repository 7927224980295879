"""Writing metadata to dictionaries, JSON, XML, series and reading it back."""


def contracts():
    import enum

    import mt_metadata.base.helpers as mh
    import mt_metadata.base.metadata as mm
    from mt_metadata import NULL_VALUES
    from pyvc.api import And, Borrow, Contract, Implies, Inv, Not, Or, SymBool, SymNum, SymObj, SymSeq, SymStr, Unsupported, eq, raises, z3
    from pyvc.helpers import VDict, VList, VOD, unl
    from pyvc.mapmodel import SymOD

    S, I, B, R = z3.StringSort(), z3.IntSort(), z3.BoolSort(), z3.RealSort()
    out = []
    MB = mm.MetadataBase
    DEF = "1980-01-01T00:00:00+00:00"

    class stubs:
        """replace module or class attributes while a contract runs"""

        def __init__(self, *rep):
            self.rep = rep

        def __enter__(self):
            self.old = [(o, n, getattr(o, n)) for o, n, _ in self.rep]
            for o, n, v in self.rep:
                setattr(o, n, v)

        def __exit__(self, *a):
            for o, n, v in self.old:
                setattr(o, n, v)

    class Color(enum.Enum):
        a = "some option"

    class Opaque:
        """a value known by its identity only"""

        def __init__(self, tag, e):
            self.tag, self.e = tag, e

    class Nested(Opaque):
        def to_dict(self, **k):
            return Opaque(("written", tuple(sorted((a, str(b)) for a, b in k.items()))), self.e)

    class Sized(Opaque):
        @property
        def size(self):
            return SymNum(z3.Function("size", S, I)(self.e))

    NAMES = ["none", "text", "number", "flag", "enum", "nested object", "sized object", "empty list", "other object"]
    KIND = z3.Function("kind", S, I)
    TEXT, NUM = z3.Function("text", S, S), z3.Function("number", S, R)
    REQ, COORD, CONV = (z3.Function(n, S, B) for n in ("required", "coordinate", "texty"))

    def same(a, b):
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return And(type(a) is type(b), a.tag == b.tag, SymBool(a.e == b.e))
        if a is None or b is None or isinstance(a, Opaque) or isinstance(b, Opaque):
            return a is b
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            return isinstance(a, list) and isinstance(b, list) and list(a) == list(b)
        if isinstance(a, (str, SymStr)) != isinstance(b, (str, SymStr)):
            return False
        return eq(a, b)

    def kind_of(p, e):
        for k in range(len(NAMES) - 1):
            if p.branch(KIND(e) == k):
                return k
        return len(NAMES) - 1

    def attr(p, e):
        k = kind_of(p, e)
        return [lambda: None, lambda: SymStr(TEXT(e)), lambda: SymNum(NUM(e)), lambda: True, lambda: Color.a,
                lambda: Nested("obj", e), lambda: Sized("sized", e), lambda: [], lambda: Opaque("other", e)][k]()

    # ------------------------------------------------ writing a dictionary
    def h_to_dict(p):
        required = bool(p.choose(2, "required"))
        nested = bool(p.choose(2, "nested"))
        single = bool(p.choose(2, "single"))
        ISN, POS = z3.Function("isname", S, B), z3.Function("position", S, I)
        nm = z3.Function("names", I, S)
        n = z3.Int("names.n")
        p.assume(n >= 0)

        def name(i):
            p.fact(z3.Implies(z3.And(i >= 0, i < n), z3.And(ISN(nm(i)), POS(nm(i)) == i, z3.Not(z3.Contains(nm(i), ".value")))))
            return SymStr(nm(i))

        def known(e):
            p.fact(z3.Implies(ISN(e), z3.And(POS(e) >= 0, POS(e) < n, nm(POS(e)) == e)))

        kw = tuple(sorted({"nested": str(nested), "required": str(required)}.items()))

        def written(e):
            v = attr(p, e)
            if isinstance(v, Nested):
                return Opaque(("written", kw), e)
            if isinstance(v, Color):
                return v.value
            return v

        def rule(e):
            """is the attribute listed"""
            if not required:
                return z3.BoolVal(True)
            k = KIND(e)
            return z3.Or(z3.And(k != 6, z3.Or(REQ(e), COORD(e), CONV(e))), z3.And(k != 0, k != 1, k != 6, k != 7),
                         z3.And(k == 1, TEXT(e) != DEF, TEXT(e) != "1980", TEXT(e) != ""),
                         z3.And(k == 6, z3.Function("size", S, I)(e) > 0))

        def stored(e):
            v = written(e)
            if required and v is None:
                if p.branch(COORD(e)):
                    return 0.0
                if p.branch(CONV(e)):
                    return ""
            return v

        class Req:
            def __contains__(self, x):
                return bool(SymBool(REQ(x.e)))

        class Station(Borrow):

            _real = MB

            _required_fields = Req()

            def get_attribute_list(self):
                return SymSeq(SymNum(n), name, "names")

            def get_attr_from_name(self, x):
                return attr(p, x.e)

        me = Station()
        held = lambda e: Opaque("stored", e)  # stands for the value stored for e in an earlier round

        def closed(i):
            def has(k):
                known(k)
                return z3.And(ISN(k), POS(k) < i, rule(k))
            return has

        def spec(L, loc, names):
            ds = [x for x in loc.values() if type(x) in (VDict, VOD)]
            if len(ds) != 1:
                raise Unsupported("no single dictionary under construction")
            d = ds[0]

            def inv(i, env):
                if z3.is_int_value(i):
                    return d.sym is None and dict.__len__(d) == 0
                if i is L.i:
                    return True
                x = z3.String(p.fresh("x"))
                has = d.sym.has(x)
                want = closed(i)(x)
                p.check("after each attribute: exactly the attributes seen so far that are to be listed are listed", SymBool(has == want))
                if p.branch(x == nm(L.i)):
                    return Implies(SymBool(want), same(d.sym.val(nm(L.i)), stored(nm(L.i))))
                return Implies(SymBool(want), same(d.sym.val(x), held(x)))

            def havoc(i, env):
                g = SymOD(p.fresh("written"), held, pytype=dict)
                n_, key, pos, _, val = g.state()
                g.set_state((n_, key, pos, closed(i), val))
                d.sym = g
                return {}

            iv = Inv("attributes written", [], havoc, inv)
            iv.may_modify = lambda x: x is d
            return iv

        p.loop_specs["*"] = spec
        made = []

        def structure(d, sep="."):
            r = SymOD(p.fresh("structured"), lambda k: Opaque("structured", k), pytype=dict)
            made.append((unl(d), sep, r.copy()))
            return r

        with stubs((mh, "structure_dict", structure), (mh, "_should_include_coordinate_field", lambda x: SymBool(COORD(x.e))),
                   (mh, "_should_convert_none_to_empty_string", lambda x: SymBool(CONV(x.e)))):
            r = MB.to_dict(me, nested=nested, single=single, required=required)
        if not single:
            p.check("one entry, under the class name", isinstance(r, dict) and list(r) == ["station"])
            if not (isinstance(r, dict) and list(r) == ["station"]):
                return
            r = r["station"]
        r = unl(r)
        x = z3.String(p.fresh("x"))
        if nested:
            p.check("nested form: built once from the flat form", len(made) == 1)
            flat, sep, res = made[0]
            p.check("nested form: split at the dots", sep == ".")
            p.check("nested form: everything is returned", And(SymBool(r.has(x) == res.has(x)), Implies(SymBool(res.has(x)), same(r.val(x), res.val(x)))))
        else:
            flat = r
        p.check("an attribute is listed exactly when it is to be listed", SymBool(flat.has(x) == closed(n)(x)))
        p.check("with the value stored for it", Implies(SymBool(closed(n)(x)), same(flat.val(x), held(x))))

    out.append(Contract("writing a dictionary", "MetadataBase.to_dict", h_to_dict))

    # ------------------------------------------------ lists, dictionaries and nested objects as values
    def h_values(p):
        nested, required = bool(p.choose(2, "nested")), bool(p.choose(2, "required"))
        what = ["list", "dict", "object", "enum"][p.choose(4, "value")]
        n = z3.Int("values.n")
        p.assume(n > 0)
        kw = tuple(sorted({"nested": str(nested), "required": str(required)}.items()))
        EK = z3.Function("element", I, I)

        def elem(i):
            if p.branch(EK(i) == 0):
                return Nested("obj", z3.Function("nm", I, S)(i))
            if p.branch(EK(i) == 1):
                return Color.a
            return SymNum(z3.Function("num", I, R)(i))

        def welem(v):
            if isinstance(v, Nested):
                return Opaque(("written", kw), v.e)
            return v.value if isinstance(v, Color) else v

        KK = z3.Function("keynum", S, I)
        if what == "list":
            value = SymSeq(SymNum(n), elem, "list")
        elif what == "dict":
            value = SymOD("dictvalue", lambda k: elem(KK(k)), n=n, pytype=dict)
            ver = value.version()
        elif what == "object":
            value = Nested("obj", z3.StringVal("x"))
        else:
            value = Color.a

        class Station(Borrow):

            _real = MB

            _required_fields = []

            def get_attribute_list(self):
                return ["id", "members"]

            def get_attr_from_name(self, x):
                return value if x == "members" else "id"

        def spec(L, loc, names):
            if what == "list":
                from pyvc.helpers import Collect

                return Collect("each element is written", lambda i: welem(elem(i)), equal=same)
            news = [x for x in loc.values() if type(x) in (VDict, VOD) and x.sym is None and len(x) == 0]
            if not news:
                raise Unsupported("no dictionary under construction")
            ghost = {}

            def inv(i, env):
                if z3.is_int_value(i):
                    return True
                if i is L.i:
                    return True
                k = value.key(L.i)
                hit = [d for d in ghost["d"] if d.sym is not None and d.sym.ver != ghost["ver"][id(d)]]
                if len(hit) != 1:
                    return False
                d = hit[0].sym
                return And(SymBool(d.has(k)), same(d.val(k), welem(elem(KK(k)))))

            def havoc(i, env):
                ghost["d"], ghost["ver"] = news, {}
                for d in news:
                    g = SymOD(p.fresh("made"), lambda k: Opaque("made", k), pytype=dict)
                    _, key, pos, has, val = value.state()
                    g.set_state((i, key, pos, lambda k: z3.And(has(k), pos(k) < i), val_of(val)))
                    d.sym = g
                    ghost["ver"][id(d)] = g.ver
                return {}

            def val_of(val):
                return lambda k: Opaque("member", k)

            iv = Inv("each entry is written", [], havoc, inv)
            iv.may_modify = lambda x: any(x is d for d in news)
            return iv

        p.loop_specs["*"] = spec
        with stubs((mh, "structure_dict", lambda d, sep=".": d)):
            r = MB.to_dict(Station(), nested=nested, single=True, required=required)
        r = unl(r)
        p.check("the attribute is listed", list(r) == ["id", "members"])
        if list(r) != ["id", "members"]:
            return
        got = unl(r["members"])
        if what == "list":
            if isinstance(got, list):
                p.check("as many elements", eq(SymNum(n), list.__len__(got)))
                for i, x in enumerate(list.__iter__(got)):
                    p.check("each element is written in place", same(x, welem(elem(z3.IntVal(i)))))
                return
            i = z3.Int(p.fresh("i"))
            p.add(z3.And(i >= 0, i < n))
            p.check("as many elements", isinstance(got, SymSeq) and eq(got.n, SymNum(n)))
            p.check("each element is written in place", same(got.at(i), welem(elem(i))))
        elif what == "dict":
            p.check("the object's own dictionary is not the one written and is unchanged", got is not value and value.version() == ver)
            x = z3.String(p.fresh("x"))
            p.check("the same entries", isinstance(got, SymOD) and SymBool(got.has(x) == value.has(x)))
        else:
            p.check("the value is written", same(got, welem(value)))

    out.append(Contract("writing container values", "MetadataBase.to_dict", h_values))

    # ------------------------------------------------ comments
    def h_comment(p):
        nested, required = bool(p.choose(2, "nested")), bool(p.choose(2, "required"))
        vk, ak, tk = p.choose(2, "value"), p.choose(3, "author"), p.choose(3, "time")
        v = p.string("value") if vk else None
        a = [None, "", p.string("author")][ak]
        if ak == 2:
            p.assume(a.e != "")
        t = [None, DEF, "2020-02-02T00:00:00+00:00"][tk]
        x = Opaque("x", z3.StringVal("x"))

        class Comment:
            value, author, time_stamp = v, a, t

        class Station(Borrow):

            _real = MB

            _required_fields = []
            vals = {"comments": Comment(), "comments.author": a, "comments.time_stamp": t, "comments.value": v, "id": x, "remarks": 1.5}

            def get_attribute_list(self):
                return ["comments.value", "comments.author", "comments.time_stamp", "id", "remarks"]

            def get_attr_from_name(self, n):
                return self.vals[n]

        with stubs((mh, "structure_dict", lambda d, sep=".": d)):
            r = MB.to_dict(Station(), nested=nested, single=True, required=required)
        r = unl(r)
        has = lambda k: r.contains(k) if isinstance(r, SymOD) else k in r
        p.check("the other attributes are listed", And(has("id"), has("remarks")))
        simple = vk == 1 and ak < 2 and tk < 2
        empty = lambda s: SymBool(z3.Or(s.e == "", s.e == DEF, s.e == "1980"))
        if simple and not nested:
            p.check("a plain comment is listed as its text", Implies(Or(not required, Not(empty(v))), has("comments")))
            p.check("and only there", not bool(has("comments.value")) and not bool(has("comments.author")) and not bool(has("comments.time_stamp")))
            if has("comments"):
                p.check("with its text", eq(r["comments"], v))
        else:
            p.check("a comment with an author or a time is listed by its parts", Not(has("comments")))
            for k, w in (("comments.value", v), ("comments.author", a), ("comments.time_stamp", t)):
                e = SymBool(z3.BoolVal(True)) if not required else (SymBool(z3.BoolVal(w not in (None, "", DEF))) if not isinstance(w, SymStr) else Not(empty(w)))
                p.check("each part is listed when set", Implies(e, has(k)))
                if has(k):
                    p.check("with its value", same(r[k], w))

    out.append(Contract("writing comments", "MetadataBase.to_dict", h_comment))

    # ------------------------------------------------ reading a dictionary
    def reader(p, seq_of, cond, run, label):
        """run() must set each entry for which cond holds, in order, and nothing else"""
        calls = []

        class Station(Borrow):

            _real = MB

            def update_attribute(self, k, v):
                calls.append((k, v))

        def spec(L, loc, names):
            src = seq_of()

            def inv(i, env):
                if z3.is_int_value(i):
                    return not calls
                if i is L.i:
                    return True
                k, v = src(L.i)
                c = cond(v)
                if p.branch(c):
                    return len(calls) == 1 and And(eq(calls[0][0], k), same(calls[0][1], v))
                return not calls

            def havoc(i, env):
                calls.clear()
                return {}

            iv = Inv(label, [], havoc, inv)
            iv.may_modify = lambda x: x is calls
            return iv

        p.loop_specs["*"] = spec
        return Station(), calls

    def h_from_dict(p):
        skip = bool(p.choose(2, "skip_none"))
        src = SymOD("src", lambda k: attr(p, z3.Concat(z3.StringVal("s:"), k)), pytype=dict)
        sub = SymOD("sub", lambda k: attr(p, k), pytype=dict)
        one = p.choose(3, "form")  # 0: {class: {...}}, 1: one plain entry, 2: several entries
        cls_key = p.string("key")
        if one == 0:
            src = {cls_key: sub} if False else VDict()
            src[cls_key] = sub
        elif one == 1:
            src = VDict()
            src[cls_key] = SymNum(z3.Real("v"))
        else:
            p.assume(src.n != 1)
        flat = SymOD("flat", lambda k: attr(p, k), pytype=dict)
        made = []

        def flatten(d, parent_key=None, sep="."):
            made.append((unl(d), parent_key, sep))
            return flat

        null = lambda v: z3.BoolVal(v is None) if not isinstance(v, SymStr) else z3.Or(*[v.e == s for s in NULL_VALUES if s is not None])
        me, calls = reader(p, lambda: lambda i: (SymStr(flat.key(i)), flat.val(flat.key(i))),
                           lambda v: z3.Not(null(v)) if skip else z3.BoolVal(True), None, "each entry is set")
        vers = [d.version() for d in (sub, flat)]
        with stubs((mh, "flatten_dict", flatten)):
            MB.from_dict(me, src, skip_none=skip)
        p.check("flattened once", len(made) == 1)
        if len(made) != 1:
            return
        d, pk, sep = made[0]
        p.check("flattened at the dots, from the top", not pk and sep == ".")
        if one == 0:
            p.check("a single entry holding a dictionary is unwrapped", d is sub)
        else:
            p.check("any other dictionary is taken as it is", d is unl(src))
        p.check("the input dictionary is unchanged", vers == [d.version() for d in (sub, flat)])

    out.append(Contract("reading a dictionary", "MetadataBase.from_dict", h_from_dict))

    def h_from_dict_type(p):
        calls = []

        class Station(Borrow):

            _real = MB

            def update_attribute(self, k, v):
                calls.append(k)

        from mt_metadata.utils.exceptions import MTSchemaError

        for bad in ("text", 5, [("a", 1)], None, 1.5):
            e = raises(p, lambda: MB.from_dict(Station(), bad))
            p.check("anything but a dictionary is refused", isinstance(e, MTSchemaError) and not calls)

    out.append(Contract("reading something else", "MetadataBase.from_dict", h_from_dict_type))

    # ------------------------------------------------ updating
    def h_update(p):
        other_map = SymOD("other", lambda k: attr(p, k), pytype=dict)
        m = z3.Int("match.n")
        p.assume(m >= 0)
        ML = z3.Function("match", I, S)
        A, Bv = z3.Function("mine", S, S), z3.Function("theirs", S, S)
        rel = p.choose(4, "relation")  # same class, subclass, same name elsewhere, unrelated
        args = []

        def empty(v):
            """is the value passed over"""
            if v is None or (isinstance(v, list) and len(v) == 0):
                return z3.BoolVal(True)
            if isinstance(v, Sized):
                return z3.Not(v.size.e > 0)
            if isinstance(v, SymNum):
                return v.e == 0
            if isinstance(v, SymStr):
                return z3.Or(*[v.e == s for s in NULL_VALUES if s is not None], v.e == DEF)
            return z3.BoolVal(False)

        me0, calls = reader(p, lambda: lambda i: (SymStr(other_map.key(i)), other_map.val(other_map.key(i))),
                            lambda v: z3.Not(empty(v)), None, "each set value is taken over")
        items_spec = p.loop_specs["*"]

        class Station(type(me0)):
            fn = A

            def get_attr_from_name(self, n):
                return SymStr(self.fn(n.e))

        class Theirs:
            fn = Bv

            def get_attr_from_name(self, n):
                return SymStr(self.fn(n.e))

            def to_dict(self, **k):
                args.append(k)
                return other_map

        if rel == 0:
            both = type("Station", (Theirs, Station), {})
            me, other = both(), both()
            me.fn = A
        elif rel == 1:
            me = Station()
            other = type("Special", (Theirs, Station), {})()
        elif rel == 2:
            me = Station()
            other = type("Station", (Theirs,), {})()
        else:
            me = Station()
            other = type("Run", (Theirs,), {})()
        j = z3.Int("j")
        p.assume(z3.And(j >= 0, j < m))
        where = []

        def spec(L, loc, names):
            if L.seq is match:
                def inv(i, env):
                    return And(not calls, Implies(SymBool(j < i), eq(SymStr(A(ML(j))), SymStr(Bv(ML(j))))))

                where.append(L)
                return Inv("the values named so far agree", [], lambda i, env: {}, inv)
            return items_spec(L, loc, names)

        match = SymSeq(SymNum(m), lambda i: SymStr(ML(i)), "match")
        p.loop_specs["*"] = spec
        e = raises(p, lambda: MB.update(me, other, match=match))
        if rel == 3:
            p.check("an object of another class changes nothing and is not an error", e is None and not calls and not args)
            return
        if e is not None:
            k = where[0].i if where else j
            p.check("the only error is a ValueError for a named value that differs", And(isinstance(e, ValueError), SymBool(z3.And(k >= 0, k < m, A(ML(k)) != Bv(ML(k))))))
            p.check("and then nothing is changed", not calls)
            return
        p.check("all named values agree", SymBool(A(ML(j)) == Bv(ML(j))))
        p.check("the other object's listing is used", len(args) == 1 and args[0].get("single") is True)

    out.append(Contract("updating from another object", "MetadataBase.update", h_update))

    # ------------------------------------------------ equality
    def h_eq(p):
        """home and other: listings of two objects of one class"""
        KH, KO = z3.Function("home kind", S, I), z3.Function("other kind", S, I)
        TH, TO = z3.Function("home text", S, S), z3.Function("other text", S, S)
        NH, NO = z3.Function("home number", S, R), z3.Function("other number", S, R)

        def value(K, T, N):
            def at(k):
                if p.branch(K(k) == 0):
                    return None
                if p.branch(K(k) == 1):
                    return SymStr(T(k))
                return SymNum(N(k))
            return at

        HASO = None
        quick = p.choose(3, "plain comparison")  # equal, different, not comparable (arrays)

        class Listing(SymOD):
            def __eq__(self, o):
                if quick == 2:
                    raise ValueError("arrays")
                return quick == 0

            __hash__ = None

        home = Listing("home", value(KH, TH, NH), pytype=dict)
        other = Listing("other", value(KO, TO, NO), pytype=dict)
        hs, os_ = home.state(), other.state()
        ab = lambda e: z3.If(e < 0, -e, e)
        null = lambda e: z3.Or(*[e == x for x in NULL_VALUES if x is not None])
        coord = lambda k: z3.Or(*[z3.SuffixOf("." + c, k) for c in ("x", "y", "z", "x2", "y2", "z2")])

        def agree(k):
            """the two listings agree about the name k"""
            kh, ko = KH(k), KO(k)
            txt = z3.Or(z3.And(kh == 0, ko == 0), z3.And(kh == 1, ko == 1, z3.Or(TH(k) == TO(k), z3.And(null(TH(k)), null(TO(k))))),
                        z3.And(kh == 0, ko == 1, null(TO(k))), z3.And(kh == 1, ko == 0, null(TH(k))))
            num = z3.Or(z3.And(kh > 1, ko > 1, ab(NH(k) - NO(k)) <= z3.RealVal("1e-8") + z3.RealVal("1e-5") * ab(NO(k))),
                        z3.And(kh > 1, ko == 0, coord(k), NH(k) == 0))
            return z3.Or(z3.Not(os_[3](k)), z3.Contains(k, "processed_date"), z3.Contains(k, "creation_time"), txt, num)

        args = []

        class Mine(Borrow):

            _real = MB

            _skip_equals = ["processed_date", "creation_time"]

            def __init__(self, m):
                self.m = m

            def to_dict(self, **k):
                args.append(k)
                return self.m

        a, b = Mine(home), Mine(other)
        x = z3.String("probe")
        p.fact(z3.And(KH(x) >= 0, KO(x) >= 0))
        if quick == 0:
            p.fact(z3.Implies(hs[3](x), z3.And(os_[3](x), KH(x) == KO(x), TH(x) == TO(x), NH(x) == NO(x))))
        D = z3.Function("differences", I, I)
        p.fact(D(0) == 0)

        def spec(L, loc, names):
            live = [v for v in names if v in loc and isinstance(loc[v], (bool, SymBool))]
            live = [v for v in live if v in L.live] if hasattr(L, "live") else live
            if len(live) != 1:
                raise Unsupported("no single flag")
            v = live[0]
            if L.seq.n.e.eq(home.n) is False:
                raise Unsupported("not a loop over the listing")

            def inv(i, env):
                if not z3.is_int_value(i) and i is not L.i:
                    k = hs[1](L.i)
                    p.fact(D(L.i + 1) == D(L.i) + z3.If(agree(k), 0, 1))
                e = env[v]
                return SymBool((e.e if isinstance(e, SymBool) else z3.BoolVal(e)) == (D(i) == 0))

            def havoc(i, env):
                # an attribute holds a number or text in both listings, or nothing
                k = hs[1](i)
                p.fact(D(i) >= 0)
                p.fact(z3.And(KH(k) >= 0, KO(k) >= 0))
                p.fact(z3.Implies(KH(k) > 1, KO(k) != 1))
                return {v: SymBool(z3.Bool(p.fresh("flag")))}

            return Inv("equal so far exactly when no attribute differed", [v], havoc, inv)

        p.loop_specs["*"] = spec
        with stubs((mm, "MetadataBase", Mine)):
            r = MB.__eq__(a, b)
        p.check("complete listings are compared", len(args) == 2 and all(k.get("required") is False and k.get("single") is True for k in args))
        res = r.e if isinstance(r, SymBool) else z3.BoolVal(bool(r))
        if quick == 0:
            p.check("identical listings are equal", SymBool(res))
            p.check("identical listings agree on every attribute", Implies(SymBool(hs[3](x)), SymBool(agree(x))))
        else:
            p.check("equal exactly when no attribute differs", SymBool(res == (D(home.n) == 0)))

    out.append(Contract("equality", "MetadataBase.__eq__", h_eq))

    def h_eq_other(p):
        class Mine(Borrow):
            _real = MB

            pass

        with stubs((mm, "MetadataBase", Mine)):
            p.check("nothing equals None", MB.__eq__(Mine(), None) is False)
            e = raises(p, lambda: MB.__eq__(Mine(), 5))
            p.check("a number cannot be compared", isinstance(e, ValueError))
        for v in (True, False):
            me = type("M", (), {"__eq__": lambda s, o: v, "__hash__": None})()
            p.check("different is the opposite of equal", MB.__ne__(me, object()) is (not v))

    out.append(Contract("equality with something else", "MetadataBase.__eq__", h_eq_other))

    # ------------------------------------------------ series
    def h_from_series(p):
        n = z3.Int("n")
        p.assume(n >= 0)
        K = z3.Function("label", I, S)

        class Series:
            def items(self):
                return SymSeq(SymNum(n), lambda i: (SymStr(K(i)), attr(p, K(i))), "items")

        class NS:
            def __getattr__(self, k):
                raise Unsupported("pandas." + k)

        ns = NS()
        ns.Series = Series
        me, calls = reader(p, lambda: lambda i: (SymStr(K(i)), attr(p, K(i))), lambda v: z3.BoolVal(True), None, "each entry is set")
        with stubs((mm, "pd", ns)):
            MB.from_series(me, Series())
            from mt_metadata.utils.exceptions import MTSchemaError

            e = raises(p, lambda: MB.from_series(me, {"a": 1}))
        p.check("anything but a series is refused", isinstance(e, MTSchemaError))

    out.append(Contract("reading a series", "MetadataBase.from_series", h_from_series))

    # ------------------------------------------------ which reader
    def h_load(p):
        import pandas as pd
        from xml.etree import ElementTree as ET

        got = []

        class Me(Borrow):

            _real = MB

            update = lambda s, x: got.append(("update", x))
            from_dict = lambda s, x: got.append(("from_dict", x))
            from_json = lambda s, x: got.append(("from_json", x))
            from_series = lambda s, x: got.append(("from_series", x))
            from_xml = lambda s, x: got.append(("from_xml", x))

        from mt_metadata.utils.exceptions import MTSchemaError

        other = Me()
        cases = [(other, "update"), ({"a": 1}, "from_dict"), ('{"a": 1}', "from_json"), (pd.Series({"a": 1}), "from_series"), (ET.Element("x"), "from_xml")]
        with stubs((mm, "MetadataBase", Me)):
            for x, how in cases:
                got.clear()
                MB.load(Me(), x)
                p.check(f"{how} for {type(x).__name__}", len(got) == 1 and got[0][0] == how and got[0][1] is x)
            got.clear()
            for x in (5, None, [1]):
                e = raises(p, lambda: MB.load(Me(), x))
                p.check("nothing else is loaded", isinstance(e, MTSchemaError) and not got)

    out.append(Contract("choosing the reader", "MetadataBase.load", h_load))

    # ------------------------------------------------ XML
    class El:
        def __init__(self, tag, parent=None):
            self.tag, self.parent, self.text, self.attrib, self.kids = tag, parent, None, {}, []

        def set(self, k, v):
            self.attrib[k] = v

    class XNS:
        Element = El

        def SubElement(self, parent, tag):
            e = El(tag, parent)
            parent.kids.append(e)
            return e

        def __getattr__(self, k):
            raise Unsupported("xml.etree." + k)

    def h_xml_leaf(p):
        kind = p.choose(5, "value")
        v = [p.string("s"), p.real("r"), None, True, 7][kind]
        units = p.choose(3, "units")
        ad = [None, {}, {"json_schema_extra": {"units": "meters"}}][units]
        el = El("x")
        with stubs((mh, "et", XNS())):
            r = mh.recursive_split_xml(el, v, "a.b", "b", ad)
        p.check("no element is added", not el.kids)
        if v is None:
            p.check("nothing is written for None", el.text is None)
        elif kind == 0:
            p.check("text is written as it is", eq(el.text, v))
        else:
            p.check("a number is written as its text", eq(el.text, SymStr(v.text()) if hasattr(v, "text") else str(v)) if kind != 1 else el.text is not None)
        p.check("units only when described", el.attrib == ({"units": "meters"} if units == 2 else {}))
        p.check("the element is returned", r[0] is el)

    out.append(Contract("XML of a single value", "recursive_split_xml", h_xml_leaf))

    def h_xml_tree(p):
        islist = bool(p.choose(2, "list"))
        calls, el = [], El("x")
        base, name = p.string("base"), p.string("name")
        ad = None
        V = lambda k: Opaque("value", k)
        n = z3.Int("n")
        p.assume(n >= 0)
        if islist:
            src = SymSeq(SymNum(n), lambda i: Opaque("element", z3.Function("el", I, S)(i)), "list")
        else:
            src = SymOD("entries", V, n=n, pytype=dict)

        def spec(L, loc, names):
            def inv(i, env):
                if z3.is_int_value(i):
                    return not calls and not el.kids
                if i is L.i:
                    return True
                if len(calls) != 1 or len(el.kids) != 1:
                    return False
                kid, c = el.kids[0], calls[0]
                ok = And(c[0] is kid, c[4] is ad)
                if islist:
                    return And(ok, eq(kid.tag, "item"), same(c[1], src.at(L.i)))
                k = src.key(L.i)
                return And(ok, eq(kid.tag, SymStr(k)), same(c[1], V(k)), eq(c[2], SymStr(z3.Concat(base.e, z3.StringVal("."), k))))

            def havoc(i, env):
                calls.clear()
                el.kids.clear()
                return {}

            iv = Inv("one element for each entry", [], havoc, inv)
            iv.may_modify = lambda x: x is calls or x is el or x is el.kids
            return iv

        p.loop_specs["*"] = spec

        def rec(e, item, b, nm, attr_dict=None):
            calls.append((e, item, b, nm, attr_dict))
            return e, nm

        real = mh.recursive_split_xml
        with stubs((mh, "et", XNS()), (mh, "recursive_split_xml", rec)):
            r = real(el, src, base, name, ad)
        p.check("the element is returned", r[0] is el)
        p.check("no text beside the elements", el.text is None)

    out.append(Contract("XML of a list or dictionary", "recursive_split_xml", h_xml_tree))

    def h_dict_to_xml(p):
        calls = []
        n = z3.Int("n")
        p.assume(n >= 0)
        V = lambda k: Opaque("value", k)
        src = SymOD("entries", V, n=n, pytype=dict)
        ad = {}
        root = []

        class NS(XNS):
            def Element(self, tag):
                root.append(El(tag))
                return root[0]

        def spec(L, loc, names):
            def inv(i, env):
                if z3.is_int_value(i):
                    return not calls and len(root) == 1 and not root[0].kids
                if i is L.i:
                    return True
                if len(calls) != 1 or len(root[0].kids) != 1:
                    return False
                kid, c, k = root[0].kids[0], calls[0], src.key(L.i)
                return And(c[0] is kid, eq(kid.tag, SymStr(k)), same(c[1], V(k)), c[4] is ad)

            def havoc(i, env):
                calls.clear()
                root[0].kids.clear()
                return {}

            iv = Inv("one element for each attribute", [], havoc, inv)
            iv.may_modify = lambda x: x is calls or x is root[0] or x is root[0].kids
            return iv

        p.loop_specs["*"] = spec
        d = VDict()
        d["station"] = src
        with stubs((mh, "et", NS()), (mh, "recursive_split_xml", lambda *a: calls.append(a) or (a[0], a[3]))):
            r = mh.dict_to_xml(d, ad)
        p.check("the root is named after the class", len(root) == 1 and r is root[0] and root[0].tag == "station")

    out.append(Contract("XML of a metadata dictionary", "dict_to_xml", h_dict_to_xml))
    return out


def runtime(reg):
    import copy
    import json
    import os
    import random
    import shutil
    import tempfile

    import numpy as np

    from pyvc.rt import Skip, Violation, require
    from props.classes import all_classes, leaves, value
    from mt_metadata import NULL_VALUES

    CL = all_classes()
    # classes whose attributes follow from one another when one is set
    DERIVED = ("ChannelNomenclature", "TimePeriodDate", "FundingSource")
    # attributes computed by their class from others
    COMPUTED = {"Band": {"center_averaging_type", "closed"}, "FeatureWeightSpec": {"feature_name"}}

    def eligible(c):
        m, n = c.split(":")
        return m.startswith(("common.", "timeseries.")) and n not in DERIVED

    # lists that summarise members
    SUMMARIES = {"channels_recorded", "channels_recorded_electric", "channels_recorded_magnetic", "channels_recorded_auxiliary", "run_list", "station_names", "filters_list"}
    # attributes that must have a value to be written
    ALWAYS = {"units_in", "units_out", "decimation_level", "value"}
    FULL = {"Band", "AppliedFilter"}
    UNITS = ["volt", "nanotesla", "millivolt per kilometer"]
    CORE = sorted(c for c in CL if eligible(c))

    def gen(rng, tier):
        for r in range(2 if tier == "quick" else 30):
            for c in CORE:
                yield {"cls": c, "seed": rng.randint(0, 10**9)}

    def gen_u(rng, tier):
        yield from gen(rng, tier)
        for r in range(8 if tier == "quick" else 60):
            for c in [c for c in CORE if c.endswith("Filter")]:
                yield {"cls": c, "seed": rng.randint(0, 10**9)}

    def canon(v):
        if isinstance(v, np.ndarray):
            return ("array", v.shape, tuple(complex(x) for x in v.ravel()))
        if hasattr(v, "to_dict") and not hasattr(v, "isoformat"):
            return ("object", str(v.to_dict()))
        if isinstance(v, (list, tuple)):
            return ("list", tuple(canon(x) for x in v))
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, float)):
            return float(v)
        return str(v)

    def state(o):
        return {n: canon(o.get_attr_from_name(n)) for n, _ in leaves(type(o))}

    def build(i, frac=None):
        cls, rng = CL[i["cls"]], random.Random(i["seed"])
        o = cls()
        names = [(n, a) for n, a in leaves(cls) if n not in SUMMARIES]
        frac = 1. if cls.__name__ in FULL else rng.choice([.2, .5, 1.]) if frac is None else frac
        done = {}
        for n, a in names:
            if rng.random() > frac and n not in ALWAYS:
                continue
            v = rng.choice(UNITS) if n.endswith(("units", "units_in", "units_out")) else value(a, rng, n)
            if n in ("poles", "zeros"):
                v = np.array([complex(rng.uniform(-1, 1), rng.uniform(-1, 1)) for _ in range(rng.randint(1, 3))])
            elif np.ndarray in a and cls.__name__.endswith("Filter"):
                v = np.array([rng.uniform(0.1, 2) for _ in range(rng.randint(1, 4))])
                if rng.random() < .25:
                    v = np.zeros(len(v))
            if v is None:
                continue
            try:
                o.update_attribute(n, v)
                done[n] = v
            except Exception:
                continue
        return cls, rng, o, done

    def keeps(a, b, names, how):
        for n in names:
            x, y = canon(a.get_attr_from_name(n)), canon(b.get_attr_from_name(n))
            require(x == y, f"{type(a).__name__}.{n} is {x!r}, {how} {y!r}")

    def frozen(d):
        return repr(d)

    @reg.rt("dictionary round trip", gen, ["MetadataBase.to_dict", "MetadataBase.from_dict"], "every core class twice, random attribute values")
    def dicts(i):
        cls, rng, o, done = build(i)
        if not done:
            raise Skip
        before = state(o)
        for nested in (False, True):
            for single in (False, True):
                for required in (True, False):
                    d = o.to_dict(nested=nested, single=single, required=required)
                    require(state(o) == before, "writing a dictionary changed the object")
                    require(frozen(o.to_dict(nested=nested, single=single, required=required)) == frozen(d), "writing twice gave different dictionaries")
                    if not single:
                        require(len(d) == 1, f"{len(d)} entries at the top of the dictionary")
                        in_ = d
                    else:
                        in_ = d
                    if single and len(d) == 1 and isinstance(list(d.values())[0], dict):
                        continue  # one nested attribute cannot be told from a class name
                    if not required:
                        in_ = {k: v for k, v in in_.items()} if single else in_
                    was = frozen(in_)
                    b = cls()
                    try:
                        b.from_dict(in_, skip_none=not required)
                    except Exception as e:
                        if required:
                            raise
                        continue  # attributes without a value cannot always be set to "no value"
                    require(frozen(in_) == was, "reading a dictionary changed it")
                    keeps(o, b, done, f"read back from to_dict(nested={nested}, single={single}, required={required}) it is")
                    if required:
                        require(b == o and not (b != o), f"{cls.__name__} differs from its copy read from a dictionary")

    def listed(o, n, v):
        return not (v is None or isinstance(v, (str, list)) and v in (None, "1980-01-01T00:00:00+00:00", "1980", [], ""))

    @reg.rt("what is listed", gen, ["MetadataBase.to_dict"], "every core class twice")
    def listing(i):
        cls, rng, o, done = build(i)
        full = o.to_dict(single=True, required=False)
        part = o.to_dict(single=True, required=True)
        req = set(o._required_fields)
        for n in part:
            require(n in full, f"{n} is in the required listing only")
        for n, v in full.items():
            if isinstance(v, np.ndarray):
                require(n in part, f"the array {n} is left out")
            elif listed(o, n, v) or n in req:
                require(n in part, f"{cls.__name__}.{n} = {v!r} is left out")
                require(canon(part[n]) == canon(v) or v is None, f"{n} is {v!r} in the full and {part[n]!r} in the required listing")
        for n in done:
            x = o.get_attr_from_name(n)
            base = n.rsplit(".", 1)[0]
            require(n in full or base in full, f"{cls.__name__}.{n} is not listed")

    @reg.rt("JSON round trip", gen, ["MetadataBase.to_json", "MetadataBase.from_json", "NumpyEncoder.default"], "every core class twice, text, file and path")
    def jsons(i):
        cls, rng, o, done = build(i)
        if not done:
            raise Skip
        before = state(o)
        for nested in (False, True):
            t = o.to_json(nested=nested, indent=rng.choice([None, 2, "  "]))
            require(state(o) == before, "writing JSON changed the object")
            json.loads(t)
            b = cls()
            b.from_json(t)
            keeps(o, b, done, f"read back from JSON (nested={nested}) it is")
            require(b == o, f"{cls.__name__} differs from its copy read from JSON")
        d = tempfile.mkdtemp(prefix="p03")
        try:
            f = os.path.join(d, "m.json")
            with open(f, "w") as fid:
                fid.write(t)
            from pathlib import Path

            for x in (f, Path(f)):
                b = cls()
                b.from_json(x)
                keeps(o, b, done, f"read back from a JSON file given as {type(x).__name__} it is")
        finally:
            shutil.rmtree(d)

    @reg.rt("series round trip", gen, ["MetadataBase.to_series", "MetadataBase.from_series"], "every core class twice")
    def series(i):
        cls, rng, o, done = build(i)
        if not done:
            raise Skip
        s = o.to_series()
        was = s.copy()
        import pandas as pd

        s = s[[not (v is None or isinstance(v, float) and v != v) for v in s]]
        b = cls()
        b.from_series(s)
        keeps(o, b, [n for n in done if n in s.index], "read back from a series it is")
        for n in done:
            if not isinstance(done[n], list) and not n.endswith(("value", "author", "time_stamp")):
                require(n in was.index or not listed(o, n, o.get_attr_from_name(n)), f"{n} is not in the series")

    CHAN = ["timeseries.electric:Electric", "timeseries.magnetic:Magnetic", "timeseries.auxiliary:Auxiliary", "timeseries.run:Run", "timeseries.station:Station"]

    def gen_x(rng, tier):
        for r in range(10 if tier == "quick" else 300):
            for c in CHAN[:3]:
                if c in CL:
                    yield {"cls": c, "seed": rng.randint(0, 10**9)}

    @reg.rt("XML round trip", gen_x, ["MetadataBase.to_xml", "MetadataBase.from_xml", "dict_to_xml", "recursive_split_xml", "element_to_dict"], "30 channels")
    def xml(i):
        from xml.etree import ElementTree as ET

        cls, rng, o, done = build(i)
        names = [n for n in done if "comments" not in n and not isinstance(o.get_attr_from_name(n), (list, np.ndarray))]
        if not names:
            raise Skip
        before = state(o)
        for text in (False, True):
            x = o.to_xml(string=text)
            require(state(o) == before, "writing XML changed the object")
            if text:
                x = ET.fromstring(x.encode() if isinstance(x, str) else x)
            require(x.tag.lower() == cls.__name__.lower(), f"the element is named {x.tag}")
            b = cls()
            b.from_xml(x)
            keeps(o, b, names, f"read back from XML {'text' if text else 'elements'} it is")

    @reg.rt("copies", gen, ["MetadataBase.copy", "MetadataBase.__eq__"], "every core class twice")
    def copies(i):
        cls, rng, o, done = build(i)
        if not done:
            raise Skip
        before = state(o)
        c = o.copy()
        require(type(c) is cls and state(c) == before, "the copy differs")
        require(c == o and o == c, "the copy does not compare equal")
        # change every attribute of the copy
        other = build({"cls": i["cls"], "seed": i["seed"] + 1}, 1.)[3]
        diff = None
        for n, v in other.items():
            try:
                c.update_attribute(n, v)
            except Exception:
                continue
        for n, a in leaves(cls):
            x = c.get_attr_from_name(n)
            if isinstance(x, list):
                x.append("more")
        require(state(o) == before, "changing the copy changed the original")

    @reg.rt("equality", gen, ["MetadataBase.__eq__", "MetadataBase.__ne__"], "every core class twice, one attribute changed")
    def equal(i):
        cls, rng, o, done = build(i)
        names = [n for n in done if "processed_date" not in n and "creation_time" not in n]
        if not names:
            raise Skip
        b = cls()
        b.from_dict(o.to_dict())
        n = rng.choice(names)
        full = o.to_dict(single=True, required=False)
        if n not in full:
            raise Skip
        a = dict(leaves(cls))[n]
        clear = rng.random() < .35
        for _ in range(10):
            v = (None if rng.random() < .5 else "") if clear else value(a, rng, n)
            try:
                b.update_attribute(n, v)
            except Exception:
                raise Skip
            x, y = o.get_attr_from_name(n), b.get_attr_from_name(n)
            if canon(x) != canon(y):
                break
        else:
            raise Skip
        if isinstance(x, float) and isinstance(y, float) and np.isclose(x, y):
            raise Skip
        void = lambda w: isinstance(w, (str, type(None))) and w in NULL_VALUES or isinstance(w, (list, tuple)) and len(w) == 0 or isinstance(w, (float, int)) and w == 0
        if void(x) and void(y) or n not in b.to_dict(single=True, required=False):
            raise Skip
        require(b != o and not (b == o), f"{cls.__name__}: {n} is {y!r} and {x!r}, but the objects compare equal")
        require(o != b and not (o == b), f"{cls.__name__}: {n} is {x!r} and {y!r}, but the objects compare equal")
        if isinstance(x, (str, float, int, bool)) and not clear and cls.__name__ != "Comment":
            require(o == o.to_dict() and o == o.to_json(), f"{cls.__name__} {o.to_dict(single=True)} differs from its own listing")
            require(not (o == b.to_dict()), "an object equals the listing of a different one")

    @reg.rt("updating", gen_u, ["MetadataBase.update"], "every core class twice, every filter class ten times, two random objects")
    def updating(i):
        cls, rng, a, _ = build(i)
        _, _, b, done = build({"cls": i["cls"], "seed": i["seed"] + 7})
        if not done:
            raise Skip
        sa, sb = state(a), state(b)
        listing = b.to_dict(single=True)
        skip = [None, 0.0, [], ""] + NULL_VALUES
        want = dict(sa)
        ref = a.copy()
        taken = []
        for n, v in listing.items():
            if isinstance(v, np.ndarray):
                if v.size:
                    taken.append(n)
            elif v not in skip:
                taken.append(n)
        names = [n for n in sa if n in done and not isinstance(b.get_attr_from_name(n), (list, np.ndarray))]
        for n in rng.sample(names, min(2, len(names))):
            x, y = a.get_attr_from_name(n), b.get_attr_from_name(n)
            m = a.copy()
            try:
                m.update(b, match=[n])
                require(canon(x) == canon(y), f"updating with match {n}: {x!r} and {y!r} were accepted")
            except ValueError as e:
                if "is not equal" not in str(e):
                    continue
                require(canon(x) != canon(y), f"updating with match {n} refused equal values {x!r}")
                require(state(m) == sa, "a refused update changed the object")
        try:
            a.update(b)
        except Exception:
            raise Skip
        require(state(b) == sb, "updating changed the source")
        after = state(a)
        for n in after:
            up = n in taken or n.rsplit(".", 1)[0] in taken
            if up:
                r = cls()
                r.update_attribute(n, b.get_attr_from_name(n))
                require(after[n] in (sb[n], canon(r.get_attr_from_name(n))) or n.endswith((".author", ".time_stamp")), f"{cls.__name__}.{n} is {after[n]!r}, taken over {sb[n]!r}")
            else:
                require(after[n] == sa[n], f"{cls.__name__}.{n} was {sa[n]!r}, after an update that does not set it {after[n]!r}")
        if cls.__name__ in ("Run", "Station", "Survey"):
            return
        k = a.copy()
        k.update(CL["common.fdsn:Fdsn"]() if cls.__name__ != "Fdsn" else CL["timeseries.run:Run"]())
        require(state(k) == after, "updating from another class changed the object")

    @reg.rt("comments", lambda rng, tier: ({"a": rng.choice([None, "", "A. B", "x & y"]), "t": rng.choice([None, "2020-01-02T03:04:05+00:00"]),
                                            "v": rng.choice([None, "", "some text", "a <b>"]), "o": rng.randint(0, 2)} for _ in range(100)),
            ["Comment.__eq__", "Comment.from_dict", "Comment.to_xml"], "100 comments")
    def comments(i):
        from mt_metadata.common import Comment

        def mk(i):
            c = Comment()
            for k, n in (("a", "author"), ("t", "time_stamp"), ("v", "value")):
                if i[k] is not None:
                    setattr(c, n, i[k])
            return c

        c, d = mk(i), mk(i)
        require(c == d, "two comments with the same parts differ")
        j = dict(i)
        k = ["a", "t", "v"][i["o"]]
        j[k] = "2021-05-05T00:00:00+00:00" if k == "t" else "something else"
        require(not (c == mk(j)), f"comments with different {k} compare equal")
        require(isinstance(c == None, bool), "comparing with None is not a truth value")  # noqa: E711
        before = c.to_dict(required=False)
        x = c.to_xml()
        require(c.to_dict(required=False) == before, "writing XML changed the comment")
        require((x.text or "") == (i["v"] or "") and x.attrib["author"] == (i["a"] or ""), "the XML of the comment")

    def gen_h(rng, tier):
        for _ in range(1):
            yield {}

    @reg.rt("flagged helpers", gen_h, ["validate_name"], "once")
    def hdf5(i):
        from mt_metadata.timeseries import Electric

        class Ref:
            def __reduce__(self):
                raise TypeError("no default __reduce__ due to non-trivial __cinit__")

            def __deepcopy__(self, m):
                raise TypeError("no default __reduce__ due to non-trivial __cinit__")

        e = Electric(component="ex", channel_number=4)
        e.hdf5_reference = Ref()
        c = e.copy()
        require(c.component == "ex" and c.channel_number == 4 and c.hdf5_reference is None, "a copy with a file reference")
        require(e.hdf5_reference is not None, "the original lost its reference")
        c = e.copy(update={"channel_number": 9})
        require(c.channel_number == 9 and e.channel_number == 4, "a copy with changes")
