"""An experiment written as a dictionary, JSON or XML and read back is the same tree."""

ASSUMPTIONS = [
    "the attributes of a single survey, station, run, channel or filter are written and read by the functions proved in P03",
    "the collections of members behave as the ordered mapping proved in P01, members are added as proved in P06",
    "json and xml.etree store and return texts, numbers and element trees unchanged",
]


def contracts():
    import mt_metadata.base.helpers as mh
    import mt_metadata.timeseries.experiment as mx
    import mt_metadata.timeseries.survey as ms
    import mt_metadata.timeseries.station as mst
    import mt_metadata.timeseries.run as mr
    from mt_metadata.common.list_dict import ListDict
    from mt_metadata.timeseries import Auxiliary, Electric, Magnetic, Run, Station, Survey
    from pyvc.api import And, Borrow, borrowed, Contract, Implies, Inv, Not, Or, SymBool, SymNum, SymObj, SymSeq, SymStr, Unsupported, eq, put, raises, z3
    from pyvc.core import ctx
    from pyvc.helpers import Collect, VDict, VList, VOD, unl
    from pyvc.mapmodel import SymOD

    S, I, B, R = z3.StringSort(), z3.IntSort(), z3.BoolSort(), z3.RealSort()
    EX = mx.Experiment
    out = []

    class stubs:
        def __init__(self, *rep):
            self.rep = rep

        def __enter__(self):
            self.old = [(o, n, getattr(o, n)) for o, n, _ in self.rep]
            for o, n, v in self.rep:
                setattr(o, n, v)

        def __exit__(self, *a):
            for o, n, v in self.old:
                setattr(o, n, v)

    CHILD = {"experiment": ["surveys"], "surveys": ["stations", "filters"], "stations": ["runs"], "runs": ["channels"], "channels": [], "filters": []}
    REAL = {"experiment": EX, "surveys": Survey, "stations": Station, "runs": Run}
    COUNT = {k: z3.Function("count." + k, I, I) for v in CHILD.values() for k in v}
    MEMBER = {k: z3.Function("member." + k, I, I, I) for v in CHILD.values() for k in v}

    class Written:
        """what a member is written as, by the contract"""

        def __init__(self, level, e, kw):
            self.level, self.e, self.kw = level, e, kw

    class Own:
        """a member's own attributes, as it writes them"""

        def __init__(self, level, e, kw):
            self.level, self.e, self.kw = level, e, kw

    class Pos:
        def __init__(self, lat, lon, ele):
            self.latitude, self.longitude, self.elevation = lat, lon, ele

    class FilterMap:
        def __init__(self, seq):
            self.seq = seq

        def items(self):
            return SymSeq(self.seq.n, lambda i: (SymStr(z3.Function("filter.key", I, S)(self.seq.at(i).e)), self.seq.at(i)), "filters")

        def values(self):
            return self.seq

        def keys(self):
            return SymSeq(self.seq.n, lambda i: self.items().at(i)[0], "names")

    def members(p, level, e, mk):
        n = COUNT[level](e)
        p.fact(n >= 0)
        r = SymSeq(SymNum(n), lambda i: mk(level, MEMBER[level](e, i)), level)
        return FilterMap(r) if level == "filters" else r

    def kwkey(kw):
        return tuple(sorted((k, str(v)) for k, v in kw.items()))

    class Node:
        """a member of the tree known by its number"""

        def __init__(self, level, e):
            self.__dict__.update(level=level, e=e)

        def __getattr__(self, k):
            if k in CHILD[self.level]:
                v = members(ctx(), k, self.e, Node)
                self.__dict__[k] = v
                return v
            if k.startswith("__"):
                raise AttributeError(k)
            f = borrowed(REAL.get(self.level), k, self)
            if f is not None:
                return f
            raise Unsupported(f"{self.level}.{k}")

        def to_dict(self, **kw):
            d = VDict()
            d["own"] = Own(self.level, self.e, kwkey(kw))
            return d

    def level_of(L):
        x = L.seq.at(z3.Int("probe"))
        if isinstance(x, tuple):
            x = x[-1]
        if not hasattr(x, "level"):
            raise Unsupported("a loop over something else than members")
        return x.level

    def reach(v, key, seen, d=0):
        """values stored under a key anywhere in the dictionaries under construction"""
        if d > 6 or id(v) in seen:
            return
        seen.add(id(v))
        if type(v) in (VDict, VOD, dict) and getattr(v, "sym", None) is None:
            for k, x in v.items():
                if k == key:
                    yield x
                yield from reach(x, key, seen, d + 1)

    # ------------------------------------------------ writing a dictionary
    def h_to_dict(p):
        nested, required = bool(p.choose(2, "nested")), bool(p.choose(2, "required"))
        kw = kwkey({"nested": nested, "single": True, "required": required})

        def same(got, want):
            if isinstance(got, Written) and isinstance(want, Written):
                return And(got.level == want.level and got.kw == want.kw, SymBool(got.e == want.e))
            got = unl(got)
            if not isinstance(got, dict) or not isinstance(want, Written):
                return False
            if set(got) != {"own", *CHILD[want.level]}:
                return False
            own = got["own"]
            ok = [isinstance(own, Own) and own.level == want.level and own.kw == want.kw, SymBool(own.e == want.e)]
            if not ok[0]:
                return False
            for c in CHILD[want.level]:
                ok.append(listed(got[c], c, want.e))
            return And(*ok)

        def listed(got, c, e):
            got = unl(got)
            if isinstance(got, list):
                return SymBool(COUNT[c](e) == 0) if not got else False
            if not isinstance(got, SymSeq):
                return False
            i = z3.Int(p.fresh("i"))
            p.add(i >= 0)
            return And(eq(got.n, SymNum(COUNT[c](e))), Implies(SymBool(i < COUNT[c](e)), same(got.at(i), Written(c, MEMBER[c](e, i), kw))))

        def spec(L, loc, names):
            level = level_of(L)

            def elem(i):
                x = L.seq.at(i)
                x = x[-1] if isinstance(x, tuple) else x
                return Written(level, x.e, kw)

            def find(loc):
                got = []
                for v in loc.values():
                    for x in reach(v, level, set()):
                        if type(x) is VList and x.sym is None and not len(x) and not any(x is y for y in got):
                            got.append(x)
                if not got:
                    got = [v for v in loc.values() if type(v) is VList and v.sym is None and not len(v)]
                return got

            return Collect(f"each of the {level} is written once, in order", elem, same, find)

        p.loop_specs["*"] = spec
        root = z3.Int("experiment")
        me = Node("experiment", root)
        r = unl(EX.to_dict(me, nested=nested, required=required))
        p.check("one entry named experiment, with the surveys", isinstance(r, dict) and list(r) == ["experiment"] and list(r["experiment"]) == ["surveys"])
        p.check("every survey is written, in order, with everything it holds", listed(r["experiment"]["surveys"], "surveys", root))

    out.append(Contract("writing an experiment", "Experiment.to_dict", h_to_dict))

    # ------------------------------------------------ writing XML
    LAT, LON, ELE = (z3.Function(k, I, I, R) for k in ("latitude", "longitude", "elevation"))
    TYPE = z3.Function("type", I, S)
    SORTED = {k: z3.Function("sorted." + k, I, I, I) for v in CHILD.values() for k in v}

    class El:
        def __init__(self, tag, own=None):
            self.tag, self.own, self.kids, self.sub = tag, own, VList(), []

        def append(self, x):
            self.kids.append(x)

    class XNS:
        Element = El

        def SubElement(self, parent, tag):
            e = El(tag)
            parent.sub.append(e)
            return e

        def __getattr__(self, k):
            raise Unsupported("xml.etree." + k)

    class Place:
        def __init__(self, e, which):
            z = z3.IntVal(which)
            self.latitude, self.longitude, self.elevation = SymNum(LAT(e, z)), SymNum(LON(e, z)), SymNum(ELE(e, z))

        def now(self):
            return (self.latitude, self.longitude, self.elevation)

    class Members(SymSeq):
        """a collection of members that can be sorted"""

        def sort(self, *a, **k):
            if a or k:
                raise Unsupported("sorting by something else")
            self.cache = {}
            self.elem = self.sorted_elem
            self.was_sorted = True

    MEMO = {}

    class XNode:
        def __init__(self, level, e, parent=None):
            self.__dict__.update(level=level, e=e, parent=parent)

        def __getattr__(self, k):
            if (id(self), k) in MEMO:
                return MEMO[id(self), k][1]
            if k in CHILD[self.level]:
                n = COUNT[k](self.e)
                ctx().fact(n >= 0)
                v = Members(SymNum(n), lambda i: XNode(k, MEMBER[k](self.e, i), self), k)
                v.sorted_elem = lambda i: XNode(k, SORTED[k](self.e, i), self)
                v = FilterMap(v) if k == "filters" else v
            elif k == "location" and self.level in ("stations", "channels"):
                v = Place(self.e, 0)
            elif k == "positive" and self.level == "channels":
                v = Place(self.e, 1)
            elif k == "type" and self.level == "channels":
                v = SymStr(TYPE(self.e))
            elif k in ("update_time_period", "update_bounding_box") and self.level in ("surveys", "stations", "runs"):
                return lambda: None
            elif k.startswith("__"):
                raise AttributeError(k)
            elif borrowed(REAL.get(self.level), k, self) is not None:
                return borrowed(REAL.get(self.level), k, self)
            else:
                raise Unsupported(f"{self.level}.{k}")
            MEMO[id(self), k] = (self, v)
            return v

        def to_xml(self, string=False, required=True):
            places = self.location.now() + self.positive.now() if self.level == "channels" else ()
            return El(self.level, (self.level, self.e, string, required, places))

    def h_to_xml(p):
        required, sort = bool(p.choose(2, "required")), bool(p.choose(2, "sort"))
        PICK = lambda c: SORTED[c] if sort and c != "filters" else MEMBER[c]
        UNSET = lambda e, w: z3.And(*(f(e, z3.IntVal(w)) == 0 for f in (LAT, LON, ELE)))

        class Out:
            def __init__(self, node):
                self.node = node

        def own(got, node):
            if not isinstance(got, El) or got.own is None:
                return False
            level, e, string, req, places = got.own
            ok = [level == node.level and string is False and req is required, SymBool(e == node.e)]
            if not ok[0]:
                return False
            if level == "channels":
                st = node.parent.parent.e
                for w in (0, 1):
                    mine = TYPE(e) == "electric" if w else TYPE(e) != "electric"
                    for f, g in zip((LAT, LON, ELE), places[3 * w : 3 * w + 3]):
                        ok.append(eq(g, SymNum(z3.If(z3.And(mine, UNSET(e, w)), f(st, z3.IntVal(0)), f(e, z3.IntVal(w))))))
            return And(*ok)

        def same(got, want):
            if isinstance(got, Out) and isinstance(want, Out):
                return And(got.node.level == want.node.level, SymBool(got.node.e == want.node.e))
            if not isinstance(got, El) or not isinstance(want, Out):
                return False
            o = own(got, want.node)
            if o is False:
                return False
            kids = [c for c in CHILD[want.node.level] if c != "filters"]
            ok = [o]
            if want.node.level == "surveys":
                ok.append(len(got.sub) == 1 and got.sub[0].tag == "filters" and listed(got.sub[0].kids, "filters", want.node))
            else:
                ok.append(not got.sub)
            ok.append(listed(got.kids, kids[0], want.node) if kids else not got.kids)
            return And(*ok)

        def listed(got, c, node):
            got = unl(got)
            if isinstance(got, list):
                return SymBool(COUNT[c](node.e) == 0) if not got else False
            i = z3.Int(p.fresh("i"))
            p.add(i >= 0)
            return And(eq(got.n, SymNum(COUNT[c](node.e))), Implies(SymBool(i < COUNT[c](node.e)), same(got.at(i), Out(XNode(c, PICK(c)(node.e, i), node)))))

        def spec(L, loc, names):
            level = level_of(L)

            def elem(i):
                x = L.seq.at(i)
                return Out(x[-1] if isinstance(x, tuple) else x)

            up = {"surveys": "Experiment", "stations": "surveys", "filters": "filters", "runs": "stations", "channels": "runs"}[level]

            def find(loc):
                els = []
                for v in loc.values():
                    if isinstance(v, El) and v.tag == up and not any(v is y for y in els):
                        els.append(v)
                return [v.kids for v in els]

            return Collect(f"each of the {level} is written once, in order", elem, same, find)

        p.loop_specs["*"] = spec

        class Me(XNode):
            pass

        Me.__name__ = "Experiment"
        me = Me("experiment", z3.Int("experiment"))
        with stubs((mx, "et", XNS())):
            r = EX.to_xml(me, required=required, sort=sort)
        p.check("the root element is named Experiment", isinstance(r, El) and r.tag == "Experiment" and not r.sub)
        p.check("every survey is written, in order, with everything it holds", listed(r.kids, "surveys", me))

    out.append(Contract("writing XML", "Experiment.to_xml", h_to_xml))

    # ------------------------------------------------ reading a dictionary
    class Rec:
        """an object made while reading; logs what it was given"""

        def __init__(self, cls, *a, **k):
            self.cls, self.args, self.kw, self.log = cls, a, k, []

    def h_from_dict(p):
        kind = p.choose(3, "input")
        skip = bool(p.choose(2, "skip_none"))
        n = z3.Int("n")
        p.assume(n >= 0)
        item = z3.Function("entry", I, I)

        class Entry:
            def __init__(self, e):
                self.e = e

        src = SymSeq(SymNum(n), lambda i: Entry(item(i)), "entries")
        added = []

        class Sv:
            def __init__(self):
                self.read = []

            def from_dict(self, d, skip_none=False):
                self.read.append((d, skip_none))

        class Me(Borrow):

            _real = EX

            def add_survey(self, s):
                added.append((s, list(s.read)))

        def spec(L, loc, names):
            def inv(i, env):
                if z3.is_int_value(i):
                    return not added
                if i is L.i:
                    return True
                if len(added) != 1:
                    return False
                s, read = added[0]
                return And(isinstance(s, Sv) and len(read) == 1 and len(s.read) == 1 and isinstance(read[0][0], Entry) and read[0][1] == skip,
                           SymBool(read[0][0].e == item(L.i)) if len(read) == 1 and isinstance(read[0][0], Entry) else False)

            def havoc(i, env):
                added.clear()
                return {}

            iv = Inv("each survey is read before it is added", [], havoc, inv)
            iv.may_modify = lambda x: x is added
            return iv

        p.loop_specs["*"] = spec
        d = VDict()
        if kind == 0:
            d["experiment"] = VDict()
            d["experiment"]["surveys"] = src
        elif kind == 2:
            d = SymStr(z3.String("text"))
        with stubs((mx, "Survey", Sv)):
            if kind == 2:
                r = raises(p, lambda: EX.from_dict(Me(), d, skip_none=skip), (TypeError,))
                p.check("anything but a dictionary is a TypeError", r is not None)
            else:
                EX.from_dict(Me(), d, skip_none=skip)
        if kind == 1:
            p.check("nothing is read from a dictionary without an experiment", not added)

    out.append(Contract("reading an experiment", "Experiment.from_dict", h_from_dict))

    # ------------------------------------------------ reading XML
    XC = {"experiment": ["survey"], "survey": ["station"], "station": ["run"], "run": ["electric", "magnetic", "auxiliary"], "electric": [], "magnetic": [], "auxiliary": []}
    XCOUNT = {k: z3.Function("xml.count." + k, I, I) for v in XC.values() for k in v}
    XMEMBER = {k: z3.Function("xml.member." + k, I, I, I) for v in XC.values() for k in v}

    def h_from_xml(p):
        skip, sort, hasf = bool(p.choose(2, "skip_none")), bool(p.choose(2, "sort")), bool(p.choose(2, "filters"))

        class Tree:
            def __init__(self, level, e):
                self.level, self.e = level, e

        class Filters:
            def __init__(self, e):
                self.e = e

        def xdict(level, e):
            d = VDict()
            d["own"] = Tree(level, e)
            for c in XC[level]:
                d[c] = "elements"
            if level == "survey" and hasf:
                d["filters"] = Filters(e)
            if level in ("survey",):
                o = VDict()
                o[level] = d
                return o
            return d

        def seq(level, e):
            n = XCOUNT[level](e)
            ctx().fact(n >= 0)
            return SymSeq(SymNum(n), lambda i: Tree(level, XMEMBER[level](e, i)), level)

        class Kept:
            def __init__(self):
                self.got = []

            def update(self, x):
                self.got.append(x)

        def maker(level):
            class Made:
                def __init__(self, *a, **k):
                    self.args, self.level, self.read, self.added, self.filters = (a, k), level, [], VList(), Kept()

                def from_dict(self, d, skip_none=False):
                    d = unl(d)
                    if level == "survey":
                        d = unl(d["survey"]) if isinstance(d, dict) and list(d) == ["survey"] else d
                    self.read.append((list(d), d.get("own"), skip_none))

                def add_station(self, x, *a, **k):
                    self.added.append(x)

                add_run = add_channel = add_station

            return Made

        class Out:
            def __init__(self, level, e):
                self.level, self.e = level, e

        def same(got, want):
            if isinstance(got, Out):
                return And(got.level == want.level, SymBool(got.e == want.e))
            if getattr(got, "level", None) != want.level or got.args != ((), {}) or len(got.read) != 1:
                return False
            keys, own, sk = got.read[0]
            if keys != ["own"] or not isinstance(own, Tree) or own.level != want.level or sk is not skip:
                return False
            ok = [SymBool(own.e == want.e)]
            if want.level == "survey":
                if len(got.filters.got) != 1 or not isinstance(got.filters.got[0], tuple):
                    return False
                f = got.filters.got[0][1]
                if hasf and not isinstance(f, Filters) or not hasf and f is not None:
                    return False
                if hasf:
                    ok.append(SymBool(f.e == want.e))
            cs = XC[want.level]
            if want.level == "run":
                ok.append(all(isinstance(x, tuple) for x in got.added) if type(got.added) is VList and got.added.sym is None else False)
                if ok[-1] is False or [x[0] for x in got.added] != cs:
                    return False
                ok += [SymBool(x[1] == want.e) for x in got.added]
            elif cs:
                ok.append(listed(got.added, cs[0], want.e))
            else:
                ok.append(len(got.added) == 0)
            return And(*ok)

        def listed(got, level, e):
            got = unl(got)
            if isinstance(got, list):
                return SymBool(XCOUNT[level](e) == 0) if not got else False
            i = z3.Int(p.fresh("i"))
            p.add(i >= 0)
            return And(eq(got.n, SymNum(XCOUNT[level](e))), Implies(SymBool(i < XCOUNT[level](e)), same(got.at(i), Out(level, XMEMBER[level](e, i)))))

        added = VList()

        def spec(L, loc, names):
            x = L.seq.at(z3.Int("probe"))
            level = x.level if isinstance(x, Tree) else unl(x)["own"].level
            parent = {"survey": None, "station": "survey", "run": "station"}.get(level, "run")

            def ident(i):
                x = L.seq.at(i)
                return x.e if isinstance(x, Tree) else unl(x)["own"].e

            if parent != "run":
                def find(loc):
                    if parent is None:
                        return [added]
                    got = []
                    for v in loc.values():
                        if type(v).__name__ == "Made" and v.level == parent and not any(v is y for y in got):
                            got.append(v)
                    return [v.added for v in got]

                return Collect(f"each {level} is read once, in order", lambda i: Out(level, ident(i)), same, find)
            runs = []
            for v in loc.values():
                if type(v).__name__ == "Made" and v.level == "run" and not any(v is y for y in runs):
                    runs.append(v)
            if len(runs) != 1:
                raise Unsupported("no single run under construction")
            run = runs[0]
            before = list(run.added)

            def inv(i, env):
                if z3.is_int_value(i):
                    return True
                if i is L.i:
                    return True
                if len(run.added) != len(before) + 1 or any(a is not b for a, b in zip(run.added, before)):
                    return False
                return same(run.added[-1], Out(level, ident(L.i)))

            def havoc(i, env):
                if not L.is_arb:
                    # all channels of this kind are in the run
                    list.append(run.added, (level, L.seq.owner))
                return {}

            iv = Inv(f"each {level} channel is read once, in order", [], havoc, inv)
            iv.may_modify = lambda x: x is run.added
            return iv

        p.loop_specs["*"] = spec

        class Me(Borrow):

            _real = EX

            def add_survey(self, s):
                added.append(s)

            def sort(self, *a, **k):
                pass

            def _pop_dictionary(self, d, key):
                d = unl(d)
                own = d["own"]
                if d.pop(key, None) is None:
                    raise Unsupported("popped twice")
                n = XCOUNT[key](own.e)
                ctx().fact(n >= 0)
                r = SymSeq(SymNum(n), lambda i: xdict(key, XMEMBER[key](own.e, i)), key)
                r.owner = own.e
                return r

            def _read_filter_dict(self, d):
                return ("filters of", d)

        root = z3.Int("root")
        n = XCOUNT["survey"](root)
        p.fact(n >= 0)
        el = SymSeq(SymNum(n), lambda i: Tree("survey", XMEMBER["survey"](root, i)), "survey")
        rep = [(mx, c, maker(l)) for c, l in (("Survey", "survey"), ("Station", "station"), ("Run", "run"), ("Electric", "electric"), ("Magnetic", "magnetic"), ("Auxiliary", "auxiliary"))]

        with stubs(*rep, (mh, "element_to_dict", lambda x: xdict("survey", x.e))):
            EX.from_xml(Me(), element=el, sort=sort, skip_none=skip)
        p.check("every survey is read, in order, with everything it holds", listed(added, "survey", root))

    out.append(Contract("reading XML", "Experiment.from_xml", h_from_xml))

    def h_pop(p):
        kind = p.choose(3, "elements")
        key, x = p.string("key"), z3.String(p.fresh("x"))
        src = SymOD("d", lambda k: ("value of", k), pytype=dict)
        has0 = src.state()[3]
        inner = [None, VDict(), None][kind]
        if kind == 1:
            p.assume(SymBool(src.has(key.e)))
            src.set(key, inner) if hasattr(src, "set") else src.__setitem__(key, inner)
        elif kind == 0:
            seq = SymSeq(SymNum(z3.Int("n")), lambda i: i, "list")
            p.assume(SymBool(src.has(key.e)))
            src.__setitem__(key, seq)
        else:
            p.assume(Not(SymBool(src.has(key.e))))
        r = unl(EX._pop_dictionary(SymObj(EX), src, key))
        if kind == 0:
            p.check("a list of elements is returned as it is", r is seq)
        elif kind == 1:
            p.check("a single element becomes a list", isinstance(r, list) and len(r) == 1 and r[0] is inner)
        else:
            p.check("no element is an empty list", isinstance(r, list) and len(r) == 0)
        p.check("the key is taken out and nothing else", SymBool(src.has(x) == z3.And(has0(x), x != key.e)))

    out.append(Contract("elements of one name", "Experiment._pop_dictionary", h_pop))

    # ------------------------------------------------ lists of members given as dictionaries or objects
    def reader(label, cls, fn, mod, name, mcls, typecheck):
        def h(p):
            n = z3.Int("n")
            p.assume(n >= 0)
            KIND, ITEM = z3.Function("kind", I, I), z3.Function("item", I, I)
            as_map = bool(p.choose(2, "mapping"))
            made = []

            class Made:
                def __init__(self, *a, **k):
                    self.read, self.args, self.num = [], (a, k), None

                def from_dict(self, d, skip_none=False):
                    self.read.append(d)

            class Entry(dict):
                pass

            class Odd:
                pass

            def elem(x):
                if p.branch(KIND(x) == 0):
                    d = Entry()
                    d["n"] = x
                    return d
                if p.branch(KIND(x) == 1):
                    m = Made()
                    m.num = x
                    return m
                return Odd()

            if as_map:
                IDK = z3.Function("item.of", S, I)
                given = SymOD("given", lambda k: elem(IDK(k)), n=n, pytype=dict)
                item = lambda i: IDK(given.key(i))
            else:
                item = ITEM
                given = SymSeq(SymNum(n), lambda i: elem(ITEM(i)), "given")

            class Coll:
                """the collection under construction"""

                def __init__(self, *a):
                    self.got = []
                    made.append(self)

                def append(self, x, *a, **k):
                    self.got.append(x)

            ghost = {}

            def spec(L, loc, names):
                if len(made) != 1:
                    raise Unsupported("no single collection under construction")
                c = made[0]
                fails = [v for v in loc.values() if type(v) is VList and v.sym is None]

                def inv(i, env):
                    if z3.is_int_value(i):
                        return not c.got
                    if i is L.i:
                        return True
                    x = item(L.i)
                    bad = len([f for f in fails if len(f)])
                    if p.branch(KIND(x) == 0):
                        if len(c.got) != 1 or bad:
                            return False
                        m = c.got[0]
                        if not (type(m) is Made and m.num is None and m.args == ((), {}) and len(m.read) == 1 and isinstance(m.read[0], Entry)):
                            return False
                        return SymBool(m.read[0]["n"] == x)
                    if p.branch(KIND(x) == 1):
                        if len(c.got) != 1 or bad or type(c.got[0]) is not Made or c.got[0].num is None:
                            return False
                        return SymBool(c.got[0].num == x)
                    return len(c.got) == 0 and bad == 1

                def havoc(i, env):
                    c.got.clear()
                    for f in fails:
                        list.clear(f)
                    if not L.is_arb and p.branch(z3.Bool("some entry is of another type")):
                        ghost["bad"] = True
                        for f in fails:
                            f.append("message")
                    return {}

                iv = Inv("each entry becomes one member, in order", [], havoc, inv)
                iv.may_modify = lambda x: x is c.got or x is c or any(x is f for f in fails)
                return iv

            p.loop_specs["*"] = spec
            with stubs((mod, name, Made), (mod, "ListDict", Coll)):
                f = getattr(cls, fn)
                try:
                    r = f(given) if fn == "validate_surveys" else f(given, None)
                except TypeError:
                    r = TypeError
            if ghost.get("bad"):
                p.check("an entry of another type is a TypeError", r is TypeError)
            else:
                p.check("the collection is returned", any(r is x for x in made))

        out.append(Contract(label, f"{cls.__name__}.{fn}", h))

    reader("surveys given as a list", EX, "validate_surveys", mx, "Survey", Survey, None)
    reader("stations given as a list", Survey, "validate_stations", ms, "Station", Station, None)
    reader("runs given as a list", Station, "validate_runs", mst, "Run", Run, None)

    def h_channels(p):
        n = z3.Int("n")
        p.assume(n >= 0)
        ITEM = z3.Function("item", I, I)
        made = []

        class Ch:
            def __init__(self, e):
                self.e = e

        class Coll:
            def __init__(self, *a):
                self.got = []
                made.append(self)

            def append(self, x, *a, **k):
                self.got.append(x)

        src = SymSeq(SymNum(n), lambda i: Ch(ITEM(i)), "given")
        calls = []

        class Made:
            def __init__(self, e):
                self.e = e

        def right(cls, ch=None):
            ch = cls if ch is None else ch
            calls.append(ch)
            return Made(ch.e)

        def spec(L, loc, names):
            if len(made) != 1:
                raise Unsupported("no single collection under construction")
            c = made[0]

            def inv(i, env):
                if z3.is_int_value(i):
                    return not c.got
                if i is L.i:
                    return True
                if len(c.got) != 1 or type(c.got[0]) is not Made:
                    return False
                return SymBool(c.got[0].e == ITEM(L.i))

            def havoc(i, env):
                c.got.clear()
                calls.clear()
                return {}

            iv = Inv("each channel is converted, in order", [], havoc, inv)
            iv.may_modify = lambda x: x is c.got or x is c or x is calls
            return iv

        p.loop_specs["*"] = spec
        old = Run.__dict__["_get_correct_channel_type"]
        Run._get_correct_channel_type = classmethod(right)
        try:
            with stubs((mr, "ListDict", Coll)):
                r = Run.validate_channels(src, None)
        finally:
            Run._get_correct_channel_type = old
        p.check("the collection is returned", any(r is x for x in made))

    out.append(Contract("channels given as a list", "Run.validate_channels", h_channels))

    # ------------------------------------------------ one channel given as text, dictionary or object
    def h_channel_type(p):
        kind = ["text", "type", "component", "object", "object without component", "nothing", "other"][p.choose(7, "input")]

        class Ch:
            def __init__(self, *a, **k):
                self.args, self.given, self.component = a, k, k.get("component")

        El_, Mg, Ax = (type(n, (Ch,), {}) for n in ("Electric", "Magnetic", "Auxiliary"))
        text = p.string("text")
        low = text.lower() if isinstance(text, SymStr) else text
        starts = lambda c: z3.PrefixOf(z3.StringVal(c), low.e)
        p.assume(SymBool(z3.Length(text.e) > 0))
        p.fact(z3.Length(low.e) == z3.Length(text.e))

        def kind_is(got):
            e = starts("e")
            m = z3.And(z3.Not(e), z3.Or(starts("h"), starts("b"), low.e == "magnetic"))
            return And(SymBool(z3.BoolVal(type(got) is El_) == e), SymBool(z3.BoolVal(type(got) is Mg) == m), isinstance(got, Ch))

        with stubs((mr, "Electric", El_), (mr, "Magnetic", Mg), (mr, "Auxiliary", Ax)):
            f = Run._get_correct_channel_type
            if kind == "text":
                r = f(text)
                p.check("electric, magnetic or auxiliary by the name", kind_is(r))
                p.check("with the name as component", r.args == () and list(r.given) == ["component"] and eq(r.given["component"], text))
            elif kind in ("type", "component"):
                d = VDict()
                if kind == "type":
                    d["type"] = text
                d["component"] = text if kind == "component" else "zz"
                d["units"] = "volt"
                keys = list(d)
                r = f(d)
                if kind == "type":
                    p.check("electric, magnetic or auxiliary by the type", kind_is(r))
                else:
                    one = SymStr(z3.SubString(text.e, 0, 1)).lower()
                    e = one.e == "e"
                    p.check("electric, magnetic or auxiliary by the component's first letter",
                            And(SymBool(z3.BoolVal(type(r) is El_) == e), SymBool(z3.BoolVal(type(r) is Mg) == z3.And(z3.Not(e), z3.Or(one.e == "h", one.e == "b"))), isinstance(r, Ch)))
                p.check("with everything the dictionary gives", r.args == () and sorted(r.given) == sorted(keys) and all(r.given[k] is d[k] for k in keys))
            elif kind == "object":
                c = [El_, Mg, Ax][p.choose(3, "class")](component="ex")
                p.check("a channel stays the same object", f(c) is c)
            elif kind == "object without component":
                k = p.choose(3, "class")
                c = [El_, Mg, Ax][k]()
                if k == 2:
                    p.check("an auxiliary channel needs no component", f(c) is c)
                else:
                    p.check("a channel without a component is refused", raises(p, lambda: f(c), (ValueError,)) is not None)
            elif kind == "nothing":
                p.check("a dictionary without type and component is a KeyError", raises(p, lambda: f({"units": "volt"}), (KeyError,)) is not None)
            else:
                p.check("anything else is refused", raises(p, lambda: f(4.5), (ValueError,)) is not None)

    out.append(Contract("a channel of the right type", "Run._get_correct_channel_type", h_channel_type))

    # ------------------------------------------------ filters
    FCLS = {"pole_zero_filter": "PoleZeroFilter", "coefficient_filter": "CoefficientFilter", "time_delay_filter": "TimeDelayFilter",
            "frequency_response_table_filter": "FrequencyResponseTableFilter", "fir_filter": "FIRFilter", "f_i_r_filter": "FIRFilter"}
    FTYPE = {"PoleZeroFilter": ["zpk"], "CoefficientFilter": ["coefficient"], "TimeDelayFilter": ["time delay"], "FrequencyResponseTableFilter": ["fap", "frequency response table"], "FIRFilter": ["fir"]}

    def fstubs(mod):
        made = {}

        class F:
            def __init__(self, *a, **k):
                if a:
                    raise TypeError("takes 1 positional argument")
                self.given, self.read = k, []
                if "name" in k:
                    self.name = k["name"]

            def from_dict(self, d, *a, **k):
                self.read.append(d)
                self.name = d["name"]

        for c in sorted(set(FCLS.values())):
            made[c] = type(c, (F,), {})
        return made, [(mod, c, made[c]) for c in made]

    class Home:
        """a collection being filled by name"""

        def __init__(self, *a):
            self.got = []

        def __setitem__(self, k, v):
            self.got.append((k, v))

    def h_filters(p):
        keys = list(FCLS)
        k1 = keys[p.choose(len(keys), "kind")]
        many = bool(p.choose(2, "many"))
        p.add(z3.BoolVal(True))
        n = z3.Int("n")
        p.assume(n >= 0)
        NAME, GAIN = z3.Function("name", I, S), z3.Function("gain", I, R)

        def fdict(e):
            d = VDict()
            d["name"], d["gain"] = SymStr(NAME(e)), SymNum(GAIN(e))
            return d

        made, rep = fstubs(mx)
        homes = []

        class LD(Home):
            def __init__(self, *a):
                Home.__init__(self)
                homes.append(self)

        def right(g, e, cls):
            k, f = g
            if type(f) is not made[cls] or sorted(f.given) != ["gain", "name"]:
                return False
            return And(eq(k, SymStr(NAME(e)).lower()), eq(f.given["name"], SymStr(NAME(e))), eq(f.given["gain"], SymNum(GAIN(e))))

        def spec(L, loc, names):
            h = homes[0]

            def inv(i, env):
                if z3.is_int_value(i) or i is L.i:
                    return True
                return right(h.got[0], L.i, FCLS[k1]) if len(h.got) == 1 else False

            def havoc(i, env):
                h.got.clear()
                return {}

            iv = Inv("each filter is read once", [], havoc, inv)
            iv.may_modify = lambda x: x is h.got or x is h
            return iv

        p.loop_specs["*"] = spec
        d = VDict()
        e = z3.Int("one")
        d[k1] = SymSeq(SymNum(n), lambda i: fdict(i), "filters") if many else fdict(e)
        d["some_other"] = "text"
        with stubs(*rep, (mx, "ListDict", LD)):
            r = EX._read_filter_dict(SymObj(EX), d)
            p.check("the collection is returned", any(r is x for x in homes))
            if not many:
                p.check("a single filter is read", right(r.got[0], e, FCLS[k1]) if len(r.got) == 1 else False)
            homes.clear()
            r = EX._read_filter_dict(SymObj(EX), None)
            p.check("no filters: an empty collection", any(r is x for x in homes) and not r.got)

    out.append(Contract("filters of an XML survey", "Experiment._read_filter_dict", h_filters))

    def h_vfilters(p):
        form = ["dictionaries", "objects", "mapping"][p.choose(3, "form")]
        types = [(c, t) for c in FTYPE for t in FTYPE[c]]
        if form != "dictionaries":
            types.append((None, "no filter"))
        n = z3.Int("n")
        p.assume(n >= 0)
        NAME, GAIN, WHICH = z3.Function("name", I, S), z3.Function("gain", I, R), z3.Function("which", I, I)
        made, rep = fstubs(ms)
        homes = []

        class LD(Home):
            def __init__(self, *a):
                Home.__init__(self)
                homes.append(self)

        def which(e):
            for k in range(len(types) - 1):
                if p.branch(WHICH(e) == k):
                    return types[k]
            return types[-1]

        def elem(e):
            c, t = which(e)
            if form == "dictionaries":
                d = VDict()
                d["name"], d["gain"], d["type"], d["num"] = SymStr(NAME(e)), SymNum(GAIN(e)), t, e
                return d
            f = made[c](name=SymStr(NAME(e))) if c else 4.5
            if c:
                f.num = e
            return f

        if form == "mapping":
            ID = z3.Function("id", S, I)
            given = SymOD("given", lambda k: elem(ID(k)), n=n, pytype=dict)
            ident = lambda i: ID(given.key(i))
            name = lambda i: given.key(i)
        else:
            given = SymSeq(SymNum(n), elem, "filters")
            ident = lambda i: i
            name = lambda i: NAME(i)
        ghost = {}

        def spec(L, loc, names):
            h = homes[0]
            fails = [v for v in loc.values() if type(v) is VList and v.sym is None]

            def inv(i, env):
                if z3.is_int_value(i) or i is L.i:
                    return True
                e = ident(L.i)
                c, t = which(e)
                if c is None:
                    # the collection is dropped with an error at the end
                    return any(len(f) for f in fails)
                if len(h.got) != 1 or any(len(f) for f in fails):
                    return False
                k, f = h.got[0]
                if type(f) is not made[c]:
                    return False
                want = SymStr(name(L.i))
                ok = [eq(k, want.lower() if form == "mapping" else want)]
                if form == "dictionaries":
                    if len(f.read) != 1:
                        return False
                    ok.append(SymBool(f.read[0]["num"] == e))
                else:
                    ok.append(SymBool(f.num == e))
                return And(*ok)

            def havoc(i, env):
                h.got.clear()
                for f in fails:
                    list.clear(f)
                if not L.is_arb and p.branch(z3.Bool("an entry is no filter")):
                    ghost["bad"] = True
                    for f in fails:
                        f.append("message")
                return {}

            iv = Inv("each filter is kept once, in order, under its name", [], havoc, inv)
            iv.may_modify = lambda x: x is h.got or x is h or any(x is f for f in fails)
            return iv

        p.loop_specs["*"] = spec
        with stubs(*rep, (ms, "ListDict", LD)):
            r = None
            try:
                r = Survey.validate_filters(given, None)
            except TypeError as err:
                r = err
        if ghost.get("bad"):
            p.check("something that is no filter is a TypeError", isinstance(r, TypeError))
        else:
            p.check("the collection is returned", any(r is x for x in homes))

    out.append(Contract("filters given to a survey", "Survey.validate_filters", h_vfilters))

    # ------------------------------------------------ JSON
    def h_from_json(p):
        kind = ["text", "path text", "path", "text too long for a path", "other"][p.choose(5, "input")]
        skip = bool(p.choose(2, "skip_none"))
        got, opened = [], []

        class Doc:
            pass

        doc = Doc()

        class PathStub:
            def __init__(self, x):
                if kind == "text too long for a path":
                    raise OSError("File name too long")
                self.x = x

            def exists(self):
                return kind in ("path text", "path")

            is_file = exists

        class File:
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def read(self):
                return "file"

        def opener(x, *a, **k):
            opened.append(x)
            return File()

        class J:
            JSONEncoder = mx.json.JSONEncoder
            JSONDecodeError = mx.json.JSONDecodeError

            @staticmethod
            def load(f, *a, **k):
                if not isinstance(f, File):
                    raise Unsupported("json.load of something else")
                return doc

            @staticmethod
            def loads(x, *a, **k):
                if isinstance(x, str) and x == "file" or kind in ("text", "text too long for a path"):
                    return doc
                raise ValueError("Expecting value: line 1 column 1 (char 0)")

        class Me(Borrow):

            _real = EX

            def from_dict(self, d, skip_none=False):
                got.append((d, skip_none))

        x = {"path": PathStub("f") if kind == "path" else None, "other": 4.5}.get(kind, "text")
        mx.open = opener
        try:
            with stubs((mx, "Path", PathStub), (mx, "json", J)):
                err = raises(p, lambda: EX.from_json(Me(), x, skip_none=skip), (TypeError,))
        finally:
            del mx.open
        if kind == "other":
            p.check("anything else is a TypeError", err is not None and not got)
        else:
            p.check("the document is read once", err is None and got == [(doc, skip)])
            p.check("a file is opened exactly for a path", len(opened) == (1 if kind in ("path", "path text") else 0))

    out.append(Contract("reading JSON", "Experiment.from_json", h_from_json))

    def h_decode(p):
        kind = p.choose(3, "object")
        d = VDict()
        if kind:
            d["real"] = 1.0
        if kind == 1:
            d["name"] = "x"
        p.check("any other object is left as it is", mh.decode_complex(d) is d)

    out.append(Contract("complex arrays in JSON", "decode_complex", h_decode))

    # ------------------------------------------------ surveys of an experiment
    def home(o):
        return unl(o.surveys._home)

    def collection(p, mk):
        od = SymOD("m", mk)
        p.inputs["n"] = SymNum(od.n)
        ld = ListDict()
        ld._home = od
        return ld, od

    def b(x):
        return x if isinstance(x, SymBool) else SymBool(z3.BoolVal(bool(x)))

    def h_listing(p):
        uf = z3.Function("m.val", S, I)
        ld, od = collection(p, lambda k: SymNum(uf(k)))
        o = put(EX(), surveys=ld)
        k = p.string("k")
        inside = SymBool(od.state()[3](k.e))
        p.check("count", eq(o.n_surveys, SymNum(od.n)))
        p.check("has exactly the members", eq(b(o.has_survey(k)), inside))
        names = o.survey_names
        j = z3.Int(p.fresh("j"))
        p.add(z3.And(j >= 0, j < od.n))
        p.check("names in order", And(eq(names.n, SymNum(od.n)), eq(names.at(j), SymStr(od.key(j)))))
        g, i = o.get_survey(k), o.survey_index(k)
        if p.branch(inside.e):
            p.check("get returns the member", And(g is not None, eq(g, SymNum(uf(k.e))) if g is not None else False))
            p.check("index of the name", eq(i, SymNum(od.pos(k.e))) if i is not None else False)
        else:
            p.check("no such survey", g is None and i is None)

    out.append(Contract("listing of surveys", ["Experiment.has_survey", "Experiment.get_survey", "Experiment.survey_index", "Experiment.n_surveys"], h_listing))

    def h_remove(p):
        uf = z3.Function("m.val", S, I)
        ld, od = collection(p, lambda k: SymNum(uf(k)))
        n0, key0, pos0, has0, val0 = od.state()
        o = put(EX(), surveys=ld)
        k, x = p.string("k"), z3.String(p.fresh("x"))
        o.remove_survey(k)
        n1, key1, pos1, has1, val1 = home(o).state()
        p.check("only the named survey goes", SymBool(has1(x) == z3.And(has0(x), x != k.e)))
        p.check("the others stay as they are", Implies(SymBool(has1(x)), eq(val1(x), val0(x))))

    out.append(Contract("removing a survey", "Experiment.remove_survey", h_remove))

    def h_add(p):
        tag = z3.Function("m.tag", S, I)
        upd = []
        M = type("Member", (SymObj,), {"update": lambda self, other: upd.append((self, other))})
        ld, od = collection(p, lambda k: M(Survey, id=SymStr(k), tag=SymNum(tag(k))))
        o = put(EX(), surveys=ld)
        c, x = p.string("c"), z3.String(p.fresh("x"))
        p.ufapps.setdefault("indices", []).append(od.pos(c.e))
        new = SymObj(Survey, id=c, tag=p.int("newtag"))
        n0, key0, pos0, has0, val0 = od.state()
        o.add_survey(new)
        n1, key1, pos1, has1, val1 = home(o).state()
        p.check("nothing is lost and only the survey is added", SymBool(has1(x) == z3.Or(has0(x), x == c.e)))
        if p.branch(z3.And(has0(x), x != c.e)):
            p.check("the others stay as they are and where they are", And(eq(val1(x).tag, val0(x).tag), SymBool(pos1(x) == pos0(x))))
        if p.branch(has0(c.e)):
            p.check("a present survey is updated in place", len(upd) == 1 and upd[0][1] is new)
            if len(upd) == 1:
                p.check("the updated one is the present one", And(eq(upd[0][0].tag, SymNum(tag(c.e))), eq(val1(c.e).tag, SymNum(tag(c.e))), SymBool(pos1(c.e) == pos0(c.e))))
        else:
            p.check("a new survey goes last", And(upd == [], SymBool(z3.And(n1 == n0 + 1, key1(n0) == c.e)), eq(val1(c.e).tag, new.tag)))
        p.check("anything but a survey is a TypeError", raises(p, lambda: o.add_survey("text"), (TypeError,)) is not None)

    out.append(Contract("adding a survey", "Experiment.add_survey", h_add))
    return out


def runtime(reg):
    import functools
    import json
    import os
    import random
    import shutil
    import tempfile
    from pathlib import Path

    import numpy as np
    import pyproj

    from pyvc.rt import Skip, Violation, require
    from props.classes import leaves, value
    from mt_metadata.timeseries import Auxiliary, Electric, Magnetic, Run, Station, Survey
    from mt_metadata.timeseries.experiment import Experiment
    from mt_metadata.timeseries.filters import CoefficientFilter, FIRFilter, FrequencyResponseTableFilter, PoleZeroFilter, TimeDelayFilter

    pyproj.CRS.from_user_input = functools.lru_cache(None)(pyproj.CRS.from_user_input)
    LEAVES = {}
    OWN = {"id", "component", "channels_recorded", "channels_recorded_electric", "channels_recorded_magnetic", "channels_recorded_auxiliary", "run_list", "station_names",
           "filters_list", "type", "filters", "stations", "runs", "channels", "datum"}

    def fill(o, rng, frac, avoid=()):
        """random values in random attributes"""
        cls = type(o)
        if cls not in LEAVES:
            LEAVES[cls] = leaves(cls)
        for n, a in LEAVES[cls]:
            last = n.rsplit(".", 1)[-1]
            if n in OWN or n.startswith(("time_period", "comments", "fdsn", *avoid)) or last in ("datum", "comments") or rng.random() > frac:
                continue
            if n.split(".")[0] in ("northwest_corner", "southeast_corner", "location", "positive", "negative", "funding_source", "citation_dataset", "citation_journal"):
                continue
            v = rng.choice(["volt", "nanotesla"]) if last == "units" else value(a, rng, n)
            if v is None:
                continue
            try:
                o.update_attribute(n, v)
            except Exception:
                continue

    def mk_filter(rng, nm):
        u = lambda *a: rng.uniform(*a)
        t = rng.randint(0, 4)
        f = [lambda: CoefficientFilter(name=nm, gain=u(0.1, 9)),
             lambda: TimeDelayFilter(name=nm, delay=u(-1, 1)),
             lambda: PoleZeroFilter(name=nm, poles=np.array([complex(u(-1, 1), u(-1, 1)) for _ in range(rng.randint(0, 3))], dtype=complex),
                                    zeros=np.array([complex(u(-1, 1), 0) for _ in range(rng.randint(0, 2))], dtype=complex), normalization_factor=u(1, 5), gain=u(1, 3)),
             lambda: FrequencyResponseTableFilter(name=nm, frequencies=np.array([1.0, 2.5, 4.0]), amplitudes=np.array([u(1, 2) for _ in range(3)]), phases=np.array([u(-1, 1) for _ in range(3)])),
             lambda: FIRFilter(name=nm, coefficients=np.array([u(-1, 1) for _ in range(rng.randint(1, 5))]), decimation_input_sample_rate=u(1, 100), gain=u(1, 2))][t]()
        f.units_in, f.units_out = rng.choice(["volt", "nanotesla"]), rng.choice(["volt", "millivolt"])
        f.sequence_number = rng.randint(0, 3)
        return f

    def part_position(loc, rng):
        """some of the three numbers are 0 (the equator, Greenwich, sea level)"""
        loc.latitude, loc.longitude, loc.elevation = (rng.choice([0.0, 0.0, x]) for x in (rng.uniform(-80, 80), rng.uniform(-170, 170), rng.uniform(1, 2000)))

    def mk_channel(rng, c, names):
        ch = {"e": Electric, "h": Magnetic}.get(c[0], Auxiliary)(component=c)
        fill(ch, rng, rng.choice([0.1, 0.4]))
        ch.component = c
        ch.channel_number = rng.randint(0, 9)
        ch.measurement_azimuth = rng.uniform(0, 360)
        for n in rng.sample(names, rng.randint(0, min(3, len(names)))):
            ch.add_filter(name=n, applied=rng.random() < 0.5)
        if c[0] == "e":
            ch.dipole_length = rng.uniform(1, 200)
            if rng.random() < 0.5:
                ch.positive.latitude, ch.positive.longitude, ch.negative.latitude = rng.uniform(-80, 80), rng.uniform(-170, 170), rng.uniform(-80, 80)
            else:
                part_position(ch.positive, rng)
        else:
            part_position(ch.location, rng)
        return ch

    def mk_survey(rng, i, size=3):
        s = Survey()
        s.id = f"s{rng.randint(0, 99)}_{i}"
        fill(s, rng, rng.choice([0.1, 0.4]))
        s.country = rng.choice([["USA"], ["USA", "Canada"], ["Mexico"]])
        for k in range(rng.randint(0, 4)):
            nm = f"f{rng.randint(0, 9)}_{k}"
            s.filters[nm] = mk_filter(rng, nm)
        for j in range(rng.randint(0, size)):
            s.add_station(mk_station(rng, j, list(s.filters.keys())))
        return s

    def mk_station(rng, j, names):
        st = Station()
        st.id = f"mt{rng.randint(0, 99)}{j}"
        fill(st, rng, rng.choice([0.1, 0.3]))
        st.location.latitude, st.location.longitude, st.location.elevation = rng.uniform(-80, 80), rng.uniform(-170, 170), rng.uniform(0, 3000)
        for k in rng.sample(range(4), rng.randint(0, 3)):
            ru = Run()
            ru.id = f"{st.id}{'abcd'[k]}"
            fill(ru, rng, rng.choice([0.1, 0.3]))
            ru.sample_rate = rng.choice([1.0, 8.0, 256.0])
            ru.time_period.start = f"2020-0{rng.randint(1, 9)}-0{k + 1}T00:00:00"
            ru.time_period.end = f"2021-0{rng.randint(1, 9)}-1{k + 1}T00:00:00"
            for c in rng.sample(["ex", "ey", "hx", "hy", "hz", "temperature"], rng.randint(0, 6)):
                ru.add_channel(mk_channel(rng, c, names))
            st.add_run(ru)
        return st

    def build(seed, n=None):
        rng = random.Random(seed)
        ex = Experiment()
        for i in range(rng.choice([0, 1, 1, 2, 3]) if n is None else n):
            ex.add_survey(mk_survey(rng, i))
        return rng, ex

    def canon(v):
        if isinstance(v, np.ndarray):
            return tuple(map(complex, v.ravel()))
        if isinstance(v, (list, tuple)):
            return tuple(canon(x) for x in v)
        if isinstance(v, dict):
            return tuple((k, canon(x)) for k, x in v.items())
        return v if v is None or isinstance(v, (str, float, int)) else str(v)

    def flat(o):
        return {k: canon(v) for k, v in o.to_dict(single=True, required=False).items() if k not in ("run_list",)}

    def tree(ex):
        return [(s.id, flat(s), sorted([(k, type(f).__name__, flat(f)) for k, f in s.filters.items()], key=lambda x: x[0]),
                 [(t.id, flat(t), [(r.id, flat(r), [(c.component, type(c).__name__, flat(c)) for c in r.channels]) for r in t.runs]) for t in s.stations]) for s in ex.surveys]

    def plain(t):
        """without comments"""
        if isinstance(t, dict):
            return {k: v for k, v in t.items() if "comments" not in k}
        if isinstance(t, list):
            return [plain(x) for x in t]
        if isinstance(t, tuple) and t and isinstance(t[-1], (list, dict)):
            return tuple(plain(x) for x in t)
        return t

    def keys(ex):
        return [(k, [(k1, [(k2, list(r.channels.keys())) for k2, r in t.runs.items()]) for k1, t in s.stations.items()]) for k, s in ex.surveys.items()]

    def diff(a, b, path=""):
        if isinstance(a, dict):
            for k in a:
                if k not in b:
                    return f"{path} has lost {k} = {a[k]!r}"
                d = diff(a[k], b[k], path + "." + k)
                if d:
                    return d
            for k in b:
                if k not in a:
                    return f"{path} has gained {k} = {b[k]!r}"
        elif isinstance(a, list):
            if len(a) != len(b):
                return f"{path} holds {len(b)} members instead of {len(a)}: {[x[0] for x in b]} instead of {[x[0] for x in a]}"
            for x, y in zip(a, b):
                d = diff(x, y, path + "/" + str(x[0]))
                if d:
                    return d
        elif isinstance(a, tuple) and a and isinstance(a[-1], (list, dict)) and isinstance(b, tuple) and len(a) == len(b):
            for x, y in zip(a, b):
                d = diff(x, y, path)
                if d:
                    return d
        elif a != b or type(a) is not type(b) and {type(a), type(b)} != {int, float}:
            return f"{path} was {a!r}, is {b!r}"
        return ""

    def gen(rng, tier):
        for _ in range(30 if tier == "quick" else 600):
            yield {"seed": rng.randint(0, 10**9)}

    def same_tree(a, b, how):
        d = diff(a, b, "experiment")
        require(not d, f"read back from {how}: {d}")

    @reg.rt("dictionary round trip", gen, ["Experiment.to_dict", "Experiment.from_dict"], "30 random experiments of up to 3 surveys")
    def dicts(i):
        rng, ex = build(i["seed"])
        t, ks = tree(ex), keys(ex)
        for nested in (False, True):
            for required in (True, False):
                d = ex.to_dict(nested=nested, required=required)
                require(not diff(t, tree(ex), "experiment"), "writing changed the experiment")
                was = repr(d)
                b = Experiment()
                b.from_dict(d)
                require(repr(d) == was, "reading changed the dictionary")
                if required:
                    same_tree(t, tree(b), f"to_dict(nested={nested}, required={required})")
                else:  # the full listing gives the text of comments and its empty parts
                    same_tree(plain(t), plain(tree(b)), f"to_dict(nested={nested}, required={required})")
                require(keys(b) == ks, f"the identifiers are {keys(b)} instead of {ks}")
        require(repr(b.to_dict()) == repr(ex.to_dict()), "writing again gives another dictionary")

    @reg.rt("JSON round trip", gen, ["Experiment.to_json", "Experiment.from_json", "decode_complex"], "30 random experiments; text, file and path")
    def jsons(i):
        rng, ex = build(i["seed"])
        t, ks = tree(ex), keys(ex)
        nested = rng.random() < 0.5
        text = ex.to_json(nested=nested)
        require(not diff(t, tree(ex), "experiment"), "writing changed the experiment")
        b = Experiment()
        b.from_json(text)
        same_tree(t, tree(b), f"JSON (nested={nested})")
        require(keys(b) == ks, f"the identifiers are {keys(b)} instead of {ks}")
        d = tempfile.mkdtemp(prefix="p07")
        try:
            f = Path(d) / "ex.json"
            ex.to_json(f, nested=nested)
            for x in (f, str(f)):
                b = Experiment()
                b.from_json(x)
                same_tree(t, tree(b), "a JSON file")
        finally:
            shutil.rmtree(d)

    def expected_xml(t):
        """positions left at 0 are the station's"""
        for s in t:
            for st in s[3]:
                pos = {k: st[1]["location." + k] for k in ("latitude", "longitude", "elevation")}
                for r in st[2]:
                    for c in r[2]:
                        at = "positive." if c[1] == "Electric" else "location."
                        if all(c[2].get(at + k, 0) == 0 for k in pos):
                            for k in pos:
                                c[2][at + k] = pos[k]
        return t

    @reg.rt("XML round trip", gen, ["Experiment.to_xml", "Experiment.from_xml", "Experiment._read_filter_dict"], "30 random experiments; elements and file")
    def xmls(i):
        rng, ex = build(i["seed"])
        ref = Experiment()
        ref.from_dict(ex.to_dict())
        ref.sort()
        t, ks = expected_xml(tree(ref)), keys(ref)
        how = rng.choice(["element", "file"])
        b = Experiment()
        if how == "element":
            b.from_xml(element=ex.to_xml())
        else:
            d = tempfile.mkdtemp(prefix="p07")
            try:
                f = Path(d) / "ex.xml"
                ex.to_xml(f)
                b.from_xml(f)
            finally:
                shutil.rmtree(d)
        same_tree(t, tree(b), f"XML ({how})")
        require(keys(b) == ks, f"the identifiers are {keys(b)} instead of {ks}")
        same_tree(t, tree(ex), "writing XML; the experiment itself")

    @reg.rt("XML unsorted", gen, ["Experiment.to_xml", "Experiment.from_xml"], "30 random experiments")
    def unsorted(i):
        rng, ex = build(i["seed"])
        t, ks = tree(ex), keys(ex)
        b = Experiment()
        b.from_xml(element=ex.to_xml(sort=False), sort=False)
        got = keys(b)
        # the channels of a run are read by type
        order = {c: k for k, c in enumerate(("Electric", "Magnetic", "Auxiliary"))}
        t = expected_xml(t)
        for s in t:
            for st in s[3]:
                for r in st[2]:
                    r[2].sort(key=lambda c: order[c[1]])
        same_tree(t, tree(b), "XML written without sorting")

    @reg.rt("sorting and merging", gen, ["Experiment.sort", "Experiment.merge", "Experiment.add_survey"], "30 random experiments")
    def sorting(i):
        rng, ex = build(i["seed"])
        t = tree(ex)
        b = ex.sort(inplace=False)
        require(not diff(t, tree(ex), "experiment"), "sorting a copy changed the experiment")
        want = sorted(t, key=lambda x: x[0])
        want = [(s[0], s[1], s[2], sorted([(st[0], st[1], sorted([(r[0], r[1], sorted(r[2], key=lambda c: c[0])) for r in st[2]], key=lambda r: r[0])) for st in s[3]], key=lambda x: x[0])) for s in want]
        same_tree(want, tree(b), "sort(inplace=False)")
        ex.sort()
        same_tree(want, tree(ex), "sort()")
        o = Experiment()
        rng2 = random.Random(i["seed"] + 1)
        for k in range(rng2.randint(1, 2)):
            o.add_survey(mk_survey(rng2, f"x{k}", 1))
        t2 = tree(o)
        r = ex.merge(o)
        require(r is ex, "merging gives another experiment")
        same_tree(want + t2, tree(ex), "merge")
        same_tree(t2, tree(o), "merge; the merged one")
        n = ex.n_surveys
        names = list(ex.survey_names)
        again = mk_survey(rng2, "y", 0)
        again.id = rng2.choice(names)
        again.project = "another project"
        k = names.index(again.id)
        before = tree(ex)
        ex.add_survey(again)
        after = tree(ex)
        require(ex.n_surveys == n and [s[0] for s in after] == [s[0] for s in before], f"adding survey {again.id} again: {[s[0] for s in after]}")
        require(ex.surveys[k].project == "another project" and after[k][3] == before[k][3], "the survey added again is not updated in place")
        require([s for j, s in enumerate(after) if j != k] == [s for j, s in enumerate(before) if j != k], "another survey changed")
        ex.remove_survey(names[0])
        require(list(ex.survey_names) == names[1:], f"removing {names[0]} left {list(ex.survey_names)}")
        ex.remove_survey("no such survey")
        require(list(ex.survey_names) == names[1:] and ex.get_survey("no such survey") is None and ex.survey_index("no such survey") is None, "a missing survey")

    @reg.rt("members as dictionaries", gen, ["Survey.validate_filters", "Survey.validate_stations", "Station.validate_runs", "Run.validate_channels"], "30 random surveys")
    def members(i):
        rng = random.Random(i["seed"])
        s = mk_survey(rng, 0)
        d = s.to_dict(single=True)
        lists = {"stations": [], "filters": [f.to_dict(single=True) for f in s.filters.values()]}
        for st in s.stations:
            sd = st.to_dict(single=True)
            sd["runs"] = []
            for r in st.runs:
                rd = r.to_dict(single=True)
                rd["channels"] = [c.to_dict(single=True) for c in r.channels]
                sd["runs"].append(rd)
            lists["stations"].append(sd)
        ex = Experiment()
        ex.add_survey(s)
        t = tree(ex)
        for how in ("attributes", "experiment"):
            n = Survey()
            if how == "attributes":
                n.from_dict(d)
                n.filters = lists["filters"]
                n.stations = lists["stations"]
                b = Experiment()
                b.add_survey(n)
            else:
                b = Experiment()
                b.surveys = [{**d, **lists}]
            same_tree(t, tree(b), f"members set as lists of dictionaries ({how})")
        b = Experiment(surveys={s.id: s})
        same_tree(t, tree(b), "surveys given as a dictionary")
        for bad in (["text"], [4.5], 7):
            try:
                Experiment(surveys=bad)
            except Exception:
                continue
            raise Violation(f"surveys={bad!r} is accepted")
