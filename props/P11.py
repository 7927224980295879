"""The filters applied to a channel: stage order, single names, legacy forms."""


def contracts():
    import mt_metadata.timeseries.channel as mc
    from mt_metadata.timeseries import AppliedFilter, Electric
    from mt_metadata.timeseries.channel import ChannelBase
    from pyvc.api import (And, Collect, Contract, Filters, I, Implies, Inv, Not, Or, Search, SymBool, SymNum, SymObj, SymSeq, SymStr,
                          Unsupported, eq, put, raises, uf, z3)
    from pyvc.core import PathEnd, as_z3int
    from pyvc.helpers import VList, unl

    out = []
    S = z3.StringSort()
    NM, ST, HS = uf("filter.name", I, S), uf("filter.stage", I, I), uf("filter.hasstage", I, z3.BoolSort())

    def flt(p, i, staged=True):
        i = as_z3int(i)
        return SymObj(AppliedFilter, name=SymStr(NM(i)), stage=SymNum(ST(i)) if staged or p.branch(HS(i)) else None, applied=SymBool(z3.Bool(p.fresh("applied"))), index=SymNum(i))

    def channel(p, staged=True):
        fs = p.seq("filters", lambda i: flt(p, i, staged))
        if isinstance(fs, list):
            lst = VList(fs)
            n = z3.IntVal(len(fs))
        else:
            lst = VList()
            lst.sym = fs
            n = as_z3int(fs.n)
        c = Electric(component="ex")
        put(c, filters=lst)
        return c, fs, n

    def key(f):
        return SymNum(z3.IntVal(0)) if f.stage is None else f.stage

    def final(c):
        """the channel's filters as a sequence"""
        r = unl(c.filters)
        if isinstance(r, SymSeq):
            return r, r.n.e
        return SymSeq(SymNum(z3.IntVal(len(r))), lambda k: list(r)[k.as_long()] if z3.is_int_value(k) else pick(list(r), k), "list"), z3.IntVal(len(r))

    def pick(l, k):
        from pyvc.core import ctx

        for j, v in enumerate(l[:-1]):
            if ctx().branch(k == j):
                return v
        return l[-1]

    def where(c, fs, k):
        """the place where element k of the sequence before went"""
        from pyvc.helpers import position

        r = unl(c.filters)
        if not isinstance(r, SymSeq):
            return [j for j, v in enumerate(r) if getattr(v, "index", None) is not None and z3.is_int_value(k) and str(v.index.e) == str(k)]
        return position(r, k)

    # --------------------------------------------------------------- adding
    def mk_add(how):
        def h(p):
            c, fs, n = channel(p)
            given = bool(p.choose(2, "stage given"))
            stage = SymNum(p.int("s").e) if given else None
            name = p.string("name")
            com = SymObj(mc.Comment, tag=1)
            logged = []
            if how == "object":
                new = SymObj(AppliedFilter, name=name, stage=stage, applied=True, index=SymNum(z3.IntVal(-1)))
                call = lambda: c.add_filter(applied_filter=new)
                stored = name
            else:
                made = []

                def construct(*a, **kw):
                    # AppliedFilter keeps its arguments, the name as normalised by its validator
                    p.check("only known attributes are given", set(kw) <= {"name", "applied", "stage", "comments"} and "name" in kw and not a)
                    o = SymObj(AppliedFilter, name=SymStr(z3.Function("normal", S, S)(kw["name"].e)), stage=kw.get("stage"), applied=kw.get("applied", True),
                               comments=kw.get("comments"), index=SymNum(z3.IntVal(-1)))
                    made.append((o, kw))
                    return o

                p.loop_specs[("construct", "AppliedFilter")] = construct
                flag = SymBool(z3.Bool(p.fresh("flag")))
                withc = bool(p.choose(2, "comments"))
                call = lambda: c.add_filter(name=name, applied=flag, stage=stage, **({"comments": com} if withc else {}))
                stored = SymStr(z3.Function("normal", S, S)(name.e))
            k = z3.Int(p.fresh("k"))
            p.add(z3.And(k >= 0, k < n))
            p.ufapps.setdefault("indices", []).append(k)
            before = unl(c.filters)
            call()
            after, m = final(c)
            # existence of the name: witness or none
            if p.branch(m == n):
                p.check("a name already there adds nothing, the list stays as it is", unl(c.filters) is before if isinstance(before, SymSeq) else True)
                j = z3.Int(p.fresh("w"))
                if how == "object":
                    p.check("and the given filter is left alone", (new.stage is None) if not given else new.stage is stage)
                return
            p.check("exactly one filter is added", SymBool(m == n + 1))
            p.check("no other had its name", SymBool(NM(k) != stored.e))
            o = new if how == "object" else (made[-1][0] if made else None)
            p.check("its stage is the given one or the number of filters before plus one",
                    o is not None and o.stage is not None and eq(o.stage, stage if given else SymNum(n + 1)))
            if how == "name":
                kw = made[-1][1]
                p.check("it has the name, flag and comments given", And(eq(kw["name"], name), kw["applied"] is flag, (kw.get("comments") is com) if withc else kw.get("comments") is None))
            # it and every filter before are still there
            from pyvc.helpers import position

            r = unl(c.filters)
            if isinstance(r, SymSeq):
                new_at, k_at = position(r, n), position(r, k)
                x = r.at(new_at)
                p.check("the new filter is in the list", And(SymBool(z3.And(new_at >= 0, new_at < m)), eq(x.name, stored), x is o or eq(x.index, SymNum(z3.IntVal(-1)))))
                y = r.at(k_at)
                p.check("every filter that was there still is, unchanged", And(SymBool(z3.And(k_at >= 0, k_at < m, k_at != new_at)), SymBool(y.index.e == k), SymBool(y.name.e == NM(k)), eq(y.stage, SymNum(ST(k)))))
                a, b = z3.Int(p.fresh("a")), z3.Int(p.fresh("b"))
                p.add(z3.And(a >= 0, a < b, b < m))
                fa, fb = r.at(a), r.at(b)
                p.check("filters are in the order of their stages", key(fa) <= key(fb))
                l = z3.Int(p.fresh("l"))
                p.add(z3.And(l > k, l < n))
                if p.branch(ST(k) == ST(l)):
                    p.check("filters of one stage keep their order", SymBool(position(r, k) < position(r, l)))
                if p.branch(ST(k) == o.stage.e):
                    p.check("the new one goes after those of its stage", SymBool(k_at < new_at))
            else:
                l = list(r)
                p.check("the new filter is in the list", sum(1 for v in l if v is o) == 1)
                p.check("filters are in the order of their stages", And(*[key(a) <= key(b) for a, b in zip(l, l[1:])]))

        return h

    out.append(Contract("adding a filter", "ChannelBase.add_filter", mk_add("object")))
    out.append(Contract("adding a filter by name", "ChannelBase.add_filter", mk_add("name")))

    def h_bad(p):
        c, fs, n = channel(p)
        before = unl(c.filters)
        k = p.choose(4, "what")
        a = [dict(applied_filter="text"), dict(), dict(name=5), dict(applied_filter={"name": "x"})][k]
        e = raises(p, lambda: c.add_filter(**a))
        p.check("something else is refused", isinstance(e, (TypeError, ValueError)))
        p.check("and changes nothing", unl(c.filters) is before)

    out.append(Contract("adding something else", "ChannelBase.add_filter", h_bad))

    # ------------------------------------------------------------- removing
    def mk_remove(reset):
        def h(p):
            c, fs, n = channel(p)
            name = p.string("name")
            p.loop_specs["validators"] = {("ChannelBase", "filters")}
            RANK = z3.Function(p.fresh("kept.before"), I, I)
            done = {}

            def specs(L, loc, names):
                if not done.get("remove"):
                    done["remove"] = L

                    def elem(i):
                        i = as_z3int(i)
                        return SymObj(AppliedFilter, name=SymStr(NM(i)), stage=SymNum(RANK(i) + 1) if reset else SymNum(ST(i)), index=SymNum(i))

                    def equal(a, b):
                        same = And(eq(a.index, b.index), eq(a.name, b.name))
                        if reset:
                            return And(same, a.stage is not None and eq(a.stage, SymNum(L.sym0[0].n.e + 1)))
                        return And(same, eq(a.stage, SymNum(ST(as_z3int(a.index)))))

                    return Filters("the filters kept", [(lambda m: True, lambda i: NM(as_z3int(i)) != name.e, elem)], equal)
                return Collect("the list is taken over", lambda i: L.seq.at(i), lambda a, b: a is b or eq(a.index, b.index))

            p.loop_specs["*"] = specs
            if isinstance(fs, list):
                before = list(fs)
                stages = [f.stage for f in before]
                c.remove_filter(name, reset_stages=reset)
                got = list(c.filters)
                kept = [f for f in before if not p.branch(f.name.e == name.e)]
                p.check("exactly the other filters are left", len(got) == len(kept) and all(any(f is g for g in got) for f in kept))
                return
            c.remove_filter(name, reset_stages=reset)
            r = unl(c.filters)
            if not isinstance(r, SymSeq):
                raise Unsupported("the list of filters is not derived from the list before")
            from pyvc.helpers import position

            k = z3.Int(p.fresh("k"))
            m = r.n.e
            q, s = z3.Int(p.fresh("q")), z3.Int(p.fresh("s"))
            p.add(z3.And(q >= 0, q < s, s < m))
            x, y = r.at(q), r.at(s)
            p.check("no filter of that name is left", SymBool(x.name.e != name.e))
            p.check("every filter left is one that was there", And(x.index >= 0, SymBool(x.index.e < n), SymBool(x.name.e == NM(x.index.e))))
            p.check("each once", SymBool(x.index.e != y.index.e))
            p.check("in the order of their stages", key(x) <= key(y))
            p.add(z3.And(k >= 0, k < n, NM(k) != name.e))
            at = position(r, k)
            z = r.at(at)
            p.check("every other filter is left", SymBool(z3.And(at >= 0, at < m, z.index.e == k)))
            if not reset:
                p.check("with its stage", eq(z.stage, SymNum(ST(k))))
                if p.branch(ST(x.index.e) == ST(y.index.e)):
                    p.check("filters of one stage keep their order", SymBool(x.index.e < y.index.e))

        return h

    out.append(Contract("removing a filter, numbering the others", ["ChannelBase.remove_filter", "ChannelBase.parse_filters_string", "ChannelBase.validate_filters"], mk_remove(True)))
    out.append(Contract("removing a filter", ["ChannelBase.remove_filter", "ChannelBase.parse_filters_string", "ChannelBase.validate_filters"], mk_remove(False)))

    # -------------------------------------------------------------- finding
    def h_get(p):
        c, fs, n = channel(p)
        name = p.string("name")
        k = z3.Int(p.fresh("k"))
        p.add(z3.And(k >= 0, k < n))
        p.ufapps.setdefault("indices", []).append(k)
        p.loop_specs["*"] = lambda L, loc, names: Search("none so far has the name", lambda i: NM(as_z3int(i)) != name.e)
        r = c.get_filter(name)
        if r is None:
            p.check("None only when no filter has the name", SymBool(NM(k) != name.e))
        else:
            p.check("the filter found has the name", eq(r.name, name))
            p.check("and is one of the channel's", And(r.index >= 0, SymBool(r.index.e < n)))

    out.append(Contract("finding a filter", "ChannelBase.get_filter", h_get))

    def h_names(p):
        c, fs, n = channel(p)
        r = unl(c.filter_names)
        if isinstance(r, SymSeq):
            k = z3.Int(p.fresh("k"))
            p.add(z3.And(k >= 0, k < n))
            p.check("one name per filter", SymBool(r.n.e == n))
            p.check("in order", SymBool(r.at(k).e == NM(k)))
        else:
            p.check("the names in order", len(r) == len(fs) and And(*[eq(a, f.name) for a, f in zip(r, fs)]))

    out.append(Contract("filter names", "ChannelBase.filter_names", h_names))

    # ----------------------------------------------------- assigning a list
    def h_assign(p):
        c, _, _ = channel(p)
        vals = p.seq("new", lambda i: flt(p, i, staged=False))
        p.loop_specs["validators"] = {("ChannelBase", "filters")}
        p.loop_specs["*"] = lambda L, loc, names: Collect("the list is taken over", lambda i: L.seq.at(i), lambda a, b: a is b or eq(a.index, b.index))
        lst = VList(vals) if isinstance(vals, list) else VList()
        if not isinstance(vals, list):
            lst.sym = vals
        given = lst.sym
        import pyvc.helpers as H

        H.setattr_(c, "filters", lst)
        p.check("the given list is left alone", lst.sym is given)
        r = unl(c.filters)
        if not isinstance(r, SymSeq):
            if isinstance(vals, list):
                p.check("all of them", len(list(r)) == len(vals))
                return
            raise Unsupported("the list of filters is not derived from the given one")
        from pyvc.helpers import position

        n = vals.n.e
        k, q, s = (z3.Int(p.fresh(v)) for v in "kqs")
        p.add(z3.And(k >= 0, k < n, q >= 0, q < s, s < n))
        p.check("as many as given", SymBool(r.n.e == n))
        x, y = r.at(q), r.at(s)
        p.check("in the order of their stages, none counted as 0", key(x) <= key(y))
        p.check("each once", SymBool(x.index.e != y.index.e))
        if p.branch(key(x).e == key(y).e):
            p.check("those of one stage in the order given", SymBool(x.index.e < y.index.e))
        at = position(r, k)
        z = r.at(at)
        p.check("every given filter is there", SymBool(z3.And(at >= 0, at < n, z.index.e == k)))

    out.append(Contract("assigning a list", ["ChannelBase.parse_filters_string", "ChannelBase.validate_filters"], h_assign))

    # --------------------------------------------------------- older forms
    def h_old_names(p):
        c, _, _ = channel(p)
        raw = uf("raw.name", I, S)
        vals = p.seq("names", lambda i: SymStr(raw(as_z3int(i))))
        from pyvc.core import _LOWER, _STRIP

        p.loop_specs["*"] = lambda L, loc, names: Collect("each name", lambda i: SymStr(_LOWER(_STRIP(raw(as_z3int(i))))))
        form = p.choose(2, "list or text")
        if isinstance(vals, list):
            r = unl(c._validate_filtered_name(list(vals)))
            p.check("one name each", len(r) == len(vals))
            for a, b in zip(r, vals):
                p.check("the name, stripped and in lower case", SymBool(a.e == _LOWER(_STRIP(b.e))))
            return
        if form:
            raise PathEnd("texts below")
        lst = VList()
        lst.sym = vals
        r = unl(c._validate_filtered_name(lst))
        n, k = vals.n.e, z3.Int(p.fresh("k"))
        p.add(z3.And(k >= 0, k < n))
        p.check("one name each", SymBool(r.n.e == n))
        p.check("the name, stripped and in lower case", SymBool(r.at(k).e == _LOWER(_STRIP(raw(k)))))

    out.append(Contract("older names", "ChannelBase._validate_filtered_name", h_old_names))

    def h_old(p):
        """every pair of an older list becomes one added filter, in order"""
        c, _, _ = channel(p)
        nm, ap = uf("old.name", I, S), uf("old.applied", I, z3.BoolSort())
        names, flags = p.seq("names", lambda i: SymStr(nm(as_z3int(i)))), p.seq("flags", lambda i: SymBool(ap(as_z3int(i))))
        fmt = ["filter", "filtered"][p.choose(2, "format")]
        added, other = [], []
        raw_n, raw_f = SymObj(list, tag="n"), SymObj(list, tag="f")
        c.__dict__["_validate_filtered_applied"] = lambda x: (p.check("flags from the flags", x is raw_f), flags)[1]
        c.__dict__["_validate_filtered_name"] = lambda x: (p.check("names from the names", x is raw_n), names)[1]
        c.__dict__["add_filter"] = lambda *a, **kw: added.append((a, kw))
        c.__dict__["update_attribute"] = lambda n_, v: other.append((n_, v))
        # wrapped lists: the two validators above give sequences of any length
        state = {}

        def specs(L, loc, nms):
            if L.seq is None or isinstance(L.seq, list):
                return None
            state["L"] = L

            def inv(i, env):
                if L.is_arb and i is not L.i and not z3.is_int_value(i):
                    j = L.i
                    good = len(added) == 1 and not added[0][0]
                    if not good:
                        return False
                    kw = added[0][1]
                    return And(set(kw) == {"name", "applied"}, SymBool(kw["name"].e == nm(j)), eq(kw["applied"], SymBool(ap(j))))
                return True

            def havoc(i, env):
                added.clear()
                return {}

            return Inv("each pair is added once, in order", [], havoc, inv)

        p.loop_specs["*"] = specs
        d = {"component": "ex", f"{fmt}.applied": raw_f, f"{fmt}.name": raw_n}
        keys = list(d)
        e = raises(p, lambda: c.from_dict(d), (mc.MTSchemaError,))
        p.check("the input is left alone", list(d) == keys and d[f"{fmt}.applied"] is raw_f and d[f"{fmt}.name"] is raw_n)
        nn, nf = (z3.IntVal(len(x)) if isinstance(x, list) else x.n.e for x in (names, flags))
        if e is not None:
            p.check("an error only for lists of different lengths", SymBool(z3.And(nn != nf, nn > 0, nf > 0)))
            p.check("and nothing is added", not added)
            return
        p.check("different lengths are an error", SymBool(z3.Or(nn == nf, nn == 0, nf == 0)))
        p.check("the other attributes are set", other == [("component", "ex")])
        if "L" not in state:
            if isinstance(names, list) and isinstance(flags, list) and names and flags:
                p.check("each pair is added", len(added) == len(names) and And(*[And(eq(kw["name"], a), eq(kw["applied"], b)) for (_, kw), a, b in zip(added, names, flags)]))
            elif not isinstance(names, list):
                p.check("the pairs are left out only when there are none", SymBool(z3.Or(nn == 0, nf == 0)))

    out.append(Contract("older lists", "ChannelBase.from_dict", h_old))

    def h_new(p):
        """every entry of the list of filters becomes one added filter, in order"""
        c, _, _ = channel(p)
        objs = bool(p.choose(2, "objects"))
        items = p.seq("items", lambda i: flt(p, i) if objs else Doc(tag=SymNum(as_z3int(i))))
        added, state = [], {}

        class Made:
            def __init__(self):
                self.read = []

            def from_dict(self, d, **kw):
                self.read.append(d)

        p.loop_specs[("construct", "AppliedFilter")] = lambda *a, **kw: Made()
        c.__dict__["add_filter"] = lambda *a, **kw: added.append((a, kw))
        c.__dict__["update_attribute"] = lambda n_, v: None

        def right(call, item):
            a, kw = call
            f = kw.get("applied_filter", a[0] if a else None)
            if objs:
                return eq(f.index, item.index)
            return isinstance(f, Made) and len(f.read) == 1 and (f.read[0] is item or eq(f.read[0].tag, item.tag))

        def specs(L, loc, nms):
            state["L"] = L

            def inv(i, env):
                if L.is_arb and i is not L.i and not z3.is_int_value(i):
                    return len(added) == 1 and right(added[0], L.seq.at(L.i))
                return True

            return Inv("each entry is added once, in order", [], lambda i, env: added.clear() or {}, inv)

        p.loop_specs["*"] = specs
        lst = items
        if not isinstance(items, list):
            lst = VList()
            lst.sym = items
        c.from_dict({"component": "ex", "filters": lst})
        if isinstance(items, list):
            p.check("each entry is added", len(added) == len(items) and And(*[right(a, b) for a, b in zip(added, items)]))
        else:
            p.check("the entries are gone through", "L" in state)

    class Doc(dict):
        """a dictionary describing one filter"""

        def __init__(self, tag):
            dict.__init__(self, applied_filter={})
            self.tag = tag

    out.append(Contract("list of filters", "ChannelBase.from_dict", h_new))
    return out


def runtime(reg):
    import json
    from collections import OrderedDict

    import numpy as np

    from pyvc.rt import Skip, require
    from mt_metadata.timeseries import AppliedFilter, Auxiliary, Electric, Magnetic
    from loguru import logger

    logger.remove()
    import functools

    import pyproj

    pyproj.CRS.from_user_input = functools.lru_cache(None)(pyproj.CRS.from_user_input)
    KINDS = {"electric": (Electric, "ex"), "magnetic": (Magnetic, "hx"), "auxiliary": (Auxiliary, "temperature")}
    NAMES = ["LowPass", "lowpass", "high pass", "mV/count", "mv per count", "ADC gain", "adc gain", "dipole_92.0", "V/m", "x", "X", "a/b/c", "notch,60", " pad "]

    def norm(s):
        return s.replace("/", " per ").lower()

    def state(c):
        return [(f.name, f.applied, f.stage, f.comments.value) for f in c.filters]

    def key(e):
        return 0 if e[2] is None else e[2]

    def model_add(m, name, applied, stage, com):
        """the filters after adding one"""
        if any(e[0] == norm(name) for e in m):
            return m
        e = (norm(name), applied, len(m) + 1 if stage is None else stage, com)
        at = len([x for x in m if key(x) <= key(e)])
        return m[:at] + [e] + m[at:]

    # ------------------------------------------------------------ histories
    def gen_ops(rng, tier):
        for _ in range(500 if tier == "quick" else 8000):
            pool = rng.sample(NAMES, rng.randint(2, len(NAMES)))
            ops = []
            for _ in range(rng.randint(1, 14)):
                o = rng.choice(["name", "name", "object", "object", "remove", "remove", "keep", "get", "again"])
                d = {"op": o, "name": rng.choice(pool), "pick": rng.randint(0, 20)}
                if o in ("name", "object"):
                    d.update(applied=rng.random() < .6, stage=rng.choice([None, None, 1, 1, 2, 3, 5, 0, -1, 12]), com=rng.choice([None, None, "checked", "stage of the logger"]))
                ops.append(d)
            yield {"kind": rng.choice(list(KINDS)), "ops": ops}

    @reg.rt("history", gen_ops, ["ChannelBase.add_filter", "ChannelBase.remove_filter", "ChannelBase.get_filter", "ChannelBase.filter_names"], "500 histories of up to 14 operations")
    def history(kind, ops):
        cls, comp = KINDS[kind]
        c, other = cls(component=comp), cls(component=comp)
        m = []
        for n, o in enumerate(ops):
            ob = list(c.filters)
            said = f"operation {n} ({o['op']} {o['name']!r})"
            if o["op"] == "name":
                kw = {} if o["com"] is None else {"comments": o["com"]}
                if o["stage"] is not None or o["pick"] % 2:
                    kw["stage"] = o["stage"]
                c.add_filter(name=o["name"], applied=o["applied"], **kw)
                m = model_add(m, o["name"], o["applied"], o["stage"], o["com"])
            elif o["op"] == "object":
                kw = {} if o["com"] is None else {"comments": o["com"]}
                f = AppliedFilter(name=o["name"], applied=o["applied"], stage=o["stage"], **kw)
                before = m
                m = model_add(m, o["name"], o["applied"], o["stage"], o["com"])
                c.add_filter(applied_filter=f) if o["pick"] % 2 else c.add_filter(f)
                if m is before:
                    require(f.stage == o["stage"], f"{said}: a filter that was not added got the stage {f.stage}")
            elif o["op"] == "again" and m:
                e = m[o["pick"] % len(m)]
                c.add_filter(name=e[0], applied=not e[1], stage=9)
            elif o["op"] in ("remove", "keep"):
                name = m[o["pick"] % len(m)][0] if m and o["pick"] % 4 else "absent"
                m = [e for e in m if e[0] != name]
                if o["op"] == "remove":
                    m = [(*e[:2], k + 1, e[3]) for k, e in enumerate(m)]
                    c.remove_filter(name)
                else:
                    c.remove_filter(name, reset_stages=False)
                said += f" of {name!r}"
            elif o["op"] == "get":
                for e in m:
                    f = c.get_filter(e[0])
                    require(f is not None and (f.name, f.applied, f.stage, f.comments.value) == e and any(f is g for g in c.filters), f"{said}: getting {e[0]!r} gives {f}")
                require(c.get_filter("absent") is None, f"{said}: a filter that is not there is found")
                require(c.get_filter("") is None, f"{said}: a filter that is not there is found")
            got = state(c)
            require(got == m, f"{said}: the filters are {got} instead of {m}")
            require(c.filter_names == [e[0] for e in m], f"{said}: the names are {c.filter_names}")
            st = [key(e) for e in got]
            require(st == sorted(st) and len({e[0] for e in got}) == len(got), f"{said}: {got} is not in the order of the stages with single names")
            if o["op"] in ("name", "object"):
                require(all(any(f is g for g in c.filters) for f in ob), f"{said}: a filter that was there was replaced")
            require(other.filters == [], f"{said}: another channel has filters")

    # --------------------------------------------------------- forms of lists
    def gen_forms(rng, tier):
        for _ in range(500 if tier == "quick" else 8000):
            es = []
            for _ in range(rng.randint(0, 6)):
                es.append([rng.choice(NAMES + ["b", "c", "d"]), rng.random() < .5, rng.choice([None, 1, 2, 2, 3, 4, 7, 0]), rng.choice([None, None, "good"])])
            yield {"kind": rng.choice(list(KINDS)), "entries": es, "form": rng.choice(FORMS), "nested": rng.random() < .5, "single": rng.random() < .2}

    FORMS = ["dicts", "objects", "json", "python", "odict", "assign dicts", "assign objects", "assign json", "constructor"]

    @reg.rt("forms", gen_forms, ["ChannelBase.from_dict", "ChannelBase.parse_filters_string", "ChannelBase.validate_filters"], "500 filter lists in nine forms")
    def forms(kind, entries, form, nested, single):
        cls, comp = KINDS[kind]
        if single:
            entries = entries[:1]

        def doc(e, odict=False):
            d = {"name": e[0], "applied": e[1]}
            if e[2] is not None:
                d["stage"] = e[2]
            if e[3] is not None and form in ("dicts", "objects"):
                d["comments"] = e[3] if form == "objects" else {"value": e[3]}
            if odict:
                d = OrderedDict(d)
                return OrderedDict([("applied_filter", d)]) if nested else d
            return {"applied_filter": d} if nested else d

        as_given = False
        docs = [doc(e) for e in entries]
        objs = [AppliedFilter(**{k: v for k, v in (d["applied_filter"] if nested else d).items()}) for d in docs]
        want = []
        c = cls(component=comp)
        if form in ("dicts", "objects"):
            if form == "dicts":
                src = docs if nested else [dict(applied_filter=d) for d in docs]
                c.from_dict({"component": comp, "filters": src})
            else:
                c.from_dict({"component": comp, "filters": objs})
            for e in entries:
                want = model_add(want, e[0], e[1], e[2], e[3])
        else:
            com = [None] * len(entries)
            if form in ("json", "assign json"):
                text = json.dumps(docs)
            elif form == "python":
                text = repr(docs)
            else:
                text = repr([doc(e, True) for e in entries])
            if "objects" in form:
                vals = objs
            elif "dicts" in form or form == "constructor":
                vals = [d["applied_filter"] if nested else d for d in docs]
            else:
                vals = text
            if form.startswith("assign"):
                given = list(vals) if isinstance(vals, list) else None
                c.filters = vals
                require(given is None or all(a is b for a, b in zip(given, vals)) and len(given) == len(vals), "the list assigned was changed")
            elif form == "constructor":
                c = cls(component=comp, filters=vals)
            else:
                c.from_dict({"component": comp, "filters": vals})
            want = sorted([(norm(e[0]), e[1], e[2], None) for e in entries], key=key)
        got = [e if form in ("dicts", "objects") else (*e[:3], None) for e in state(c)]
        require(got == want, f"{form}: filters {got} instead of {want}")
        # and they survive writing and reading
        if form not in ("dicts", "objects"):
            return
        for how in ("dict", "json", "xml"):
            d = cls(component=comp)
            if how == "dict":
                d.from_dict(c.to_dict())
            elif how == "json":
                d.from_json(c.to_json()) if hasattr(d, "from_json") else None
            else:
                if not want or any(e[0] != e[0].strip() for e in want):
                    continue
                d.from_xml(c.to_xml())
            require(state(d) == want, f"after {how}: filters {state(d)} instead of {want}")

    # ------------------------------------------------------------ older forms
    def gen_old(rng, tier):
        for _ in range(700 if tier == "quick" else 8000):
            n = rng.randint(0, 5)
            names = [rng.choice([x for x in NAMES if "," not in x] + ["b", "c", "d", "e"]) for _ in range(n)]
            flags = [rng.random() < .5 for _ in range(n)]
            if rng.random() < .2 and n:
                flags = flags[:-1] if rng.random() < .5 else flags + [True]
            yield {"kind": rng.choice(list(KINDS)), "word": rng.choice(["filter", "filtered"]), "names": names, "flags": flags, "how": rng.choice(["list", "text", "array", "bytes"]),
                   "aform": rng.choice(["list", "tuple", "array", "text", "json", "spaced", "ints", "words", "single"]), "nested": rng.random() < .4, "wrapped": rng.random() < .3,
                   "extra": rng.choice([None, None, [["b", False, 1], ["zz", True, None]]])}

    @reg.rt("older forms", gen_old, ["ChannelBase.from_dict", "ChannelBase._validate_filtered_applied", "ChannelBase._validate_filtered_name"], "700 older filter dictionaries")
    def old(kind, word, names, flags, how, aform, nested, wrapped, extra):
        cls, comp = KINDS[kind]
        if aform == "single":
            if len(flags) != 1:
                raise Skip
            a = flags[0]
        elif aform == "tuple":
            a = tuple(flags)
        elif aform == "array":
            a = np.array(flags, dtype=bool)
        elif aform == "text":
            a = ",".join(str(f) for f in flags)
        elif aform == "json":
            a = json.dumps(flags)
        elif aform == "spaced":
            a = "[" + " ".join(str(f) for f in flags) + "]"
        elif aform == "ints":
            a = [int(f) for f in flags]
        elif aform == "words":
            a = ["true" if f else "false" for f in flags]
        else:
            a = list(flags)
        if how == "text":
            nm = ", ".join(names)
        elif how == "array":
            nm = np.array(names)
        elif how == "bytes":
            nm = np.array([n.encode() for n in names]) if names else np.array([], dtype="S1")
        else:
            nm = list(names)
        d = {"component": comp, word: {"applied": a, "name": nm}} if nested else {"component": comp, f"{word}.applied": a, f"{word}.name": nm}
        if extra is not None:
            d["filters"] = [{"applied_filter": {k: v for k, v in zip(("name", "applied", "stage"), e) if v is not None}} for e in extra]
        d = {kind: d} if wrapped else d
        c = cls(component=comp)
        want = []
        if names and flags:
            if len(names) != len(flags):
                try:
                    c.from_dict(d)
                except Exception:
                    return
                require(False, f"{len(names)} names with {len(flags)} flags were accepted, giving {state(c)}")
            for n, f in zip(names, flags):
                want = model_add(want, n.strip(), f, None, None)
        for e in extra or ():
            want = model_add(want, *e, None)
        c.from_dict(d)
        require(state(c) == want, f"filters {state(c)} instead of {want}")
        require(c.component == comp, "the component was lost")
