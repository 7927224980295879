"""The ordered keyed collection that holds surveys, stations, runs, channels."""

FN = "mt_metadata.common.list_dict:ListDict."
ASSUMPTIONS = [
    "item identifiers are text; stored items are opaque values (identity only)",
    "the object key of an item is its `id`, else its `component` attribute (checked on the real lookup function)",
]


# ------------------------------------------------------------------ proofs
def contracts():
    from pyvc.api import And, Contract, Implies, Inv, Not, Or, SymBool, SymNum, SymObj, SymSeq, SymStr, eq, raises, z3, num_z3
    from pyvc.mapmodel import SymOD
    from mt_metadata.common.list_dict import ListDict

    I, S = z3.IntSort(), z3.StringSort()
    out = []

    def make(p, nm="home"):
        uf = z3.Function(nm + ".val", S, I)
        od = SymOD(nm, lambda k: SymNum(uf(k)))
        p.inputs["n." + nm] = SymNum(od.n)
        ld = ListDict()
        ld._home = od
        return ld, od.state()

    def st(ld):
        from pyvc.helpers import unl

        return unl(ld._home).state()

    def key_in(p, n, name="j"):
        i = z3.Int(p.fresh(name))
        p.assume(z3.And(i >= 0, i < n))
        return i

    def anykey(p, name="K"):
        return z3.String(p.fresh(name))

    def same_at(a, b, K):
        """the two collections agree on key K (presence and value)"""
        return And(SymBool(a[3](K) == b[3](K)), Implies(a[3](K), eq(a[4](K), b[4](K))))

    def add(name, fns, h, covers=("returns",), **kw):
        def wrapped(p):
            for c in covers:
                p.declare_cover(c)
            h(p)

        out.append(Contract(name, [FN + f for f in fns], wrapped, replay=("model", REPLAY), **kw))

    def REPLAY(m):
        return {"n": min(int(m.get("n.home", 3) or 0), 6), "ops": DEFAULT_OPS}

    # -- lookups
    def get_key(p):
        ld, s = make(p)
        k = p.string("k")
        e = raises(p, lambda: p.__setattr__("r", ld[k]), KeyError)
        if e is None:
            p.cover("returns")
            p.check("an item found by identifier is the one stored under it", And(s[3](k.e), eq(p.r, s[4](k.e))))
        else:
            p.cover("absent")
            p.check("an identifier lookup fails only when the identifier is absent", Not(s[3](k.e)))
        same(p, ld, s)

    def same(p, ld, s):
        K, j = anykey(p), key_in0(p)
        t = st(ld)
        p.check("the collection is unchanged", And(t[0] == s[0], same_at(t, s, K), Implies(z3.And(j >= 0, j < s[0]), eq(SymStr(t[1](j)), SymStr(s[1](j))))))

    def key_in0(p):
        return z3.Int(p.fresh("j"))

    add("lookup by identifier", ["__getitem__"], get_key, ("returns", "absent"))

    def get_index(p):
        ld, s = make(p)
        i = p.int("i")
        p.ufapps.setdefault("indices", []).append(i.e)
        e = raises(p, lambda: p.__setattr__("r", ld[i]), KeyError)
        if e is None:
            p.cover("returns")
            p.check("an item found by position is the one stored there",
                    And(i >= 0, i < SymNum(s[0]), eq(p.r, s[4](s[1](i.e)))))
        else:
            p.cover("absent")
            p.check("a position lookup fails only outside the range", Or(i < 0, i >= SymNum(s[0])))
        same(p, ld, s)

    add("lookup by position", ["__getitem__", "_get_key_from_index"], get_index, ("returns", "absent"))

    def index_of(p):
        ld, s = make(p)
        k = p.string("k")
        s_pos = s[2](k.e)
        p.ufapps.setdefault("indices", []).append(s_pos)
        e = raises(p, lambda: p.__setattr__("r", ld._get_index_from_key(k)), KeyError)
        if e is None:
            p.cover("returns")
            p.check("position of an identifier", And(s[3](k.e), eq(p.r, SymNum(s_pos)), eq(SymStr(s[1](num_z3(p.r))), k)))
        else:
            p.cover("absent")
            p.check("no position only for an absent identifier", Not(s[3](k.e)))

    add("position of an identifier", ["_get_index_from_key"], index_of, ("returns", "absent"))

    def listing(p):
        ld, s = make(p)
        j = z3.Int(p.fresh("j"))
        p.assume(z3.And(j >= 0, j < s[0]))
        p.cover("returns")
        ks, vs = ld.keys(), ld.values()
        p.check("identifiers are listed in order, each once", And(eq(ks.n, SymNum(s[0])), eq(ks.at(j), SymStr(s[1](j)))))
        p.check("items are listed in the same order", And(eq(vs.n, SymNum(s[0])), eq(vs.at(j), s[4](s[1](j)))))
        from pyvc.helpers import b_len

        p.check("the size is the number of identifiers", eq(b_len(ld._home), SymNum(s[0])))
        it = ld.items().at(j)
        p.check("pairs join identifier and item", And(eq(it[0], SymStr(s[1](j))), eq(it[1], s[4](s[1](j)))))

    add("listing", ["keys", "values", "items"], listing)

    # -- writes
    def put_check(p, ld, s, k, v, what):
        """k -> v stored, everything else and all positions kept"""
        t = st(ld)
        K, j = anykey(p), z3.Int(p.fresh("j"))
        had = s[3](k)
        p.check(f"{what}: the item is stored under its identifier", And(t[3](k), eq(t[4](k), v)))
        p.check(f"{what}: every other item is kept", Implies(K != k, same_at(t, s, K)))
        p.check(f"{what}: order of the others is kept", Implies(z3.And(j >= 0, j < s[0]), eq(SymStr(t[1](j)), SymStr(s[1](j)))))
        p.check(f"{what}: size grows only for a new identifier, which goes last",
                And(Implies(had, t[0] == s[0]), Implies(z3.Not(had), And(t[0] == s[0] + 1, SymBool(t[1](s[0]) == k)))))

    def set_key(p):
        ld, s = make(p)
        k, v = p.string("k"), p.int("v")
        p.cover("returns")
        ld[k] = v
        put_check(p, ld, s, k.e, v, "assignment by identifier")

    add("assignment by identifier", ["__setitem__"], set_key)

    class WithId:
        id = ""

    class WithComponent:
        component = ""

    class Plain:
        pass

    def item(p, kinds=3):
        c = p.choose(kinds, "kind")
        k = p.string("okey")
        if c == 0:
            o = SymObj(WithId, id=k)
            if p.branch(z3.Bool(p.fresh("both"))):
                o = SymObj(type("Both", (WithId, WithComponent), {}), id=k, component=p.string("ocomp"))
            return o, k
        if c == 1:
            return SymObj(WithComponent, component=k), k
        return SymObj(Plain), None

    class Ident:
        """objects compare by identity here"""

    def set_index(p):
        ld, s = make_obj(p)
        i = p.int("i")
        p.ufapps.setdefault("indices", []).append(i.e)
        v, k = item(p)
        p.cover("returns")
        inside = And(i >= 0, i < SymNum(s[0]))
        ld[i] = v
        from pyvc.helpers import to_text

        if p.branch(inside.e):
            key = s[1](i.e)
        elif k is not None:
            key = k.e
        else:
            key = to_text(i).e
        put_obj(p, ld, s, key, v, "assignment by position")

    def make_obj(p, nm="home"):
        """values are opaque objects (one per identifier)"""
        cache = {}

        def val(k):
            return cache.setdefault(k.get_id(), (SymObj(Plain), k))[0]

        od = SymOD(nm, val)
        p.inputs["n." + nm] = SymNum(od.n)
        ld = ListDict()
        ld._home = od
        return ld, od.state()

    def put_obj(p, ld, s, key, v, what):
        t = st(ld)
        K, j = anykey(p), z3.Int(p.fresh("j"))
        had = s[3](key)
        p.check(f"{what}: the item is stored under its identifier", And(t[3](key), t[4](key) is v))
        p.assume(K != key)
        p.check(f"{what}: every other item is kept", And(t[3](K) == s[3](K), t[4](K) is s[4](K)))
        p.check(f"{what}: order of the others is kept", Implies(z3.And(j >= 0, j < s[0]), eq(SymStr(t[1](j)), SymStr(s[1](j)))))
        p.check(f"{what}: size grows only for a new identifier, which goes last",
                And(Implies(had, t[0] == s[0]), Implies(z3.Not(had), And(t[0] == s[0] + 1, SymBool(t[1](s[0]) == key)))))

    add("assignment by position", ["__setitem__", "_get_key_from_index", "_get_key_from_object"], set_index)

    def append(p):
        ld, s = make_obj(p)
        v, k = item(p)
        p.cover("returns")
        ld.append(v)
        from pyvc.helpers import to_text

        put_obj(p, ld, s, k.e if k is not None else to_text(SymNum(s[0])).e, v, "append")

    add("append", ["append", "_get_key_from_object"], append)

    def gone(p, ld, s, k, what):
        t = st(ld)
        K, j = anykey(p), z3.Int(p.fresh("j"))
        at = s[2](k)
        p.check(f"{what}: the item is gone", And(Not(t[3](k)), t[0] == s[0] - 1))
        p.check(f"{what}: every other item is kept", Implies(K != k, same_at(t, s, K)))
        p.check(f"{what}: the others keep their order",
                Implies(z3.And(j >= 0, j < t[0]), eq(SymStr(t[1](j)), SymStr(z3.If(j < at, s[1](j), s[1](j + 1))))))

    def remove_key(p):
        ld, s = make(p)
        k = p.string("k")
        e = raises(p, lambda: ld.remove(k), KeyError)
        if e is None:
            p.cover("returns")
            p.check("only a present identifier can be removed", s[3](k.e))
            gone(p, ld, s, k.e, "remove")
        else:
            p.cover("absent")
            p.check("removal fails only when absent", Not(s[3](k.e)))
            same(p, ld, s)

    add("remove by identifier", ["remove"], remove_key, ("returns", "absent"))

    def remove_index(p):
        ld, s = make(p)
        i = p.int("i")
        p.ufapps.setdefault("indices", []).append(i.e)
        e = raises(p, lambda: ld.remove(i), KeyError)
        if e is None:
            p.cover("returns")
            p.check("only a present position can be removed", And(i >= 0, i < SymNum(s[0])))
            gone(p, ld, s, s[1](i.e), "remove")
        else:
            p.cover("absent")
            p.check("removal fails only outside the range", Or(i < 0, i >= SymNum(s[0])))
            same(p, ld, s)

    add("remove by position", ["remove", "_get_key_from_index"], remove_index, ("returns", "absent"))

    def pop(p):
        ld, s = make(p)
        k = p.string("k")
        e = raises(p, lambda: p.__setattr__("r", ld.pop(k)), KeyError)
        if e is None:
            p.cover("returns")
            p.check("only a present identifier can be popped", s[3](k.e))
            ((kk, vv),) = [(a, b) for a, b in pairs(p.r)]
            p.check("pop returns the named item", And(eq(kk, k), eq(vv, s[4](k.e))))
            gone(p, ld, s, k.e, "pop")
        else:
            p.cover("absent")
            p.check("pop fails only when absent", Not(s[3](k.e)))
            same(p, ld, s)

    def pairs(d):
        from pyvc.helpers import unl

        d = unl(d)
        it = d.items()
        if isinstance(it, SymSeq):
            return [it.at(z3.IntVal(i)) for i in range(z3.simplify(it.n.e).as_long())]
        return list(it)

    add("pop", ["pop"], pop, ("returns", "absent"))

    def clear(p):
        ld, s = make(p)
        p.cover("returns")
        ld.clear()
        t = st(ld)
        p.check("clear leaves nothing", And(t[0] == 0, Not(t[3](anykey(p)))))

    add("clear", ["clear"], clear)

    def do_slice(p):
        ld, s = make(p)
        n = SymNum(s[0])

        def bound(nm):
            c = p.choose(3, nm)
            if c == 0:
                return None, None
            if c == 1:
                v = p.int(nm)
                return v, v
            k = p.string(nm + ".k")
            p.assume(s[3](k.e))
            p.ufapps.setdefault("indices", []).append(s[2](k.e))
            return k, SymNum(s[2](k.e))

        a, ai = bound("a")
        b, bi = bound("b")
        p.cover("returns")
        sub = ld[slice(a, b)]
        p.check("a slice is a collection of the same kind", type(sub) is ListDict)
        t = st(sub)

        def norm(v, dflt):
            if v is None:
                return dflt
            v = num_z3(v)
            v = z3.If(v < 0, v + n.e, v)
            return z3.If(v < 0, z3.IntVal(0), z3.If(v > n.e, n.e, v))

        lo, hi = norm(ai, z3.IntVal(0)), norm(bi, n.e)
        m = z3.If(hi > lo, hi - lo, z3.IntVal(0))
        p.check("slice size", t[0] == m)
        j = z3.Int(p.fresh("j"))
        p.assume(z3.And(j >= 0, j < m))
        p.check("a slice holds the items between its bounds, in order",
                And(SymBool(t[1](j) == s[1](lo + j)), t[3](t[1](j)), eq(t[4](t[1](j)), s[4](s[1](lo + j)))))
        same(p, ld, s)

    add("slice", ["__getitem__", "_get_index_slice_from_slice", "_get_index_from_key"], do_slice)

    # -- loops over another collection
    def absorb(p, what, run, skip=False):
        ld, s = make(p)
        other, o = make(p, "other")
        sk = p.string("skip") if skip else None
        K, K2 = z3.String("K"), z3.String("K2")
        keep = (lambda x: x != sk.e) if skip else (lambda x: z3.BoolVal(True))

        def at(t, i, x):
            """after i items of the other collection, key x"""
            new = z3.And(o[3](x), o[2](x) < i, keep(x))
            f = [SymBool(t[3](x) == z3.Or(s[3](x), new)),
                 Implies(new, eq(t[4](x), o[4](x))),
                 Implies(z3.And(s[3](x), z3.Not(new)), eq(t[4](x), s[4](x))),
                 Implies(s[3](x), t[2](x) == s[2](x)),
                 Implies(z3.And(new, z3.Not(s[3](x))), t[2](x) >= s[0]),
                 t[0] >= s[0]]
            return And(f)

        def order(t, x, y):
            isnew = lambda q: z3.And(o[3](q), t[3](q), z3.Not(s[3](q)))
            return Implies(z3.And(isnew(x), isnew(y)), (t[2](x) < t[2](y)) == (o[2](x) < o[2](y)))

        def spec(L, loc, names):
            def inv(i, vars):
                t = st(ld)
                fs = [at(t, i, K), at(t, i, K2), order(t, K, K2)]
                if i is getattr(L, "i", None) and L.is_arb:
                    fs.append(at(t, i, o[1](i)))
                    for q in (K, K2):
                        fs.append(Implies(t[3](q), z3.And(t[2](q) < t[0], t[2](q) >= 0)))
                return And(fs)

            def havoc(i, vars):
                uf = z3.Function("hv.val", S, I)
                h = SymOD("hv", lambda k: SymNum(uf(k)))
                ld._home.set_state(h.state())
                return {}

            iv = Inv("each item of the other collection is taken over", [], havoc, inv)
            iv.may_modify = lambda x: x is ld._home
            return iv

        p.loop_specs["*"] = spec
        p.cover("returns")
        run(ld, other, sk)
        t = st(ld)
        new = lambda x: z3.And(o[3](x), keep(x))
        p.check(f"{what}: holds the identifiers of both", SymBool(t[3](K) == z3.Or(s[3](K), new(K))))
        p.check(f"{what}: the other collection's items win", Implies(new(K), eq(t[4](K), o[4](K))))
        p.check(f"{what}: remaining items are kept", Implies(z3.And(s[3](K), z3.Not(new(K))), eq(t[4](K), s[4](K))))
        p.check(f"{what}: existing items keep their position", Implies(s[3](K), t[2](K) == s[2](K)))
        p.check(f"{what}: new items follow the existing ones", Implies(z3.And(new(K), z3.Not(s[3](K))), t[2](K) >= s[0]))
        t2 = st(other)
        p.check(f"{what}: the other collection is unchanged", And(t2[0] == o[0], same_at(t2, o, K)))

    add("extend", ["extend"], lambda p: absorb(p, "extend", lambda a, b, k: a.extend(b)))
    add("extend skipping a key", ["extend"], lambda p: absorb(p, "extend with skipped key", lambda a, b, k: a.extend(b, skip_keys=[k]), True))
    add("extend skipping one key given as text", ["extend"], lambda p: absorb(p, "extend with skipped key", lambda a, b, k: a.extend(b, skip_keys=k), True))
    add("update", ["update"], lambda p: absorb(p, "update", lambda a, b, k: a.update(b)))

    # -- sort
    def do_sort(inplace):
        def h(p):
            ld, s = make(p)
            K = z3.String("K")
            seqs = {}

            def tgt(loc):
                from pyvc.helpers import VOD, VDict, unl

                c = [v for v in loc.values() if type(v) in (VOD, VDict)]
                return c[0] if len(c) == 1 else None

            def spec(L, loc, names):
                seqs["s"] = L.seq
                obj = tgt(loc)
                if obj is None:
                    from pyvc.api import Unsupported

                    raise Unsupported("sort: no single new mapping under construction")
                rk = L.seq.rank

                def inv(i, vars):
                    from pyvc.helpers import unl

                    t = obj.to_sym().state()
                    r = rk(s[2](K))
                    done = z3.And(s[3](K), r < i)
                    fs = [SymBool(t[3](K) == done), Implies(done, eq(t[4](K), s[4](K))),
                          Implies(done, t[2](K) == r), t[0] == i]
                    if i is getattr(L, "i", None) and L.is_arb:
                        e = L.seq.at(i).e
                        fs.append(SymBool(t[3](e) == z3.And(s[3](e), rk(s[2](e)) < i)))
                    return And(fs)

                def havoc(i, vars):
                    uf = z3.Function("hv.val", S, I)
                    hv = SymOD("hv", lambda k: SymNum(uf(k)))
                    obj.to_sym().set_state(hv.state())
                    return {}

                iv = Inv("sorted so far", [], havoc, inv)
                iv.may_modify = lambda x: x is obj
                return iv

            p.loop_specs["*"] = spec
            p.cover("returns")
            r = ld.sort() if inplace else ld.sort(inplace=False)
            from pyvc.helpers import unl

            t = st(ld) if inplace else unl(r).state()
            p.check("sorting keeps exactly the same items", And(t[0] == s[0], same_at(t, s, K)))
            a, b = z3.Int(p.fresh("a")), z3.Int(p.fresh("b"))
            if "s" in seqs:
                sq = seqs["s"]
                ra = sq.rank(s[2](K))
                p.check("an item's new position is its rank", Implies(s[3](K), t[2](K) == ra))
                p.assume(z3.And(a >= 0, a <= b, b < s[0]))
                p.check("identifiers come in alphabetical order", sq.at(a).e <= sq.at(b).e)
            if not inplace:
                same(p, ld, s)

        return h

    add("sort", ["sort"], do_sort(True))
    add("sort to a copy", ["sort"], do_sort(False))

    # -- copy
    class Item(SymNum):
        """an item with a copy method; as any object, it may be false (an empty one)"""

        def copy(self):
            return SymNum(z3.Function("copied", I, I)(self.e))

    def do_copy(how, can):
        def h(p):
            import copy

            ld, s = make(p)
            cp = z3.Function("copied", I, I) if can else (lambda e: e)
            if can:
                ld._home.val = lambda k: Item(s[4](k).e)
            K = z3.String("K")

            def tgt(loc):
                from pyvc.helpers import VOD, VDict, unl

                c = [getattr(unl(v), "_home", v) for v in loc.values() if v is not ld]
                c = [v for v in c if type(v) in (VOD, VDict)]
                return c[0] if len(c) == 1 else None

            def spec(L, loc, names):
                obj = tgt(loc)
                if obj is None:
                    from pyvc.api import Unsupported

                    raise Unsupported("copy: no single new mapping under construction")

                def inv(i, vars):
                    t = obj.to_sym().state()
                    done = z3.And(s[3](K), s[2](K) < i)
                    fs = [SymBool(t[3](K) == done), Implies(done, eq(t[4](K), SymNum(cp(s[4](K).e)))),
                          Implies(done, t[2](K) == s[2](K)), t[0] == i]
                    if i is getattr(L, "i", None) and L.is_arb:
                        e = s[1](i)
                        fs.append(SymBool(t[3](e) == z3.And(s[3](e), s[2](e) < i)))
                    return And(fs)

                def havoc(i, vars):
                    uf = z3.Function("hv.val", S, I)
                    hv = SymOD("hv", lambda k: SymNum(uf(k)))
                    obj.to_sym().set_state(hv.state())
                    return {}

                iv = Inv("copied so far", [], havoc, inv)
                iv.may_modify = lambda x: x is obj
                return iv

            p.loop_specs["*"] = spec
            p.cover("returns")
            r = ld.copy() if how == "copy" else ld.__deepcopy__({})
            p.check("a copy is a new collection of the same kind", type(r) is ListDict and r is not ld and r._home is not ld._home)
            t = st(r)
            p.check("a copy holds a copy of every item under the same identifier and position",
                    And(t[0] == s[0], SymBool(t[3](K) == s[3](K)),
                        Implies(s[3](K), And(eq(t[4](K), SymNum(cp(s[4](K).e))), t[2](K) == s[2](K)))))
            t2 = st(ld)
            p.check("the collection is unchanged", And(t2[0] == s[0], same_at(t2, s, K)))

        return h

    add("copy", ["copy", "__deepcopy__"], do_copy("copy", True))
    add("deep copy", ["__deepcopy__"], do_copy("deep", True))
    add("copy of items without a copy method", ["copy", "__deepcopy__"], do_copy("copy", False))
    return out


# ------------------------------------------------------------------ run time
DEFAULT_OPS = [["pop", "k0"], ["append", "z"], ["remove_i", 0], ["set", "k1"], ["seti", 1], ["sort"], ["copy"]]


def runtime(reg):
    import copy
    from collections import OrderedDict
    from pyvc.rt import require, Skip
    from mt_metadata.common.list_dict import ListDict

    class It:
        def __init__(self, key, kind, tag):
            self.tag = tag
            if kind == "id":
                self.id = key
            elif kind == "component":
                self.component = key

        def __bool__(self):
            return self.tag % 3 != 1

        def copy(self):
            c = It.__new__(It)
            c.__dict__.update(self.__dict__)
            return c

    KEYS = ["a", "b", "k0", "k1", "k2", "z", "10", "2", "B", "hx"]

    def gen(rng, tier):
        for n in (0, 1, 3):
            yield {"n": n, "ops": DEFAULT_OPS}
        for _ in range(400 if tier == "quick" else 5000):
            ops = []
            for _ in range(rng.randint(1, 12)):
                o = rng.choice(["set", "seti", "append", "append_c", "append_p", "remove", "remove_i", "pop", "extend", "extend_s",
                                "update", "sort", "sort_copy", "slice", "slice_k", "copy", "deepcopy", "clear", "rename", "get", "geti"])
                if o in ("seti", "remove_i", "geti"):
                    ops.append([o, rng.randint(-1, 6)])
                elif o in ("extend", "update"):
                    ops.append([o, rng.sample(KEYS, rng.randint(0, 4))])
                elif o == "extend_s":
                    ks = rng.sample(KEYS, rng.randint(0, 4))
                    ops.append([o, ks, rng.choice(ks + ["q"])])
                elif o == "slice":
                    ops.append([o, rng.choice([None, 0, 1, 2, -1, -2, -9]), rng.choice([None, 0, 1, 3, -1, -3, 9])])
                elif o == "slice_k":
                    ops.append([o, rng.choice(KEYS + [None, 0, 1, -1, -2, -3]), rng.choice(KEYS + [None, 2, 3, -1, -2])])
                elif o == "rename":
                    ops.append([o, rng.choice(KEYS), rng.choice(KEYS)])
                elif o in ("sort", "sort_copy", "copy", "deepcopy", "clear", "append_p"):
                    ops.append([o])
                else:
                    ops.append([o, rng.choice(KEYS)])
            yield {"n": rng.randint(0, 5), "ops": ops}

    @reg.rt("model", gen, ["mt_metadata.common.list_dict:ListDict"], "random histories of up to 12 operations on up to 10 identifiers")
    def model(inp):
        ld = ListDict()
        ref = OrderedDict()
        tag = [0]

        def new(key, kind="id"):
            tag[0] += 1
            return It(key, kind, tag[0])

        def eqv(a, b, what):
            a, b = list(a.items()), list(b.items())
            require([x[0] for x in a] == [x[0] for x in b], f"{what}: identifiers {[x[0] for x in a]} != {[x[0] for x in b]}")
            require(all(x[1].tag == y[1].tag for x, y in zip(a, b)), f"{what}: items differ")

        def both(f, g, what):
            ea = eb = None
            ra = rb = None
            try:
                ra = f()
            except KeyError as e:
                ea = e
            try:
                rb = g()
            except (KeyError, IndexError) as e:
                eb = e
            require((ea is None) == (eb is None), f"{what}: {ea!r} vs expected {eb!r}")
            return ra, rb

        for i in range(inp["n"]):
            o = new(f"k{i}")
            ld.append(o)
            ref[o.id] = o
        for op in inp["ops"]:
            o = op[0]
            what = str(op)
            nth = lambda i: list(ref)[i] if 0 <= i < len(ref) else (_ for _ in ()).throw(KeyError(i))
            if o == "set":
                v = new(op[1])
                ld[op[1]] = v
                ref[op[1]] = v
            elif o == "seti":
                v = new("n%d" % op[1])
                ld[op[1]] = v
                k = list(ref)[op[1]] if 0 <= op[1] < len(ref) else v.id
                ref[k] = v
            elif o in ("append", "append_c", "append_p"):
                v = new(op[1] if len(op) > 1 else None, {"append": "id", "append_c": "component"}.get(o, "none"))
                k = op[1] if len(op) > 1 else str(len(ref))
                ld.append(v)
                ref[k] = v
            elif o == "remove":
                both(lambda: ld.remove(op[1]), lambda: ref.__delitem__(op[1]), what)
            elif o == "remove_i":
                both(lambda: ld.remove(op[1]), lambda: ref.__delitem__(nth(op[1])), what)
            elif o == "pop":
                a, b = both(lambda: ld.pop(op[1]), lambda: ref.pop(op[1]), what)
                if b is not None:
                    require(list(a) == [op[1]] and a[op[1]] is b, f"{what}: returned {a}")
            elif o in ("extend", "update", "extend_s"):
                other = ListDict()
                for k in op[1]:
                    other[k] = new(k)
                src = OrderedDict(other.items())
                if o == "extend_s":
                    ld.extend(other, skip_keys=op[2])
                elif o == "extend":
                    ld.extend(other)
                else:
                    ld.update(other)
                for k, v in src.items():
                    if not (o == "extend_s" and k == op[2]):
                        ref[k] = v
                eqv(other, src, what + " other")
            elif o in ("sort", "sort_copy"):
                srt = OrderedDict((k, ref[k]) for k in sorted(ref))
                if o == "sort":
                    require(ld.sort() is None, "in-place sort returns a value")
                    ref = srt
                else:
                    eqv(ld.sort(inplace=False), srt, what)
            elif o == "slice":
                sub = ld[op[1]:op[2]]
                require(type(sub) is ListDict, "slice type")
                eqv(sub, OrderedDict(list(ref.items())[op[1]:op[2]]), what)
            elif o == "slice_k":
                if any(isinstance(b, str) and b not in ref for b in op[1:]):
                    continue
                lst = list(ref)
                lo, hi = [lst.index(b) if isinstance(b, str) else b for b in op[1:]]
                eqv(ld[op[1]:op[2]], OrderedDict(list(ref.items())[lo:hi]), what)
            elif o in ("copy", "deepcopy"):
                c = ld.copy() if o == "copy" else copy.deepcopy(ld)
                eqv(c, ref, what)
                require(type(c) is ListDict and c is not ld, "copy type")
                for k in list(ref):
                    require(c[k] is not ref[k], "a copy shares its items")
                c["zz"] = new("zz")
                require("zz" not in ld.keys() or "zz" in ref, "a copy shares its storage")
                if ref:
                    c.remove(0)
            elif o == "clear":
                ld.clear()
                ref.clear()
            elif o == "rename":
                if op[1] in ref and hasattr(ref[op[1]], "id"):
                    ref[op[1]].id = op[2]
                expect = OrderedDict()
                ren = {}
                for k, v in ref.items():
                    nk = getattr(v, "id", None) or getattr(v, "component", None) or k
                    if nk != k:
                        ren[k] = nk
                    expect[nk] = v
                got = ld.update_keys()
                require(got == ren, f"{what}: reported {got} expected {ren}")
                ref = expect
            elif o == "get":
                a, b = both(lambda: ld[op[1]], lambda: ref[op[1]], what)
                require(a is b, f"{what}: wrong item")
                a, b = both(lambda: ld._get_index_from_key(op[1]), lambda: list(ref).index(op[1]) if op[1] in ref else nth(-1), what)
                require(a == b, f"{what}: index {a} != {b}")
            elif o == "geti":
                a, b = both(lambda: ld[op[1]], lambda: ref[nth(op[1])], what)
                require(a is b, f"{what}: wrong item")
            eqv(ld, ref, what)
            require(len(ld) == len(ref), f"{what}: size")
            require(ld.keys() == list(ref) and [x.tag for x in ld.values()] == [x.tag for x in ref.values()], f"{what}: listing")
            require([x.tag for x in ld] == [x.tag for x in ref.values()], f"{what}: iteration")
