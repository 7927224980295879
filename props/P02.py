"""Dotted names and nested dictionaries."""


def contracts():
    import mt_metadata.base.helpers as mh
    import mt_metadata.base.metadata as mm
    from pyvc.api import And, Contract, Implies, Inv, Not, Or, SymBool, SymNum, SymObj, SymSeq, SymStr, Unsupported, eq, raises, z3
    from pyvc.helpers import SymMapBase, SymNode, VDict, VList, unl
    from pyvc.mapmodel import SymOD

    S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()
    out = []

    def stubbed(mod, name, stub, run):
        real = getattr(mod, name)
        setattr(mod, name, stub)
        try:
            return run(real)
        finally:
            setattr(mod, name, real)

    def sepsym(p):
        """any separator"""
        s = p.string("sep")
        p.assume(z3.Length(s.e) > 0)
        return s

    # ------------------------------------------------ nesting one entry
    def h_split_dict(p):
        sep, key = sepsym(p), p.string("key")
        rem = SymOD("rem", lambda k: SymNum(z3.Function("remval", S, I)(k)), pytype=dict)
        st = rem.state()
        rem.setdefault = lambda k, d: rem[k] if k in rem else (rem.__setitem__(k, d), d)[1]
        v = SymObj(object, tag=1)
        calls = []
        stubbed(mh, "recursive_split_dict", lambda k, val, r, sep=".": calls.append((k, val, r, sep)),
                lambda real: real(key, v, rem, sep=sep))
        x = z3.String(p.fresh("x"))
        head = z3.SubString(key.e, 0, z3.IndexOf(key.e, sep.e, 0))
        if p.branch(z3.Contains(key.e, sep.e)):
            p.check("a nested name is handed on exactly once", len(calls) == 1)
            if not calls:
                return
            k, val, r, sp = calls[0]
            p.check("handed on: the rest of the name", eq(key, SymStr(z3.Concat(head, sep.e, SymStr(k.e).e))))
            p.check("handed on: the value", val is v)
            p.check("handed on: the separator", eq(sp, sep))
            tgt = rem.val(head)
            if p.branch(st[3](head)):
                p.check("existing branch is extended", isinstance(tgt, SymNum) and isinstance(r, SymNum) and eq(r, tgt))
            else:
                p.check("new branch is a new dictionary stored under the first name", r is tgt and isinstance(r, dict) and len(r) == 0)
            p.check("no other entry changes", And(Implies(And(SymBool(x != head)), SymBool(rem.has(x) == st[3](x))), SymBool(rem.has(head))))
        else:
            p.check("a plain name is not handed on", calls == [])
            p.check("the value is stored under the name", And(SymBool(rem.has(key.e)), rem.val(key.e) is v))
            p.check("no other entry changes", Implies(SymBool(x != key.e), SymBool(rem.has(x) == st[3](x))))

    out.append(Contract("nesting one entry", "recursive_split_dict", h_split_dict))

    # ------------------------------------------------ nesting all entries
    def h_structure(p):
        sep = sepsym(p)
        src = SymOD("src", lambda k: SymNum(z3.Function("srcval", S, I)(k)), pytype=dict)
        calls = []

        def spec(L, loc, names):
            tgt = [x for x in loc.values() if type(x) is VDict]
            if len(tgt) != 1:
                raise Unsupported("no single dictionary under construction")

            def inv(i, env):
                if i is getattr(L, "i", None) or z3.is_int_value(i):
                    calls.clear()
                    return True
                k = src.key(z3.simplify(i - 1))
                if len(calls) != 1:
                    return False
                a = calls[0]
                return And(eq(a[0], SymStr(k)), eq(a[1], src.val(k)), a[2] is tgt[0], eq(a[3], sep))

            iv = Inv("each entry is nested once, in order", [], lambda i, env: {}, inv)
            iv.may_modify = lambda x: x is tgt[0]
            spec.tgt = tgt[0]
            return iv

        p.loop_specs["*"] = spec
        r = stubbed(mh, "recursive_split_dict", lambda k, val, r, sep=".": calls.append((k, val, r, sep)),
                    lambda real: mh.structure_dict(src, sep=sep))
        p.check("the nested dictionary is returned", r is spec.tgt)

    out.append(Contract("nesting all entries", "structure_dict", h_structure))

    # ------------------------------------------------ flattening
    def h_flatten(p):
        sep = p.string("sep")
        par = p.string("parent") if p.choose(2, "parent") else None
        kind = z3.Function("ismap", S, B)
        subs = {}

        def val(k):
            key = ("v", k.get_id())
            if key not in subs:
                if p.branch(kind(k)):
                    subs[key] = (SymOD(p.fresh("sub"), lambda q: SymNum(z3.Function("subval", S, I)(q)), pytype=dict), k)
                else:
                    subs[key] = (SymObj(object, tag=1), k)
            return subs[key][0]

        src = SymOD("src", val, pytype=dict)
        calls = []

        def rec(d, parent_key=None, sep="."):
            r = SymOD(p.fresh("flat"), lambda q: SymNum(z3.Function("flatval", S, I)(q)), pytype=dict)
            calls.append((d, parent_key, sep, r))
            return r

        def path(k):
            if par is None:
                return SymStr(k)
            return SymStr(z3.If(z3.Length(par.e) > 0, z3.Concat(par.e, sep.e, k), k))

        ghost = {}

        def spec(L, loc, names):
            lst = [x for x in loc.values() if type(x) is VList]
            if len(lst) != 1:
                raise Unsupported("no single list under construction")
            lst = lst[0]
            if lst.sym is not None or list.__len__(lst):
                raise Unsupported("entries are not collected by one loop")

            def inv(i, env):
                if z3.is_int_value(i):
                    return lst.sym is None and list.__len__(lst) == 0
                if i is L.i:
                    return True
                k = src.key(L.i)
                pre, s = ghost["pre"], lst.sym
                if pre is None or s is None or getattr(s, "prefix", None) is not pre:
                    return False
                v = val(k)
                if isinstance(v, SymOD):
                    if len(calls) != 1 or getattr(s, "tail", None) is None:
                        return False
                    d, pk, sp, r = calls[0]
                    j = z3.Int(p.fresh("j"))
                    p.add(z3.And(j >= 0, j < r.n))
                    a, b = s.tail.at(j)
                    return And(d is v, eq(pk, path(k)), eq(sp, sep), eq(s.tail.n, SymNum(r.n)), eq(a, SymStr(r.key(j))),
                               eq(b, r.val(r.key(j))))
                if calls or not hasattr(s, "last"):
                    return False
                a, b = s.last
                return And(eq(a, path(k)), b is v)

            def havoc(i, env):
                g = SymOD("acc", lambda q: SymNum(z3.Function("accval", S, I)(q)), pytype=dict)
                pre = g.items()
                pre.pairs_of, pre.whole = g, True
                lst.sym = pre
                ghost["pre"], ghost["map"] = pre, g
                pre.n = SymNum(g.n)
                return {}

            iv = Inv("each entry contributes its own name, or its flattened entries", [], havoc, inv)
            iv.may_modify = lambda x: x is lst
            return iv

        p.loop_specs["*"] = spec
        r = stubbed(mh, "flatten_dict", rec, lambda real: real(src, par, sep=sep))
        r = unl(r)
        if not ghost:
            raise Unsupported("entries are not collected in a list by a loop")
        p.check("all contributions are returned", isinstance(r, SymOD) and r.n.eq(ghost["map"].n))
        x = z3.String(p.fresh("x"))
        if isinstance(r, SymOD):
            p.check("with their names and values", And(SymBool(r.has(x) == ghost["map"].has(x)), Implies(SymBool(r.has(x)), eq(r.val(x), ghost["map"].val(x)))))

    out.append(Contract("flattening", "flatten_dict", h_flatten))

    # ------------------------------------------------ object graph
    CH = z3.Function("child", I, S, I)
    HAS = z3.Function("hasattr", I, S, B)

    class Node(SymNode):
        log = None

        def __init__(self, e, log):
            self.e, self.log = e, log

        def sym_hasattr(self, n):
            return SymBool(HAS(self.e, n.e if isinstance(n, SymStr) else z3.StringVal(n)))

        def sym_getattr(self, n, *d):
            e = n.e if isinstance(n, SymStr) else z3.StringVal(n)
            from pyvc.core import ctx

            if not ctx().branch(HAS(self.e, e)):
                if d:
                    return d[0]
                raise AttributeError("no such attribute")
            return Node(CH(self.e, e), self.log)

        @classmethod
        def sym_class_getattr(cls, n, *d):
            from pyvc.core import ctx

            c = ctx().choose(3, "class attribute")
            if c == 0:
                raise AttributeError("no class attribute")
            return property() if c == 1 else 5

        def sym_setattr(self, n, v):
            self.log.append((self.e, n.e if isinstance(n, SymStr) else z3.StringVal(n), v))

    def same_node(a, e):
        return isinstance(a, Node) and SymBool(a.e == e)

    def h_update_attr(p):
        name, v = p.string("name"), SymObj(object, tag=1)
        log = []
        root = Node(z3.Int("root"), log)
        N = z3.Function("split.n", S, S, I)
        P = z3.Function("split.part", S, S, I, S)
        dot = z3.StringVal(".")
        part = lambda i: P(name.e, dot, i)
        n = N(name.e, dot)
        at = z3.Function("at", I, I)  # ghost: object reached after i names
        p.fact(at(0) == root.e)

        def spec(L, loc, names):
            cur = [k for k in names if k in loc and isinstance(loc[k], Node)]
            if len(cur) != 1:
                raise Unsupported("no single current object")
            c = cur[0]

            def inv(i, env):
                if i is getattr(L, "i", None) and L.is_arb:
                    p.fact(at(i + 1) == CH(at(i), part(i)))
                    return True
                return And(same_node(env[c], at(i)), not log)

            def havoc(i, env):
                p.fact(at(1) == CH(at(0), part(z3.IntVal(0))))
                return {c: Node(at(i), log)}

            return Inv("walk along the names", [c], havoc, inv)

        p.loop_specs["*"] = spec
        e = raises(p, lambda: mm.DotNotationBaseModel.update_attribute(root, name, v))
        if e is not None:
            p.check("an unknown path is an AttributeError", isinstance(e, AttributeError))
            p.check("and nothing was set", not log)
            return
        p.check("one attribute is set", len(log) >= 1)
        last = z3.If(z3.Contains(name.e, dot), part(n - 1), name.e)
        obj = z3.If(z3.Contains(name.e, dot), at(n - 1), root.e)
        p.fact(z3.Implies(n == 1, at(n - 1) == root.e))
        for o, a, val in log:
            p.check("the attribute is the last name of the object reached by the names before", SymBool(z3.And(o == obj, a == last)))
            p.check("it is set to the value", val is v)

    out.append(Contract("setting by dotted name", "DotNotationBaseModel.update_attribute", h_update_attr))

    def h_getattr(p):
        sep, name = sepsym(p), p.string("name")
        log, calls = [], []
        root = Node(z3.Int("root"), log)
        res = (SymObj(object, tag=2), False)
        head = z3.SubString(name.e, 0, z3.IndexOf(name.e, sep.e, 0))
        nested = p.branch(z3.Contains(name.e, sep.e))
        e, got = None, None
        try:
            got = stubbed(mh, "recursive_split_getattr", lambda o, n, sep=".": calls.append((o, n, sep)) or res,
                          lambda real: real(root, name, sep=sep))
        except AttributeError as x:
            e = x
        p.check("nothing is set", not log)
        if e is not None:
            p.check("only a missing intermediate object is an error", And(nested, SymBool(z3.Not(HAS(root.e, head)))))
            return
        if nested:
            p.check("handed on exactly once", len(calls) == 1)
            o, n, sp = calls[0]
            p.check("handed on: the attribute of that name, the rest of the name, the separator",
                    And(same_node(o, CH(root.e, head)), eq(name, SymStr(z3.Concat(head, sep.e, n.e))), eq(sp, sep)))
            p.check("its result is returned", got[0] is res[0] and got[1] is res[1])
        else:
            p.check("not handed on", calls == [])
            v = got[0]
            if p.branch(HAS(root.e, name.e)):
                p.check("the attribute is returned", same_node(v, CH(root.e, name.e)))
            else:
                p.check("a missing attribute is None", v is None)

    out.append(Contract("reading by dotted name", "recursive_split_getattr", h_getattr))

    def h_setattr(p):
        sep, name, v = sepsym(p), p.string("name"), SymObj(object, tag=1)
        log, calls = [], []
        root = Node(z3.Int("root"), log)
        head = z3.SubString(name.e, 0, z3.IndexOf(name.e, sep.e, 0))
        nested = p.branch(z3.Contains(name.e, sep.e))
        e = None
        try:
            stubbed(mh, "recursive_split_setattr", lambda o, n, val, sep=".", skip_validation=False: calls.append((o, n, val, sep)),
                    lambda real: real(root, name, v, sep=sep))
        except AttributeError as x:
            e = x
        if e is not None:
            p.check("only a missing intermediate object is an error", And(nested, SymBool(z3.Not(HAS(root.e, head))), not log))
            return
        if nested:
            p.check("handed on exactly once, nothing set here", len(calls) == 1 and not log)
            o, n, val, sp = calls[0]
            p.check("handed on: the attribute of that name, the rest of the name, the separator",
                    And(same_node(o, CH(root.e, head)), eq(name, SymStr(z3.Concat(head, sep.e, n.e))), eq(sp, sep), val is v))
        else:
            p.check("exactly the named attribute is set", not calls and len(log) == 1 and And(SymBool(z3.And(log[0][0] == root.e, log[0][1] == name.e)), log[0][2] is v))

    out.append(Contract("setting by dotted name (helper)", "recursive_split_setattr", h_setattr))

    # ------------------------------------------------ dotted names in constructors
    class Tree(SymMapBase):
        """a nested dictionary: node id, which names it holds, which of those are dictionaries"""

        pytype = dict
        THAS = z3.Function("tree.has", I, S, B)
        TDICT = z3.Function("tree.isdict", I, S, B)
        TCH = z3.Function("tree.child", I, S, I)

        def __init__(self, e, log):
            self.e, self.log, self.local, self.ver = e, log, [], 0

        def version(self):
            return (id(self), self.ver)

        def contains(self, k):
            r = self.THAS(self.e, k.e)
            for a, _ in self.local:
                r = z3.Or(r, a == k.e)
            return SymBool(r)

        def __contains__(self, k):
            return bool(self.contains(k))

        def __getitem__(self, k):
            from pyvc.core import ctx

            for a, v in reversed(self.local):
                if a.eq(k.e) or ctx().branch(a == k.e):
                    return v
            if not ctx().branch(self.THAS(self.e, k.e)):
                raise KeyError(k)
            v = Tree(self.TCH(self.e, k.e), self.log) if ctx().branch(self.TDICT(self.e, k.e)) else SymNum(self.TCH(self.e, k.e))
            self.local.append((k.e, v))
            return v

        def __setitem__(self, k, v):
            self.ver += 1
            self.local.append((k.e, v))
            self.log.append((self, k.e, v))

    def h_nested(p):
        name, v = p.string("name"), SymObj(object, tag=1)
        log = []
        root = Tree(z3.Int("root"), log)
        N = z3.Function("split.n", S, S, I)
        P = z3.Function("split.part", S, S, I, S)
        dot = z3.StringVal(".")
        part = lambda i: P(name.e, dot, i)
        n = N(name.e, dot)
        at = {}

        def isd(x):
            return isinstance(x, (Tree, VDict))

        def spec(L, loc, names):
            cur = [k for k in names if k in loc and isinstance(loc[k], Tree)]
            if len(cur) != 1:
                raise Unsupported("no single current dictionary")
            c = cur[0]

            def inv(i, env):
                if z3.is_int_value(i):
                    return env[c] is root
                if i is L.i:
                    return True
                here = at["here"]
                k = part(L.i)
                was_dict = z3.And(Tree.THAS(here.e, k), Tree.TDICT(here.e, k))
                stored = [x for a, x in here.local if a.eq(k)]
                ok = [x for x in log if x[0] is not here or not x[1].eq(k)] == []
                if p.branch(was_dict):
                    return And(ok, not log, stored and env[c] is stored[-1])
                return And(ok, len(log) == 1, stored and env[c] is stored[-1], isinstance(env[c], dict) and len(env[c]) == 0)

            def havoc(i, env):
                log.clear()
                at["here"] = Tree(z3.Int(p.fresh("node")), log)
                at["end"] = at["here"]
                return {c: at["here"]}

            iv = Inv("walk or create along the names", [c], havoc, inv)
            iv.may_modify = lambda x: isinstance(x, Tree)
            return iv

        p.loop_specs["*"] = spec
        mm.DotNotationBaseModel._set_nested_attribute(root, root, name, v)
        tgt = at.get("end", root)
        p.check("one value stored, in the dictionary reached by the names before the last",
                len(log) == 1 and And(log[0][0] is tgt, SymBool(log[0][1] == part(n - 1)), log[0][2] is v))

    out.append(Contract("nesting a dotted keyword", "DotNotationBaseModel._set_nested_attribute", h_nested))
    return out


def runtime(reg):
    import copy
    import importlib
    import pkgutil
    from collections import OrderedDict

    from pyvc.rt import Skip, Violation, require
    from mt_metadata.base import helpers as mh

    SEPS = [".", "_", "/", "::", "-", "->"]
    WORDS = ["a", "b", "time", "start", "location", "x2", "Ex", "0", "declination model", "ü"]

    def tree(rng, d, sep, up=("q",)):
        t = OrderedDict() if rng.random() < .3 else {}
        # names related to the names above them are as good as any others
        near = [f(u) for u in up for f in (lambda u: u, lambda u: u + "_id", lambda u: u + "2", lambda u: u[:1], lambda u: u + "-" + u, lambda u: "my " + u)]
        words = [w for w in dict.fromkeys(WORDS + near) if sep not in w and not any(w.endswith(sep[:n]) or w.startswith(sep[n:]) for n in range(1, len(sep)))]
        for k in rng.sample(words, rng.randint(1, 4)):
            if d and rng.random() < .45:
                t[k] = tree(rng, d - 1, sep, (k, *up[:1]))
            else:
                t[k] = rng.choice([1, 2.5, None, "v", "a.b", [], [1, {"a": 2}], (1, 2), True, 0, ""])
        return t

    def gen(rng, tier):
        for _ in range(300 if tier == "quick" else 4000):
            sep = rng.choice(SEPS)
            yield {"d": tree(rng, rng.randint(0, 5), sep), "sep": sep}

    def leaves(d, pre=()):
        for k, v in d.items():
            if isinstance(v, dict):
                yield from leaves(v, pre + (k,))
            else:
                yield pre + (k,), v

    @reg.rt("flatten and nest", gen, ["flatten_dict", "structure_dict", "recursive_split_dict"], "300 nested dictionaries up to 6 deep, 6 separators")
    def inverse(i):
        d, sep = i["d"], i["sep"]
        before = copy.deepcopy(d)
        want = OrderedDict((sep.join(k), v) for k, v in leaves(d))
        f = mh.flatten_dict(d, sep=sep)
        require(list(f.items()) == list(want.items()), f"flattening with {sep!r} gave {f}, expected {dict(want)}")
        s = mh.structure_dict(f, sep=sep)
        require(s == before, f"nesting the flat form with {sep!r} gave {s}, expected {before}")
        require(list(mh.flatten_dict(s, sep=sep).items()) == list(want.items()), "flattening again changed the order or content")
        require(d == before, "the input dictionary was changed")
        require(mh.flatten_dict(d, "top", sep=sep) == {f"top{sep}{k}": v for k, v in want.items()}, "flattening below a parent name")

    class N:
        kind = 7
        derived = property(lambda self: 8)

    def gen_o(rng, tier):
        for _ in range(200):
            sep = rng.choice(SEPS)
            yield {"d": tree(rng, rng.randint(0, 4), sep), "sep": sep, "pick": rng.randint(0, 99)}

    @reg.rt("object paths", gen_o, ["recursive_split_getattr", "recursive_split_setattr"], "200 object trees")
    def paths(i):
        def obj(d):
            o = N()
            for k, v in d.items():
                setattr(o, k, obj(v) if isinstance(v, dict) else v)
            return o

        def dump(o):
            return {k: dump(v) if isinstance(v, N) else v for k, v in vars(o).items()}

        o, sep = obj(i["d"]), i["sep"]
        ls = list(leaves(i["d"]))
        for k, v in ls:
            got, prop = mh.recursive_split_getattr(o, sep.join(k), sep=sep)
            require(got == v and prop is False, f"{sep.join(k)} read as {got!r}, holds {v!r}")
        got, prop = mh.recursive_split_getattr(o, "kind", sep=sep)
        require(got == 7 and not prop, "an attribute of the class")
        got, prop = mh.recursive_split_getattr(o, "derived", sep=sep)
        require(got == 8 and prop, "a property")
        k, v = ls[i["pick"] % len(ls)]
        mh.recursive_split_setattr(o, sep.join(k), "new value", sep=sep)
        want = copy.deepcopy(i["d"])
        t = want
        for q in k[:-1]:
            t = t[q]
        t[k[-1]] = "new value"
        require(dump(o) == want, f"setting {sep.join(k)} gave {dump(o)}")
        for bad in ("nope" + sep + "x", *(sep.join(k) + sep + "deeper" + sep + "x" for k, v in ls)):
            try:
                mh.recursive_split_getattr(o, bad, sep=sep)
            except AttributeError:
                continue
            require(False, f"reading {bad} did not fail")

    # -- metadata classes
    import mt_metadata
    from mt_metadata.base import MetadataBase
    from props.classes import all_classes, dotted, leaf_values

    CL = all_classes()

    def gen_c(rng, tier):
        names = sorted(CL)
        for r in range(2 if tier == "quick" else 20):
            for c in names:
                yield {"cls": c, "seed": rng.randint(0, 10**9)}

    def setup(i):
        import random

        cls, rng = CL[i["cls"]], random.Random(i["seed"])
        vals = leaf_values(cls, rng)
        if not vals:
            raise Skip
        return cls, rng, vals

    def same(a, b):
        return a is b or str(a) == str(b)

    @reg.rt("attributes by dotted name", gen_c, ["MetadataBase.update_attribute", "MetadataBase.get_attr_from_name"],
            "every attribute of every metadata class, twice")
    def attrs(i):
        cls, rng, vals = setup(i)
        o = cls()
        probe = sorted(vals)
        for n in probe:
            before = {k: str(o.get_attr_from_name(k)) for k in probe}
            ref = cls()
            cur, tgt = ref, None
            *head, last = n.split(".")
            for h in head:
                cur = getattr(cur, h)
            try:
                setattr(cur, last, vals[n])
                want = getattr(cur, last)
            except Exception:
                continue
            o2 = cls()
            o2.update_attribute(n, vals[n])
            got = o2.get_attr_from_name(n)
            require(same(got, want), f"{cls.__name__}.{n} set to {vals[n]!r} by name reads {got!r}, directly {want!r}")
            for k in probe:
                x, y = o2.get_attr_from_name(k), ref.get_attr_from_name(k)
                require(same(x, y), f"setting {cls.__name__}.{n} by name changed {k}: {x!r} instead of {y!r}")
        for bad in ("nope.x", "nope.x.y"):
            try:
                o.update_attribute(bad, 1)
            except AttributeError:
                continue
            require(False, f"{cls.__name__}: setting {bad} did not fail")

    def gen_p(rng, tier):
        for d in range(1, 5):
            for _ in range(6):
                yield {"path": [rng.choice(["part", "other"]) for _ in range(d)], "v": rng.randint(1, 99), "kw": rng.random() < .5}

    @reg.rt("dotted names of any depth", gen_p, ["DotNotationBaseModel._set_nested_attribute", "MetadataBase.update_attribute",
                                                 "MetadataBase.get_attr_from_name"], "24 names of up to five parts, parts may repeat")
    def deep_names(i):
        from pydantic import Field

        class Node(MetadataBase):
            x: int = Field(default=0, json_schema_extra={"required": True, "units": None})

        def level(below):
            class Node(MetadataBase):
                x: int = Field(default=0, json_schema_extra={"required": True, "units": None})
                part: below = Field(default_factory=below, json_schema_extra={"required": True, "units": None})
                other: below = Field(default_factory=below, json_schema_extra={"required": True, "units": None})

            return Node

        top = Node
        for _ in i["path"]:
            top = level(top)
        name = ".".join(i["path"] + ["x"])

        def all_x(o, pre=""):
            r = {pre + "x": o.x}
            for q in ("part", "other"):
                if q in type(o).model_fields:
                    r.update(all_x(getattr(o, q), pre + q + "."))
            return r

        if i["kw"]:
            o = top(**{name: i["v"]})
        else:
            o = top()
            o.update_attribute(name, i["v"])
        got = all_x(o)
        require({k for k, v in got.items() if v} == {name} and got[name] == i["v"], f"setting {name} set {[k for k, v in got.items() if v]}")
        require(o.get_attr_from_name(name) == i["v"], f"{name} reads {o.get_attr_from_name(name)}")

    @reg.rt("dotted keywords", gen_c, ["DotNotationBaseModel.__init__", "DotNotationBaseModel._set_nested_attribute"],
            "every metadata class, twice")
    def kw(i):
        cls, rng, vals = setup(i)
        names = [n for n in vals if dotted(cls, n)]
        names = rng.sample(names, min(len(names), rng.randint(1, 6)))
        a = cls()
        ok = []
        for n in names:
            try:
                a.update_attribute(n, vals[n])
                ok.append(n)
            except Exception:
                continue
        if not ok:
            raise Skip
        kwargs = {n: vals[n] for n in ok}
        snap = dict(kwargs)
        try:
            b = cls(**kwargs)
        except Exception as e:
            single = []
            for n in ok:
                try:
                    cls(**{n: vals[n]})
                except Exception:
                    single.append(n)
            if single:
                raise Skip
            raise
        require(kwargs == snap, "the keywords were changed")
        try:
            nest = cls(**mh.structure_dict(dict(kwargs)))
        except Exception:
            raise Skip
        for n in ok:
            x, y = b.get_attr_from_name(n), nest.get_attr_from_name(n)
            require(same(x, y), f"{cls.__name__}({n}={vals[n]!r}) holds {x!r}; the nested form holds {y!r}")
            if "nomenclature" in n or i["cls"].startswith(("features", "processing")) or "Nomenclature" in i["cls"]:
                continue  # these classes derive attributes from others when constructed
            require(same(x, a.get_attr_from_name(n)), f"{cls.__name__}({n}={vals[n]!r}) holds {x!r}, set afterwards it is {a.get_attr_from_name(n)!r}")
