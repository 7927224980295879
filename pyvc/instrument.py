"""Mechanical extraction of the code under proof.

An import hook compiles every `mt_metadata.*` module from the *current* source
in /repo after the following semantics-preserving rewriting (nothing else is
changed, and nothing is dropped):

  x in y, x not in y, x is True/False   -> helper calls (Python forces a bool)
  y[k] (load) / y[k] = v / y[k] += v     -> helper calls
  obj.attr = v                           -> helper call (pydantic models accept
                                            a symbolic value without validation)
  f"..."                                 -> helper call over the same pieces
  isinstance/len/range/int/float/... (x) -> helper call, given the name's value
                                            so shadowed names stay themselves
  "..".join(x), "..".format(x)           -> helper call
  Name(...) for class-like names         -> helper call (a pydantic model built
                                            from a symbolic value stores it)
  [], {}                                 -> a list / dict that may become symbolic
  for T in IT: B else: E                 -> the same loop when IT is concrete;
                                            cut by its loop contract when IT has
                                            a symbolic length
  [f(x) for x in IT], all(..), any(..)   -> the same, pointwise when IT has a
                                            symbolic length
  except: (bare)                         -> except Exception: (the engine's own
                                            control exceptions pass through)
  import numpy/math/pandas                 -> facade that delegates to the real
                                            module unless an argument is symbolic

All helpers delegate to the native operation when no operand is symbolic, so
the instrumented package is the real package on concrete data (the test-suite
cross-check in pyvc/selftest.py runs it that way).
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

BUILTINS = {
    "isinstance", "len", "range", "int", "float", "str", "bool", "complex", "abs",
    "min", "max", "sum", "round", "sorted", "enumerate", "zip", "any", "all",
    "list", "tuple", "set", "dict", "type", "reversed", "hasattr", "setattr", "getattr",
    "iter", "next", "repr", "divmod", "hash", "map", "filter", "frozenset",
}
FRAME = {"super", "locals", "globals", "vars", "print", "property", "classmethod", "staticmethod", "object"}
METHODS = {"join", "format"}
VC = "_vc_"

SOURCES = {}  # module name -> path of instrumented modules


def _vc(attr):
    return ast.Attribute(value=ast.Name(id=VC, ctx=ast.Load()), attr=attr, ctx=ast.Load())


def _call(attr, *args):
    return ast.Call(func=_vc(attr), args=list(args), keywords=[])


class _Assigned(ast.NodeVisitor):
    """Names stored in a loop body (not inside nested scopes)."""

    def __init__(self):
        self.names = []

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.names:
            self.names.append(n.id)

    def visit_FunctionDef(self, n):
        if n.name not in self.names:
            self.names.append(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        for g in n.generators:
            self.visit(g.iter)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Import(self, n):
        for a in n.names:
            nm = (a.asname or a.name).split(".")[0]
            if nm not in self.names:
                self.names.append(nm)

    visit_ImportFrom = visit_Import


class _Has(ast.NodeVisitor):
    def __init__(self, kinds):
        self.kinds = kinds
        self.found = False

    def generic_visit(self, n):
        if isinstance(n, self.kinds):
            self.found = True
        super().generic_visit(n)


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.scope = []
        self.loopno = {}
        self.uid = 0

    # -------- scopes
    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        # defaults are evaluated once in the enclosing scope; leave annotations
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d if d is None else self.visit(d) for d in node.args.kw_defaults]
        self.scope.append(("f", node.name))
        node.body = self._body(node.body)
        self.scope.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.scope.append(("c", node.name))
        node.body = self._body(node.body)
        self.scope.pop()
        return node

    def visit_Lambda(self, node):
        self.scope.append(("f", "<lambda>"))
        node.body = self.visit(node.body)
        self.scope.pop()
        return node

    @property
    def in_function(self):
        return bool(self.scope) and self.scope[-1][0] == "f"

    @property
    def in_any_function(self):
        return any(k == "f" for k, _ in self.scope)

    def qual(self):
        return ".".join(n for _, n in self.scope)

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    # -------- annotations are left alone
    def visit_AnnAssign(self, node):
        if not self.in_any_function:
            # class / module level field declarations: left verbatim
            return node
        if node.value is not None:
            node.value = self.visit(node.value)
        if node.value is not None and isinstance(node.target, ast.Attribute):
            return ast.Assign(targets=[node.target], value=node.value)
        return node

    # -------- expressions
    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.in_any_function:
            return node
        if len(node.ops) != 1:
            return node
        op, l, r = node.ops[0], node.left, node.comparators[0]
        if isinstance(op, ast.In):
            return _call("contains", r, l)
        if isinstance(op, ast.NotIn):
            return _call("not_contains", r, l)
        if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and isinstance(r.value, bool):
            return _call("is_bool", l, r, ast.Constant(isinstance(op, ast.IsNot)))
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if self.in_any_function and isinstance(node.ctx, ast.Load) and not node.elts:
            return _call("newlist")
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if self.in_any_function and not node.keys:
            return _call("newdict")
        if self.in_any_function and all(k is not None and not isinstance(k, ast.Constant) for k in node.keys):
            return _call("mkdict", ast.List(
                elts=[ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)],
                ctx=ast.Load()))
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not self.in_any_function or not isinstance(node.ctx, ast.Load):
            return node
        return _call("getitem", node.value, self._slice(node.slice))

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(
                func=ast.Name(id="slice", ctx=ast.Load()),
                args=[x if x is not None else ast.Constant(None) for x in (s.lower, s.upper, s.step)],
                keywords=[],
            )
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._slice(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        if not self.in_any_function:
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                if spec is None:
                    spec = ast.Constant("")
                parts.append(
                    ast.Tuple(elts=[v.value, ast.Constant(v.conversion), spec], ctx=ast.Load())
                )
        return _call("fstr", *parts)

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        if node.format_spec is not None:
            node.format_spec = self.visit(node.format_spec)
        return node

    def visit_Call(self, node):
        # all(genexp)/any(genexp)/sum(genexp)/list(genexp)...
        self.generic_visit(node)
        if not self.in_any_function:
            return node
        f = node.func
        if isinstance(f, ast.Name) and (f.id in BUILTINS or f.id[:1].islower() and f.id != "cls" and f.id not in FRAME):
            return ast.Call(func=_call("b", f, ast.Constant(f.id)), args=node.args, keywords=node.keywords)
        if isinstance(f, ast.Name) and (f.id[:1].isupper() or f.id == "cls"):
            return ast.Call(func=_call("k", f), args=node.args, keywords=node.keywords)
        if isinstance(f, ast.Attribute) and f.attr in METHODS:
            return ast.Call(
                func=_call("m", f.value, ast.Constant(f.attr)), args=node.args, keywords=node.keywords
            )
        return node

    def _comp(self, node, kind):
        # first iterable may be symbolic: [elt for T in IT if c]
        simple = len(node.generators) == 1 and not node.generators[0].is_async
        self.generic_visit(node)
        if not self.in_function or not simple:
            return node
        has = _Has((ast.NamedExpr, ast.Yield, ast.Await))
        has.visit(node)
        if has.found:
            return node
        g = node.generators[0]
        # lambda taking the element: bind the target through a one-shot comp
        elt = node.elt if kind != "dict" else ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())

        def one(expr):
            return ast.Lambda(
                args=ast.arguments(
                    posonlyargs=[], args=[ast.arg(arg="_vc_x")], kwonlyargs=[], kw_defaults=[], defaults=[]
                ),
                body=ast.Subscript(
                    value=ast.ListComp(
                        elt=expr,
                        generators=[
                            ast.comprehension(
                                target=_copy(g.target),
                                iter=ast.Tuple(elts=[ast.Name(id="_vc_x", ctx=ast.Load())], ctx=ast.Load()),
                                ifs=[],
                                is_async=0,
                            )
                        ],
                    ),
                    slice=ast.Constant(0),
                    ctx=ast.Load(),
                ),
            )

        cond = ast.Constant(None)
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=list(g.ifs))
            cond = one(c)
        return _call("comp", ast.Constant(kind), g.iter, one(elt), cond)

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_SetComp(self, node):
        return self._comp(node, "set")

    def visit_DictComp(self, node):
        return self._comp(node, "dict")

    # -------- statements
    def visit_Assign(self, node):
        if not self.in_any_function:
            return self.generic_visit(node)
        self.generic_visit(node)
        if isinstance(node.value, ast.List) and node.value.elts and all(isinstance(t, ast.Name) for t in node.targets):
            node.value = _call("newlist", node.value)
        if len(node.targets) == 1:
            t = node.targets[0]
            if isinstance(t, ast.Subscript):
                return ast.Expr(_call("setitem", t.value, self._slice(t.slice), node.value))
            if isinstance(t, ast.Attribute):
                return ast.Expr(_call("setattr", t.value, ast.Constant(t.attr), node.value))
        return node

    def visit_AugAssign(self, node):
        if not self.in_any_function:
            return self.generic_visit(node)
        self.generic_visit(node)
        t = node.target
        self.uid += 1
        o, k = f"_vc_o{self.uid}", f"_vc_k{self.uid}"
        opname = type(node.op).__name__
        if isinstance(t, ast.Subscript):
            return [
                ast.Assign(targets=[ast.Name(id=o, ctx=ast.Store())], value=t.value),
                ast.Assign(targets=[ast.Name(id=k, ctx=ast.Store())], value=self._slice(t.slice)),
                ast.Expr(
                    _call(
                        "setitem",
                        ast.Name(id=o, ctx=ast.Load()),
                        ast.Name(id=k, ctx=ast.Load()),
                        _call(
                            "iop",
                            ast.Constant(opname),
                            _call("getitem", ast.Name(id=o, ctx=ast.Load()), ast.Name(id=k, ctx=ast.Load())),
                            node.value,
                        ),
                    )
                ),
            ]
        if isinstance(t, ast.Attribute):
            return [
                ast.Assign(targets=[ast.Name(id=o, ctx=ast.Store())], value=t.value),
                ast.Expr(
                    _call(
                        "setattr",
                        ast.Name(id=o, ctx=ast.Load()),
                        ast.Constant(t.attr),
                        _call(
                            "iop",
                            ast.Constant(opname),
                            ast.Attribute(value=ast.Name(id=o, ctx=ast.Load()), attr=t.attr, ctx=ast.Load()),
                            node.value,
                        ),
                    )
                ),
            ]
        if isinstance(t, ast.Name) and self.in_function:
            return ast.Assign(
                targets=[ast.Name(id=t.id, ctx=ast.Store())],
                value=_call("iop", ast.Constant(opname), ast.Name(id=t.id, ctx=ast.Load()), node.value),
            )
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.Name(id="Exception", ctx=ast.Load())
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if self.in_any_function and len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.Expr(_call("delitem", t.value, self._slice(t.slice)))
        return node

    def visit_Import(self, node):
        out = [node]
        for a in node.names:
            if a.name in ("numpy", "math", "pandas"):
                nm = a.asname or a.name
                out.append(
                    ast.Assign(
                        targets=[ast.Name(id=nm, ctx=ast.Store())],
                        value=_call("mod", ast.Name(id=nm, ctx=ast.Load())),
                    )
                )
        return out

    def visit_For(self, node):
        if not self.in_function:
            return self.generic_visit(node)
        q = self.qual()
        no = self.loopno.get(q, 0)
        self.loopno[q] = no + 1
        asg = _Assigned()
        for s in node.body:
            asg.visit(s)
        asg.visit(node.target)
        tgt = _Assigned()
        tgt.visit(node.target)
        body = self._body(node.body)
        orelse = self._body(node.orelse)
        it = self.visit(node.iter)
        self.uid += 1
        L = f"_vc_L{self.uid}"
        names = [n for n in asg.names if not n.startswith("_vc_")]

        def Ld():
            return ast.Name(id=L, ctx=ast.Load())

        def M(attr, *args):
            return ast.Call(
                func=ast.Attribute(value=Ld(), attr=attr, ctx=ast.Load()), args=list(args), keywords=[]
            )

        loc = ast.Call(func=ast.Name(id="locals", ctx=ast.Load()), args=[], keywords=[])
        out = [
            ast.Assign(
                targets=[ast.Name(id=L, ctx=ast.Store())],
                value=_call("loop", it, ast.Constant(f"{self.modname}:{q}"), ast.Constant(no)),
            )
        ]
        rebind = []
        for n in names:
            rebind.append(
                ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=M("var", ast.Constant(n)))
            )
        loc2 = _copy(loc)
        sym = [
            ast.Expr(
                M(
                    "enter",
                    loc,
                    ast.Constant(tuple(names)),
                    ast.Constant(tuple(tgt.names)),
                )
            ),
            *rebind,
            ast.If(
                test=M("arbitrary"),
                body=[
                    ast.For(
                        target=_copy(node.target),
                        iter=M("once"),
                        body=_copyl(body),
                        orelse=[ast.Expr(M("preserve", loc2))],
                    ),
                    ast.Expr(M("broke")),
                ],
                orelse=_copyl(orelse) or [ast.Pass()],
            ),
        ]
        plain = ast.For(target=node.target, iter=M("items"), body=body, orelse=orelse)
        out.append(
            ast.If(
                test=ast.Attribute(value=Ld(), attr="symbolic", ctx=ast.Load()),
                body=sym,
                orelse=[plain],
            )
        )
        return out


def _copy(n):
    import copy

    return copy.deepcopy(n)


def _copyl(ns):
    return [_copy(n) for n in ns]


def rewrite(source, path, modname):
    tree = ast.parse(source, path)
    new = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(new)
    return compile(new, path, "exec", dont_inherit=True)


class _Loader(importlib.abc.Loader):
    def __init__(self, name, path):
        self.name = name
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import helpers

        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        code = rewrite(src, self.path, self.name)
        module.__dict__[VC] = helpers
        SOURCES[self.name] = self.path
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, package="mt_metadata"):
        self.root = root
        self.package = package

    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.package and not fullname.startswith(self.package + "."):
            return None
        rel = os.path.join(self.root, *fullname.split("."))
        if os.path.isfile(os.path.join(rel, "__init__.py")):
            p = os.path.join(rel, "__init__.py")
            spec = importlib.util.spec_from_loader(fullname, _Loader(fullname, p), origin=p, is_package=True)
            spec.submodule_search_locations = [rel]
            spec.has_location = True
            return spec
        if os.path.isfile(rel + ".py"):
            p = rel + ".py"
            spec = importlib.util.spec_from_loader(fullname, _Loader(fullname, p), origin=p)
            spec.has_location = True
            return spec
        return None


def install(repo="/repo"):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(repo))
    if repo not in sys.path:
        sys.path.insert(0, repo)
