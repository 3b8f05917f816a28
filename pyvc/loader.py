"""Load the modules of /repo under verification from their current source, mechanically instrumented.

The instrumentation keeps the meaning on concrete values: calls of some builtins, `is`, f-strings, `for`/`while`
loops, comprehensions and attribute stores go through hooks of `pyvc.rt`, which fall back to the construct itself.
Nothing is dropped from the source.
"""
from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import sys

from . import rt

COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def assigned(nodes):
    """Names assigned (in this scope) by statements."""
    out = []

    class W(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            pass

        visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef

        def visit_ListComp(self, n):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    self.visit_Name(ast.Name(x.target.id, ast.Store()))

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            self.generic_visit(n)

    for s in nodes:
        W().visit(s)
    return [n for n in out if not n.startswith("__vc")]


def has_yield(nodes):
    for s in nodes:
        for n in ast.walk(s):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                return True
    return False


class FnInstrumenter(ast.NodeTransformer):
    """Transforms the body of one function (nested functions are handled by a fresh instance)."""

    def __init__(self, mod, qual, shadow, module_names):
        self.mod = mod
        self.qual = qual
        self.shadow = shadow
        self.module_names = module_names
        self.count = [0]
        self.hoisted = []
        self.lambda_depth = 0

    def site(self, node):
        return f"{self.mod}.{self.qual}:{getattr(node, 'lineno', 0)}"

    def fresh(self):
        self.count[0] += 1
        return f"__vc_{self.qual.replace('.', '_').replace('<', '').replace('>', '')}_{self.count[0]}"

    def is_own(self, e):
        """The expression names a local variable of this function that is not a parameter."""
        return isinstance(e, ast.Name) and e.id in self.shadow and e.id not in self.params

    # statements: hoist comprehension functions in front of the statement that contains them
    def block(self, stmts):
        out = []
        for s in stmts:
            saved, self.hoisted = self.hoisted, []
            r = self.visit(s)
            out.extend(self.hoisted)
            self.hoisted = saved
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def generic_visit(self, node):
        for f, v in ast.iter_fields(node):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, f, self.block(v))
            elif isinstance(v, list):
                new = []
                for x in v:
                    if isinstance(x, ast.AST):
                        y = self.visit(x)
                        if y is None:
                            continue
                        new.extend(y if isinstance(y, list) else [y])
                    else:
                        new.append(x)
                setattr(node, f, new)
            elif isinstance(v, ast.AST):
                y = self.visit(v)
                setattr(node, f, y)
        return node

    def visit_FunctionDef(self, node):
        return instrument_function(node, self.mod, self.qual + "." + node.name, self.module_names)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        return ClassInstrumenter(self.mod, self.qual + ".", self.module_names).visit(node)

    def visit_Lambda(self, node):
        self.lambda_depth += 1
        try:
            return self.generic_visit(node)
        finally:
            self.lambda_depth -= 1

    def visit_Call(self, node):
        node = self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
            f.value = ast.Call(ast.Attribute(_vc(), "mutate", ast.Load()),
                               [f.value, ast.Constant(self.is_own(f.value))], [])
            ast.fix_missing_locations(ast.copy_location(f.value, f))
        if isinstance(f, ast.Attribute) and f.attr == "join" and len(node.args) == 1 and not node.keywords \
                and not isinstance(node.args[0], ast.Starred):
            r = ast.Call(ast.Attribute(_vc(), "join", ast.Load()), [f.value, node.args[0]], [])
            return ast.fix_missing_locations(ast.copy_location(r, node))
        if isinstance(f, ast.Name) and f.id in rt.HOOKED and f.id not in self.shadow \
                and f.id not in self.module_names:
            node.func = ast.copy_location(ast.Attribute(_vc(), "b_" + f.id, ast.Load()), f)
        if any(isinstance(a, ast.Starred) for a in node.args) or any(k.arg is None for k in node.keywords):
            args = [ast.Tuple([ast.Constant(isinstance(a, ast.Starred)), a.value if isinstance(a, ast.Starred) else a], ast.Load())
                    for a in node.args]
            kws = [ast.Tuple([ast.Constant(k.arg), k.value], ast.Load()) for k in node.keywords]
            r = ast.Call(ast.Attribute(_vc(), "call", ast.Load()),
                         [node.func, ast.Tuple(args, ast.Load()), ast.Tuple(kws, ast.Load())], [])
            return ast.fix_missing_locations(ast.copy_location(r, node))
        return node

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            if isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None:
                call = ast.Call(ast.Attribute(_vc(), "is_none", ast.Load()), [node.left], [])
                r = call if isinstance(node.ops[0], ast.Is) else ast.UnaryOp(ast.Not(), call)
                return ast.fix_missing_locations(ast.copy_location(r, node))
            call = ast.Call(ast.Attribute(_vc(), "is_", ast.Load()), [node.left, node.comparators[0]], [])
            r = call if isinstance(node.ops[0], ast.Is) else ast.UnaryOp(ast.Not(), call)
            return ast.fix_missing_locations(ast.copy_location(r, node))
        return node

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if any(k is None for k in node.keys):
            parts = [ast.Tuple([ast.Constant(k is not None), k or ast.Constant(None), v], ast.Load())
                     for k, v in zip(node.keys, node.values)]
            r = ast.Call(ast.Attribute(_vc(), "dict_display", ast.Load()), parts, [])
            return ast.fix_missing_locations(ast.copy_location(r, node))
        return node

    def visit_JoinedStr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                args.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        r = ast.Call(ast.Attribute(_vc(), "fstr", ast.Load()), args, [])
        return ast.fix_missing_locations(ast.copy_location(r, node))

    # stores -------------------------------------------------------------
    def _stores(self, targets, node):
        pre = []
        for t in targets:
            for x in ast.walk(t):
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store) \
                        and _simple(x.value):
                    import copy
                    v = copy.deepcopy(x.value)
                    c = ast.Expr(ast.Call(ast.Attribute(_vc(), "store", ast.Load()),
                                          [v, ast.Constant(self.is_own(v))], []))
                    pre.append(ast.fix_missing_locations(ast.copy_location(c, node)))
                elif isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store):
                    x.value = ast.fix_missing_locations(ast.copy_location(
                        ast.Call(ast.Attribute(_vc(), "target", ast.Load()), [x.value], []), x.value))
        return pre

    def visit_Assign(self, node):
        pre = self._stores(node.targets, node)
        return pre + [self.generic_visit(node)]

    def visit_AugAssign(self, node):
        pre = self._stores([node.target], node)
        return pre + [self.generic_visit(node)]

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        pre = self._stores([node.target], node)
        node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return pre + [node]

    # loops ----------------------------------------------------------------
    def visit_For(self, node):
        tnames = assigned([ast.Assign([node.target], ast.Constant(0))])
        names = [n for n in assigned(node.body) if n not in tnames]
        names += [n for n in mutated_names(node.body) if n in self.shadow and n not in names and n not in tnames]
        site = self.site(node)
        it, lp = self.fresh(), self.fresh()
        src_iter = self.visit(node.iter)
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        import copy
        native = ast.For(node.target, ast.Name(it, ast.Load()), body, orelse)
        gen_t, gen_b, gen_o = copy.deepcopy(node.target), copy.deepcopy(body), copy.deepcopy(orelse)
        sets = _sets(lp, names)
        sets2 = _sets(lp, names, all_boxes=True)
        sym = ast.For(gen_t, ast.Name(lp, ast.Load()), sets + gen_b, sets2 + gen_o)
        sym = ast.Try([sym], [], [], [ast.Expr(ast.Call(ast.Attribute(ast.Name(lp, ast.Load()), "left", ast.Load()),
                                                        [], []))])
        mk = _assign(lp, ast.Call(ast.Attribute(_vc(), "loop", ast.Load()),
                                  [ast.Name(it, ast.Load()), ast.Constant(site),
                                   ast.Tuple([ast.Constant(n) for n in names], ast.Load())], []))
        cond = ast.Call(ast.Attribute(_vc(), "is_iter", ast.Load()), [ast.Name(it, ast.Load())], [])
        out = [_assign(it, src_iter), ast.If(cond, [mk, sym], [native])]
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def live(self, name, loop):
        """Can the value a variable has at the loop head be read?  (Not if every iteration first assigns it and it is
        not mentioned outside the loop.)"""
        inside = {id(x) for x in ast.walk(loop)}
        for x in ast.walk(self.fn):
            if isinstance(x, ast.Name) and x.id == name and id(x) not in inside and isinstance(x.ctx, ast.Load):
                return True
            if isinstance(x, (ast.Global, ast.Nonlocal)) and name in x.names:
                return True
            if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not self.fn and any(
                    isinstance(y, ast.Name) and y.id == name for y in ast.walk(x)):
                return True

        def reads(e):
            return any(isinstance(y, ast.Name) and y.id == name and not isinstance(y.ctx, ast.Store) for y in ast.walk(e))
        if reads(loop.test):
            return True
        for st in loop.body:
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and not (st.value is not None and reads(st.value)):
                ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                if st.value is not None and any(isinstance(t, ast.Name) and t.id == name for t in ts):
                    return False
            if reads(st) or isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == name:
                return True
        return False

    def visit_While(self, node):
        if node.orelse:
            return self.generic_visit(node)
        names = [n for n in assigned(node.body) if self.live(n, node)]
        names += [n for n in mutated_names(node.body) if n in self.shadow and n not in names]
        site = self.site(node)
        w, h = self.fresh(), self.fresh()
        test = self.visit(node.test)
        body = self.block(node.body)
        mk = _assign(w, ast.Call(ast.Attribute(_vc(), "while_", ast.Load()),
                                 [ast.Constant(site), ast.Tuple([ast.Constant(n) for n in names], ast.Load())], []))
        head = _assign(h, ast.Call(ast.Attribute(ast.Name(w, ast.Load()), "head", ast.Load()),
                                   [ast.Call(ast.Name("locals", ast.Load()), [], [])], []))
        sets = []
        for n in names:
            sets.append(ast.If(ast.Compare(ast.Constant(n), [ast.In()], [ast.Name(h, ast.Load())]),
                               [_assign(n, ast.Subscript(ast.Name(h, ast.Load()), ast.Constant(n), ast.Load()))], []))
        brk = ast.If(ast.UnaryOp(ast.Not(), test), [ast.Break()], [])
        loop = ast.While(ast.Constant(True), [head] + sets + [brk] + body, [])
        out = [mk, loop]
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    # comprehensions ------------------------------------------------------------
    def _comp(self, node):
        if self.lambda_depth or any(g.is_async for g in node.generators) or has_yield([node]):
            return self.generic_visit(node)
        walrus = {x.target.id for x in ast.walk(node) if isinstance(x, ast.NamedExpr)}
        import copy
        first = self.visit(copy.deepcopy(node.generators[0].iter))
        fn = self.fresh()
        acc = "vcacc_"
        if isinstance(node, ast.DictComp):
            init = ast.Dict([], [])
            leaf = ast.Assign([ast.Subscript(ast.Name(acc, ast.Load()), copy.deepcopy(node.key), ast.Store())],
                              copy.deepcopy(node.value))
        elif isinstance(node, ast.SetComp):
            return self.generic_visit(node)
        else:
            init = ast.List([], ast.Load())
            leaf = ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()),
                                     [copy.deepcopy(node.elt)], []))
        body = [leaf]
        gens = node.generators
        for gi in range(len(gens) - 1, -1, -1):
            g = gens[gi]
            for c in reversed(g.ifs):
                body = [ast.If(copy.deepcopy(c), body, [])]
            itx = ast.Name("__vc_first", ast.Load()) if gi == 0 else copy.deepcopy(g.iter)
            body = [ast.For(copy.deepcopy(g.target), itx, body, [])]
        fbody = [_assign(acc, init)] + body + [ast.Return(ast.Name(acc, ast.Load()))]
        if walrus:
            # the target lives in the enclosing function; keep that when it is used there
            pass
        fd = ast.FunctionDef(fn, ast.arguments([], [ast.arg("__vc_first")], None, [], [], None, []), fbody, [], None)
        fd.type_params = []
        ast.copy_location(fd, node)
        ast.fix_missing_locations(fd)
        fd = instrument_function(fd, self.mod, self.qual + ".<comp>", self.module_names)
        self.hoisted.append(fd)
        # native comprehension on concrete iterables, hoisted loop on symbolic ones
        nat = copy.deepcopy(node)
        saved = self.hoisted
        self.hoisted = []
        self.lambda_depth += 1
        nat = self.generic_visit(nat)
        self.lambda_depth -= 1
        self.hoisted = saved
        nat.generators[0].iter = ast.Name("__vc_x", ast.Load())
        tmp = self.fresh()
        # (native if not is_iter(tmp := first) else fn(tmp)), tmp bound in the function's own scope
        nat.generators[0].iter = ast.Name(tmp, ast.Load())
        r = ast.IfExp(ast.Call(ast.Attribute(_vc(), "is_iter", ast.Load()),
                               [ast.NamedExpr(ast.Name(tmp, ast.Store()), first)], []),
                      ast.Call(ast.Name(fn, ast.Load()), [ast.Name(tmp, ast.Load())], []), nat)
        return ast.fix_missing_locations(ast.copy_location(r, node))

    visit_ListComp = visit_DictComp = visit_SetComp = visit_GeneratorExp = _comp


MUTATORS = {"append", "extend", "add", "update", "insert", "pop", "remove", "clear", "setdefault", "popitem",
            "discard", "sort", "reverse", "appendleft", "popleft"}


def _simple(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


def _vc():
    return ast.Name("__vc__", ast.Load())


def _assign(n, v):
    return ast.Assign([ast.Name(n, ast.Store())], v)


def _sets(lp, names, all_boxes=False):
    out = []
    for n in names:
        out.append(ast.If(ast.Call(ast.Attribute(ast.Name(lp, ast.Load()), "has", ast.Load()), [ast.Constant(n)], []),
                          [_assign(n, ast.Call(ast.Attribute(ast.Name(lp, ast.Load()), "get", ast.Load()),
                                               [ast.Constant(n)], []))], []))
    return out


def mutated_names(nodes):
    """Names of local containers changed in place by statements: x.append(..), x[..] = .."""
    out = []
    for s in nodes:
        for n in ast.walk(s):
            t = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                t = n.func.value.id
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                t = n.value.id
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr not in MUTATORS:
                continue
            if t and t not in out and not t.startswith("__vc__"):
                out.append(t)
    return out


def local_names(fn):
    names = set(a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs)
    if fn.args.vararg:
        names.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        names.add(fn.args.kwarg.arg)
    names |= set(assigned(fn.body))
    return names


def instrument_function(fn, mod, qual, module_names):
    shadow = local_names(fn)
    fi = FnInstrumenter(mod, qual, shadow, module_names)
    fi.fn = fn
    fi.params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    fn.body = fi.block(fn.body)
    fn.args.defaults = [d for d in fn.args.defaults]
    return ast.fix_missing_locations(fn)


class ClassInstrumenter(ast.NodeTransformer):
    def __init__(self, mod, prefix, module_names):
        self.mod = mod
        self.prefix = prefix
        self.module_names = module_names

    def visit_FunctionDef(self, node):
        return instrument_function(node, self.mod, self.prefix + node.name, self.module_names)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        node.body = [ClassInstrumenter(self.mod, self.prefix + node.name + ".", self.module_names).visit(s)
                     for s in node.body]
        return node

    def visit_Lambda(self, node):
        return node


def instrument(tree, modname):
    names = set()
    for s in tree.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            names.add(s.name)
    names |= set(assigned(tree.body))
    for n in ast.walk(tree):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add(a.asname or a.name.split(".")[0])
    tree.body = [ClassInstrumenter(modname, "", names).visit(s) for s in tree.body]
    return ast.fix_missing_locations(tree)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        tree = instrument(ast.parse(src, path), fullname)
        INSTRUMENTED[fullname] = path
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["__vc__"] = rt.RT
        super().exec_module(module)


INSTRUMENTED = {}


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, wanted):
        self.wanted = wanted

    def find_spec(self, name, path, target=None):
        if name not in self.wanted:
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not spec.origin or not spec.origin.endswith(".py"):
            return None
        return importlib.util.spec_from_file_location(
            name, spec.origin, loader=Loader(name, spec.origin),
            submodule_search_locations=spec.submodule_search_locations)


def install(wanted, repo="/repo"):
    sys.dont_write_bytecode = True
    if repo not in sys.path:
        sys.path.insert(0, repo)
    sys.meta_path.insert(0, Finder(set(wanted)))
