"""Mechanical extraction: load the real modules of /repo for symbolic execution.

Every run parses /repo/pypfopt/*.py and applies the semantics-preserving source
transformation below; nothing else of the code is changed or dropped:

  * decimal literals become exact rationals,  a / b and a ** b go through helpers
    (so that int/int stays exact),
  * list displays build journalled lists, comprehensions and for/while loops
    become calls that take the body as a closure (break/continue/return are
    passed back as signals); a loop that only appends several elements per
    iteration to a list just made becomes the equal comprehension,
  * imports of numpy, pandas, cvxpy, scipy, sklearn, matplotlib, json, copy,
    warnings, collections are redirected to the contract models,
  * builtins (len, isinstance, float, sum, ...) are redirected to lifted ones.

Docstrings and annotations are dropped.
"""
import ast
import builtins as _b
import copy
import os
import types
from collections import Counter
from fractions import Fraction
from . import core
from .core import SNum, SList, Unsupported, Ret, BRK, CONT, UNBOUND, tt, num

REPO = os.environ.get("VF_REPO", "/repo")
PKG = "pypfopt"


class Helpers:
    BRK, CONT, Ret, UNBOUND = BRK, CONT, Ret, UNBOUND
    is_ = staticmethod(core.vf_is)
    unzip = staticmethod(core.vf_unzip)

    @staticmethod
    def const(s):
        return SNum(num(Fraction(s), core.R), "float")

    @staticmethod
    def mklist(*xs):
        return SList(xs)

    @staticmethod
    def div(a, b):
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            if b == 0:
                raise ZeroDivisionError("division by zero")
            return SNum(num(Fraction(a) / Fraction(b), core.R), "float")
        if isinstance(a, SNum) and isinstance(b, (SNum, int)) and a.py in ("int", "float") and \
                (isinstance(b, int) or b.py in ("int", "float")):
            # python scalars: division by zero raises
            tb = core.term(b)
            if core.bnf(core.eq(tb, core.ZERO)) is core.TRUE:
                raise ZeroDivisionError("division by zero")
        return a / b

    @staticmethod
    def pow(a, b):
        if isinstance(a, int) and isinstance(b, int):
            if b >= 0:
                return a ** b
            return SNum(num(Fraction(a) ** b, core.R), "float")
        if isinstance(a, (int, float)) and isinstance(b, SNum):
            return SNum(tt(a)) ** b
        return a ** b

    for_ = staticmethod(core.run_for)
    while_ = staticmethod(core.run_while)
    comp = staticmethod(core.comp)

    @staticmethod
    def comp2(kind, it, f):
        """nested comprehension: f maps an element to a list; flatten"""
        s = core.iter_of(it)
        if isinstance(s, core.Seq) and not s.concrete:
            if kind == "dict":
                raise Unsupported("nested comprehension over symbolic sequence")
            r = core.comp_flat(s, f)
            return r if kind == "list" else r.seq()
        out = []
        for x in (list(s) if isinstance(s, core.Seq) else s):
            out.extend(f(x))
        if kind == "dict":
            return dict(out)
        return SList(out)


class Names(ast.NodeVisitor):
    """names bound by statements (not descending into nested scopes)"""

    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        # walrus not supported; iterables of comprehension cannot bind
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import


def bound_names(stmts):
    v = Names()
    for s in stmts:
        v.visit(s)
    return v.names


def H(name):
    return ast.Attribute(ast.Name("__vf__", ast.Load()), name, ast.Load())


def call(f, *args):
    return ast.Call(f, list(args), [])


def has_yield(fn):
    for n in ast.walk(fn):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


class ExprT(ast.NodeTransformer):
    def __init__(self, loader):
        self.loader = loader

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            src = ast.get_source_segment(self.loader.src, n) if hasattr(n, "lineno") else None
            if src is None:
                src = repr(n.value)
            src = src.replace("_", "")
            try:
                Fraction(src)
            except ValueError:
                return n
            return ast.copy_location(call(H("const"), ast.Constant(src)), n)
        return n

    def visit_JoinedStr(self, n):
        return ast.JoinedStr([self.visit(v) if isinstance(v, ast.FormattedValue) else v for v in n.values])

    def visit_FormattedValue(self, n):
        return ast.FormattedValue(self.visit(n.value), n.conversion, n.format_spec)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(call(H("div"), n.left, n.right), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(call(H("pow"), n.left, n.right), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], ast.Starred) \
                and n.func.id == "zip":
            return ast.copy_location(call(H("unzip"), n.func, n.args[0].value), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            c = call(H("is_"), n.left, n.comparators[0])
            return ast.copy_location(ast.UnaryOp(ast.Not(), c) if isinstance(n.ops[0], ast.IsNot) else c, n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(call(H("mklist"), *n.elts), n)
        return n

    def _comp(self, n, kind, elt):
        gens = n.generators
        return self._gen(kind, gens, elt)

    def _target_fn(self, target, body):
        """lambda x: (lambda targets: body)(*x) as nested lambda"""
        if isinstance(target, ast.Name):
            return ast.Lambda(ast.arguments([], [ast.arg(target.id)], None, [], [], None, []), body)
        # destructuring via a generator-free trick: (lambda a, b: body)(*x)
        def names_of(t, k):
            if isinstance(t, ast.Name):
                return [ast.arg(t.id)], [ast.Name("__e", ast.Load()) if k is None else k]
            raise Unsupported("comprehension target")
        if isinstance(target, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in target.elts):
            inner = ast.Lambda(ast.arguments([], [ast.arg(e.id) for e in target.elts], None, [], [], None, []), body)
            return ast.Lambda(ast.arguments([], [ast.arg("__e")], None, [], [], None, []),
                              ast.Call(inner, [ast.Starred(ast.Name("__e", ast.Load()), ast.Load())], []))
        if isinstance(target, (ast.Tuple, ast.List)):
            # one level of nesting:  (i, (a, b))
            args, inner_body = [], body
            for k, e in enumerate(target.elts):
                if isinstance(e, ast.Name):
                    args.append(ast.arg(e.id))
                else:
                    nm = "__t%d" % k
                    args.append(ast.arg(nm))
                    inner_body = call(self._target_fn(e, inner_body), ast.Name(nm, ast.Load()))
            inner = ast.Lambda(ast.arguments([], args, None, [], [], None, []), inner_body)
            return ast.Lambda(ast.arguments([], [ast.arg("__e")], None, [], [], None, []),
                              ast.Call(inner, [ast.Starred(ast.Name("__e", ast.Load()), ast.Load())], []))
        raise Unsupported("comprehension target")

    def _gen(self, kind, gens, elt):
        g = gens[0]
        cond = None
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = self._target_fn(g.target, c)
        if len(gens) == 1:
            f = self._target_fn(g.target, elt)
            args = [ast.Constant(kind), g.iter, f] + ([cond] if cond else [])
            return call(H("comp"), *args)
        inner = self._gen("list" if kind != "dict" else "gen", gens[1:], elt)
        if cond is not None:
            inner = ast.IfExp(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs), inner,
                              ast.Tuple([], ast.Load()))
        return call(H("comp2"), ast.Constant(kind), g.iter, self._target_fn(g.target, inner))

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(self._comp(n, "list", n.elt), n)

    def visit_GeneratorExp(self, n):
        self.generic_visit(n)
        return ast.copy_location(self._comp(n, "gen", n.elt), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(self._comp(n, "set", n.elt), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(self._comp(n, "dict", ast.Tuple([n.key, n.value], ast.Load())), n)


class Subst(ast.NodeTransformer):
    def __init__(self, env):
        self.env = env

    def visit_Name(self, n):
        return copy.deepcopy(self.env[n.id]) if n.id in self.env and isinstance(n.ctx, ast.Load) else n


def collected(body, uses):
    """`L = []` followed by a loop that only appends several elements to L per iteration, as one comprehension

    (one element per iteration is handled by the loop rules)"""
    out = []
    for s in body:
        c = _collect(out[-1], s, uses) if out and isinstance(s, ast.For) else None
        if c is None:
            out.append(s)
        else:
            out[-1] = ast.copy_location(ast.Assign(out[-1].targets, ast.copy_location(c, s)), s)
    return out


def _collect(init, loop, uses):
    if not (isinstance(init, ast.Assign) and len(init.targets) == 1 and isinstance(init.targets[0], ast.Name)
            and isinstance(init.value, ast.List) and not init.value.elts) or loop.orelse or uses is None:
        return None
    L, env, cond, elts = init.targets[0].id, {}, [], []
    inside = Counter(x.id for x in ast.walk(loop) if isinstance(x, ast.Name))
    mine = lambda names: all(inside[x] == uses[x] for x in names)
    targets = [x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)]
    if not mine(targets) or any(not isinstance(x, (ast.Name, ast.Tuple, ast.expr_context)) for x in ast.walk(loop.target)):
        return None
    if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.NamedExpr))
           for x in ast.walk(loop)):
        return None

    def sub(e):
        return Subst(env).visit(copy.deepcopy(e))

    def run(stmts):
        for k, s in enumerate(stmts):
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                x = s.targets[0].id
                if x == L or x in env or x in targets or not mine([x]) or elts:
                    return False
                env[x] = sub(s.value)
            elif isinstance(s, ast.If) and not s.orelse and not elts and not cond:
                if len(s.body) == 1 and isinstance(s.body[0], ast.Continue):
                    cond.append(ast.copy_location(ast.UnaryOp(ast.Not(), sub(s.test)), s))
                    continue
                cond.append(sub(s.test))
                return k == len(stmts) - 1 and run(s.body)
            elif (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute)
                  and s.value.func.attr == "append" and isinstance(s.value.func.value, ast.Name)
                  and s.value.func.value.id == L and len(s.value.args) == 1 and not s.value.keywords):
                elts.append(sub(s.value.args[0]))
            else:
                return False
        return True
    if not run(loop.body) or len(elts) < 2:
        return None
    if any(isinstance(x, ast.Name) and x.id == L for e in elts + cond + [loop.iter] for x in ast.walk(e)):
        return None
    q = "__each"
    return ast.ListComp(ast.Name(q, ast.Load()), [
        ast.comprehension(loop.target, loop.iter, cond, 0),
        ast.comprehension(ast.Name(q, ast.Store()), ast.Tuple(elts, ast.Load()), [], 0)])


class Loader:
    def __init__(self, src, filename):
        self.src = src
        self.filename = filename
        self.k = 0
        self.qual = []
        self.loopno = {}
        self.uses = None

    # -------------------------------------------------- statements
    def module(self):
        tree = ast.parse(self.src, self.filename)
        self.expr = ExprT(self)
        out = []
        for s in tree.body:
            out.extend(self.top(s))
        tree.body = out
        ast.fix_missing_locations(tree)
        return compile(tree, self.filename, "exec")

    def top(self, s):
        if isinstance(s, ast.FunctionDef):
            return [self.function(s)]
        if isinstance(s, ast.ClassDef):
            self.qual.append(s.name)
            body = []
            for b in s.body:
                if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                    continue
                body.extend(self.top(b))
            s.body = body or [ast.Pass()]
            self.qual.pop()
            return [s]
        if isinstance(s, (ast.Try, ast.If)):
            for f in ("body", "orelse", "finalbody"):
                if hasattr(s, f):
                    setattr(s, f, [y for x in getattr(s, f) for y in self.top(x)])
            if isinstance(s, ast.Try):
                for h in s.handlers:
                    h.body = [y for x in h.body for y in self.top(x)]
            return [s]
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return [s]
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return [ast.Pass()]
        return [self.expr.visit(s)]

    def function(self, fn):
        self.qual.append(fn.name)
        for a in ast.walk(fn.args):
            if isinstance(a, ast.arg):
                a.annotation = None
        fn.returns = None
        fn.args.defaults = [self.expr.visit(d) for d in fn.args.defaults]
        fn.args.kw_defaults = [self.expr.visit(d) if d is not None else None for d in fn.args.kw_defaults]
        fn.decorator_list = [self.expr.visit(d) for d in fn.decorator_list]
        body = fn.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:] or [ast.Pass()]
        if has_yield(fn):
            fn.body = body
            self.qual.pop()
            return fn
        outer = self.uses
        if outer is None:
            self.uses = Counter(x.id for x in ast.walk(fn) if isinstance(x, ast.Name))
        params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
        for a in (fn.args.vararg, fn.args.kwarg):
            if a:
                params.append(a.arg)
        locs = bound_names(body)
        gl = set()
        for n in ast.walk(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                gl.update(n.names)
        locs = [x for x in locs if x not in gl]
        new = self.stmts(body, False)
        # keep every local bound in this scope
        hidden = [x for x in locs if x not in params]
        if hidden:
            new.insert(0, ast.If(ast.Constant(False), [ast.Assign([ast.Name(x, ast.Store())], ast.Constant(None))
                                                       for x in hidden], []))
        fn.body = new
        self.qual.pop()
        self.uses = outer
        return fn

    def stmts(self, body, inloop):
        out = []
        for s in collected(body, self.uses):
            out.extend(self.stmt(s, inloop))
        return out or [ast.Pass()]

    def stmt(self, s, inloop):
        if isinstance(s, ast.FunctionDef):
            return [self.function(s)]
        if isinstance(s, ast.ClassDef):
            return self.top(s)
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s, inloop)
        if isinstance(s, ast.Return) and inloop:
            v = self.expr.visit(s.value) if s.value is not None else ast.Constant(None)
            return [ast.copy_location(ast.Return(call(H("Ret"), v)), s)]
        if isinstance(s, ast.Break):
            return [ast.copy_location(ast.Return(H("BRK")), s)]
        if isinstance(s, ast.Continue):
            return [ast.copy_location(ast.Return(H("CONT")), s)]
        if isinstance(s, ast.If):
            return [ast.copy_location(ast.If(self.expr.visit(s.test), self.stmts(s.body, inloop),
                                             self.stmts(s.orelse, inloop) if s.orelse else []), s)]
        if isinstance(s, ast.Try):
            return [ast.copy_location(ast.Try(
                self.stmts(s.body, inloop),
                [ast.copy_location(ast.ExceptHandler(h.type, h.name, self.stmts(h.body, inloop)), h)
                 for h in s.handlers],
                self.stmts(s.orelse, inloop) if s.orelse else [],
                self.stmts(s.finalbody, inloop) if s.finalbody else []), s)]
        if isinstance(s, ast.With):
            items = [ast.withitem(self.expr.visit(i.context_expr), i.optional_vars) for i in s.items]
            return [ast.copy_location(ast.With(items, self.stmts(s.body, inloop)), s)]
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return [ast.Pass()]
            return [ast.copy_location(ast.Assign([self.expr.visit(s.target)], self.expr.visit(s.value)), s)]
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return [ast.copy_location(ast.Pass(), s)]
        return [self.expr.visit(s)]

    def loop(self, s, inloop):
        k = self.k
        self.k += 1
        q = ".".join(self.qual)
        no = self.loopno.get(q, 0)
        self.loopno[q] = no + 1
        key = "%s#%d" % (q, no)
        bn = "__body%d" % k
        names = bound_names(s.body)
        pre = []
        if isinstance(s, ast.For):
            tn = bound_names([s.target]) if not isinstance(s.target, ast.Name) else [s.target.id]
            if isinstance(s.target, ast.Name):
                tn = [s.target.id]
            else:
                v = Names()
                v.visit(s.target)
                tn = v.names
            names = tn + [x for x in names if x not in tn]
            pre = [ast.Assign([self.expr.visit(s.target)], ast.Name("__x", ast.Load()))]
            fargs = [ast.arg("__x")]
        else:
            fargs = []
        seen = []
        if isinstance(s, (ast.While, ast.For)):
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in names and x.id not in seen:
                    seen.append(x.id)
        inner = self.stmts(s.body, True)
        nl = [ast.Nonlocal(list(names))] if names else []
        body = ast.FunctionDef(bn, ast.arguments([], fargs, None, [], [], None, []), nl + pre + inner, [], None)
        # getter / setter of the loop's variables
        gdef = ast.FunctionDef("__get%d" % k, ast.arguments([], [], None, [], [], None, []),
                               ([ast.Nonlocal(list(names))] if names else []) +
                               [ast.Assign([ast.Name("__d", ast.Store())], ast.Dict([], []))] +
                               [ast.Try([ast.Assign([ast.Subscript(ast.Name("__d", ast.Load()), ast.Constant(x),
                                                                   ast.Store())], ast.Name(x, ast.Load()))],
                                        [ast.ExceptHandler(ast.Name("NameError", ast.Load()), None, [ast.Pass()])],
                                        [], []) for x in names] +
                               [ast.Return(ast.Name("__d", ast.Load()))], [], None)
        sbody = []
        for x in names:
            sbody.append(ast.If(
                ast.Compare(ast.Subscript(ast.Name("__d", ast.Load()), ast.Constant(x), ast.Load()), [ast.IsNot()],
                            [H("UNBOUND")]),
                [ast.Assign([ast.Name(x, ast.Store())], ast.Subscript(ast.Name("__d", ast.Load()), ast.Constant(x),
                                                                      ast.Load()))],
                [ast.Try([ast.Delete([ast.Name(x, ast.Del())])],
                         [ast.ExceptHandler(ast.Name("NameError", ast.Load()), None, [ast.Pass()])], [], [])]))
        # missing keys mean unbound
        pre_set = [ast.For(ast.Name("__k", ast.Store()), ast.Tuple([ast.Constant(x) for x in names], ast.Load()),
                           [ast.Expr(call(ast.Attribute(ast.Name("__d", ast.Load()), "setdefault", ast.Load()),
                                          ast.Name("__k", ast.Load()), H("UNBOUND")))], [])]
        sdef = ast.FunctionDef("__set%d" % k, ast.arguments([], [ast.arg("__d")], None, [], [], None, []),
                               ([ast.Nonlocal(list(names))] if names else []) +
                               [ast.Assign([ast.Name("__d", ast.Store())],
                                           call(ast.Attribute(ast.Name("__d", ast.Load()), "copy", ast.Load())))] +
                               pre_set + (sbody or [ast.Pass()]), [], None)
        tail = [call(H("for_"), self.expr.visit(s.iter), ast.Name(bn, ast.Load()))] if isinstance(s, ast.For) else \
            [call(H("while_"), ast.Lambda(ast.arguments([], [], None, [], [], None, []), self.expr.visit(s.test)),
                  ast.Name(bn, ast.Load()))]
        c = tail[0]
        c.args += [ast.Name("__get%d" % k, ast.Load()), ast.Name("__set%d" % k, ast.Load()),
                   ast.Tuple([ast.Constant(x) for x in names], ast.Load()), ast.Constant(key)]
        vdef = []
        if isinstance(s, (ast.While, ast.For)):    # the values the loop reads but does not assign
            vdef = [ast.FunctionDef("__see%d" % k, ast.arguments([], [], None, [], [], None, []),
                                    [ast.Assign([ast.Name("__d", ast.Store())], ast.Dict([], []))] +
                                    [ast.Try([ast.Assign([ast.Subscript(ast.Name("__d", ast.Load()), ast.Constant(x),
                                                                        ast.Store())], ast.Name(x, ast.Load()))],
                                             [ast.ExceptHandler(ast.Name("NameError", ast.Load()), None, [ast.Pass()])],
                                             [], []) for x in seen] +
                                    [ast.Return(ast.Name("__d", ast.Load()))], [], None)]
            c.args.append(ast.Name("__see%d" % k, ast.Load()))
        rn = "__r%d" % k
        run = ast.Assign([ast.Name(rn, ast.Store())], c)
        ret = ast.If(ast.Compare(ast.Name(rn, ast.Load()), [ast.IsNot()], [ast.Constant(None)]),
                     [ast.Return(ast.Name(rn, ast.Load()) if inloop else
                                 ast.Attribute(ast.Name(rn, ast.Load()), "value", ast.Load()))], [])
        out = [body, gdef, sdef] + vdef + [run, ret]
        if s.orelse:
            raise Unsupported("loop else")
        for o in out:
            ast.copy_location(o, s)
        return out


# ------------------------------------------------------------------ package loading
class VF:
    """one loaded copy of the package bound to the shims"""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.errors = {}
        from . import shims
        self.shims = shims.modules()
        self.builtins = core.make_builtins()
        self.builtins["__import__"] = self._import
        self.builtins["open"] = shims.sym_open
        self.builtins["super"] = super

    def path(self, name):
        rel = name.replace(".", "/")
        p = os.path.join(self.repo, rel + ".py")
        if os.path.exists(p):
            return p, False
        p = os.path.join(self.repo, rel, "__init__.py")
        if os.path.exists(p):
            return p, True
        return None, False

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        p, ispkg = self.path(name)
        if p is None:
            raise ModuleNotFoundError(name)
        m = types.ModuleType(name)
        m.__file__ = p
        if ispkg:
            m.__path__ = [os.path.dirname(p)]
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__vf__"] = Helpers
        self.mods[name] = m
        src = open(p, encoding="utf-8").read()
        code = Loader(src, p).module()
        exec(code, m.__dict__)
        for v in list(m.__dict__.values()):
            if isinstance(v, type) and v.__module__ == name and not issubclass(v, BaseException):
                hook_class(v)
        if "." in name:
            par, _, leaf = name.rpartition(".")
            if par in self.mods:
                setattr(self.mods[par], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            parts = pkg.split(".")
            if level > 1:
                parts = parts[:-(level - 1)]
            base = ".".join(parts)
            full = base + ("." + name if name else "")
            m = self.load(full)
            for f in fromlist or ():
                if not hasattr(m, f):
                    if self.path(full + "." + f)[0]:
                        setattr(m, f, self.load(full + "." + f))
            return m
        if name == PKG or name.startswith(PKG + "."):
            m = self.load(name)
            return m if fromlist else self.load(PKG)
        root = name.split(".")[0]
        if root in self.shims:
            if fromlist:
                m = self.shims[root]
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
                return m
            return self.shims[root]
        return _b.__import__(name, globals, locals, fromlist, level)


def hook_class(cls):
    """journal attribute writes of instances (for undo inside loop summaries)"""
    if "__setattr__" in cls.__dict__ or any(getattr(b, "_vf_hooked", False) for b in cls.__mro__[1:]):
        return

    def setter(self, k, v):
        if CTXJ():
            d = self.__dict__
            slot = d.get("__slotjournal__")
            if slot is None:
                slot = {}
                d["__slotjournal__"] = slot
            s = slot.get(k)
            if s is None:
                s = slot[k] = AttrSlot(self, k)
            core.touch(s)
        object.__setattr__(self, k, v)
    cls.__setattr__ = setter
    cls._vf_hooked = True


def CTXJ():
    return core.CTX.journals


class AttrSlot:
    """journalled attribute of an object of a loaded class"""

    def __init__(self, obj, k):
        self.obj, self.k = obj, k
        self._born = 0

    def _snap(self):
        return self.obj.__dict__.get(self.k, UNBOUND)

    def _restore(self, s):
        if s is UNBOUND:
            self.obj.__dict__.pop(self.k, None)
        else:
            self.obj.__dict__[self.k] = s

    def _havoc_state(self, key):
        v = self._snap()
        return core.havoc_like(v, self.k)

    def _enter_havoc(self, st):
        self._restore(st)

    def _summarise(self, init, h, effs, i, N, g, marks):
        vals = [(c, (a if a is not None else h)) for c, a in effs]
        v = core.merged(vals)
        try:
            v = core.summarise(self.k, h, v, init, i, N, g, marks)
        except core.Unsupported as e:
            v = core.Poison("%s after loop: %s" % (self.k, e))
        self._restore(v)
