"""Contract model of cvxpy (assumed contracts of the dependency): expressions denote their mathematical
functions of the variables; Problem.solve either returns an optimum of exactly the problem built, or reports
that it could not."""
import itertools
import types
from . import term as tm
from . import prove as pv
from . import core
from . import npx
from .core import *
from .core import CTX, SNum, SBool, SLab, Seq, SList, SMap, Sym, Unsupported, as_dim, dim_val, same_dim, touch
from .npx import SArr, asarr

_ids = itertools.count(1)


def reset():
    global _ids
    _ids = itertools.count(1)


class SolverError(Exception):
    pass


class DCPError(Exception):
    pass


class ParameterError(Exception):
    pass


def cast(x):
    if isinstance(x, CExpr):
        return x
    if isinstance(x, CCon):
        raise TypeError("constraint used as expression")
    return CConst(x)


def map_apps(t, mp, cache=None):
    """replace applications of the named functions: mp[name](*args) -> term"""
    c = {} if cache is None else cache

    def go(x):
        if not isinstance(x, T):
            return x
        r = c.get(x)
        if r is not None:
            return r
        if x.op in ("num", "true", "false"):
            return x
        if x.op == "var":
            r = mp[x.args[0]]() if x.args[0] in mp else x
        elif x.op == "app":
            args = [go(a) for a in x.args[1:]]
            r = mp[x.args[0]](*args) if x.args[0] in mp else app(x.args[0], *args, sort=x.sort)
        else:
            args = tuple(go(a) for a in x.args)
            r = x if all(p is q for p, q in zip(args, x.args)) else tm.rebuild(x.op, args, x.sort)
        c[x] = r
        return r
    return go(t)


class CExpr(Sym):
    _vf_priority = 3
    _vf_cvx = True

    def __init__(self, arr, args=(), const=False):
        self.arr = arr
        self.args = list(args)
        self.id = next(_ids)
        self._const = const
        self._bil = any(getattr(a, "_bil", False) for a in self.args)
        self._born = next(CTX.clock)

    # ---- meta
    def is_constant(self):
        return self._const

    @property
    def shape(self):
        return self.arr.shape

    @property
    def ndim(self):
        return self.arr.rank

    @property
    def size(self):
        return self.arr.size

    def vf_len(self):
        return self.arr.vf_len()

    def __len__(self):
        return len(self.arr)

    def is_scalar(self):
        return self.arr.rank == 0

    def variables(self):
        out = []
        _walk(self, out)
        return [x for x in out if isinstance(x, CVar)]

    def parameters(self):
        out = []
        _walk(self, out)
        return [x for x in out if isinstance(x, CParam)]

    def constants(self):
        out = []
        _walk(self, out)
        return [x for x in out if isinstance(x, CConst)]

    @property
    def value(self):
        mp = {}
        for v in self.variables():
            if v._val is None:
                return None
            _bind(mp, v.fname, v._val)
        for p in self.parameters():
            if p._val is None:
                return None
            _bind(mp, p.fname, p._val)
        f, n = self.arr.frozen()
        if not mp:
            r = SArr(self.arr._shape, f, "f", n)
        else:
            r = SArr(self.arr._shape, lambda *i: map_apps(f(*i), mp), "f", n)
        if r.rank == 0:
            return r.scalar(r.elem())
        return r

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise Exception("Cannot evaluate the truth value of a cvxpy expression")

    def __format__(self, s):
        return "<expr>"

    def __copy__(self):
        return CExpr(self.arr, self.args, self._const)

    def __deepcopy__(self, memo):
        raise Unsupported("deepcopy of cvxpy expression")

    def _py_is(self, c):
        nm = getattr(c, "_vf_name", None)
        if isinstance(c, type):
            if issubclass(c, CExpr):
                return isinstance(self, c)
            return c is object
        if nm == "Iterable" or getattr(c, "__name__", "") == "Iterable":
            return True        # cvxpy expressions define __iter__? they do not: see below
        return False

    # ---- algebra
    def _b2(self, o, f, rev=False):
        o = _lift(o)
        if o is NotImplemented:
            return o
        a, b = (o, self) if rev else (self, o)
        return mkexpr(f(a.arr, b.arr), (a, b))

    def __add__(self, o): return self._b2(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b2(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._b2(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b2(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        o = _lift(o)
        if self.arr.rank == 0 or o.arr.rank == 0:
            return _bilinear(mkexpr(self.arr * o.arr, (self, o)), self, o)
        # non-scalar "*" is matrix multiplication in cvxpy
        if self.arr.rank == 1 and o.arr.rank == 1:
            return self @ o
        return self @ o

    def __rmul__(self, o):
        return _lift(o) * self

    def __truediv__(self, o): return self._b2(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._b2(o, lambda a, b: a / b, True)
    def __matmul__(self, o): return _bilinear(self._b2(o, npx.np_matmul), self, o)
    def __rmatmul__(self, o): return _bilinear(self._b2(o, npx.np_matmul, True), self, o)
    def __neg__(self): return mkexpr(-self.arr, (self,))
    def __pos__(self): return self

    def __pow__(self, p):
        return power(self, p)

    def __le__(self, o): return CCon("le", self, _lift(o))
    def __ge__(self, o): return CCon("le", _lift(o), self)
    def __eq__(self, o): return CCon("eq", self, _lift(o))

    def __lt__(self, o):
        raise NotImplementedError("Strict inequalities are not allowed.")

    __gt__ = __lt__

    def __getitem__(self, k):
        if isinstance(k, SList) or isinstance(k, (list, Seq)):
            k = asarr(k)
        r = self.arr[k]
        if isinstance(r, npx.Masked):
            return CMasked(self, r)
        return mkexpr(r, (self,))

    @property
    def T(self):
        return mkexpr(self.arr.T, (self,)) if self.arr.rank == 2 else self

    H = T

    def sum(self, *a, **k): return csum(self, *a, **k)
    def flatten(self, **k): return mkexpr(self.arr.ravel(), (self,))

    def copy(self):
        return self.__copy__()

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        if k in REAL_EXPR:
            raise Unsupported("cvxpy expression .%s" % k)
        raise AttributeError(k)


class CMasked(Sym):
    """w[boolean mask] of symbolic length: only reductions are supported"""
    _vf_priority = 3

    def __init__(self, e, m):
        self.e, self.m = e, m


def _lift(o):
    if isinstance(o, CExpr):
        return o
    if isinstance(o, CMasked):
        raise Unsupported("arithmetic on a masked expression")
    if isinstance(o, (str, SMap)) or o is None:
        raise TypeError("invalid operand for cvxpy expression")
    return CConst(o)


def _bilinear(r, a, b):
    """product of two non-constant expressions: not DCP"""
    if isinstance(r, CExpr) and not a.is_constant() and isinstance(b, CExpr) and not b.is_constant():
        r._bil = True
    return r


def mkexpr(r, args):
    r = asarr(r)
    return CExpr(r, args, all(a.is_constant() for a in args))


def _walk(e, out):
    if not e.args:
        if not any(x is e for x in out):
            out.append(e)
    for a in e.args:
        _walk(a, out)


class CConst(CExpr):
    def __init__(self, v):
        a = asarr(v)
        f, n = a.frozen()
        if a.dt == "b":
            g = f
            f = lambda *i: iv(g(*i))
        CExpr.__init__(self, SArr(a._shape, f, "f", n), (), True)

    def __copy__(self):
        return self


class CLeaf(CExpr):
    _pfx = "leaf"

    def __init__(self, shape=(), name=None, value=None, nonneg=False, nonpos=False, pos=False, neg=False,
                 integer=False, boolean=False, symmetric=False, PSD=False, **k):
        if symmetric or PSD or k and any(v for v in k.values()):
            raise Unsupported("cvxpy leaf attributes %s" % sorted(k))
        shape = npx.shape_arg(shape) if not isinstance(shape, tuple) else tuple(shape)
        shape = tuple(as_dim(s) for s in shape)
        i = next(_ids)
        self._nm = name if name is not None else "%s%d" % (self._pfx, i)
        self.fname = "%s:%d" % (self._pfx, i)
        fnm = self.fname
        CExpr.__init__(self, SArr(shape, (lambda *ix: app(fnm, *ix)) if shape else (lambda: var(fnm)), "f"), ())
        self.attributes = {"nonneg": nonneg or pos, "nonpos": nonpos or neg, "integer": integer, "boolean": boolean}
        self._val = None
        self.initial = value
        if value is not None:
            self.value = value

    def name(self):
        return self._nm

    def is_nonneg(self):
        return bool(self.attributes["nonneg"])

    def _snap(self):
        return self._val

    def _restore(self, s):
        self._val = s

    def __copy__(self):
        return self

    def __eq__(self, o):
        return CExpr.__eq__(self, o)

    def __hash__(self):
        return id(self)

    @property
    def value(self):
        if self._val is None:
            return None
        if self.arr.rank == 0:
            v = asarr(self._val)
            return v.scalar(v.elem())
        return self._val

    @value.setter
    def value(self, v):
        touch(self)
        if v is None:
            self._val = None
            return
        a = asarr(v)
        if a.rank != self.arr.rank:
            raise ValueError("Invalid dimensions for %s value." % type(self).__name__)
        for p, q in zip(a._shape, self.arr._shape):
            if not same_dim(p, q):
                raise ValueError("Invalid dimensions")
        if self.attributes["nonneg"]:
            ok = ge(a.elem(), ZERO) if a.rank == 0 else forall(a._shape[0], lambda i: ge(a.elem(i), ZERO))
            if not CTX.decide(ok):
                raise ValueError("%s value must be nonnegative." % type(self).__name__)
        if self.attributes["nonpos"]:
            raise Unsupported("nonpos value")
        f, n = a.frozen()
        self._val = SArr(a._shape, f, "f", n)


class CVar(CLeaf):
    _pfx = "var"


class CParam(CLeaf):
    _pfx = "par"

    def __init__(self, *a, **k):
        CLeaf.__init__(self, *a, **k)
        self._const = True


def _bind(mp, fname, arr):
    f = asarr(arr).frozen()[0]
    mp[fname] = f


class CCon(Sym):
    _vf_priority = 3

    def __init__(self, kind, a, b, id_=None):
        self.kind = kind
        self.args = [a, b]
        self.id = id_ if id_ is not None else next(_ids)
        self.batch = None
        npx.bshape(a.arr._shape, b.arr._shape)
        self._born = next(CTX.clock)

    @property
    def expr(self):
        return self.args[0] - self.args[1]

    @property
    def _expr(self):
        return self.expr

    @property
    def shape(self):
        return self.expr.shape

    def __copy__(self):
        r = CCon(self.kind, self.args[0], self.args[1], self.id)
        return r

    def copy(self, args=None):
        return self.__copy__()

    def __bool__(self):
        raise Exception("Cannot evaluate the truth value of a CVXPY constraint")

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def variables(self):
        return _uniq(self.args[0].variables() + self.args[1].variables())

    def parameters(self):
        return _uniq(self.args[0].parameters() + self.args[1].parameters())

    def _py_is(self, c):
        if isinstance(c, ConType):
            return c.kind in (self.kind, "any")
        if isinstance(c, type):
            return c is CCon or c is object
        return False

    def holds(self):
        e = self.expr.arr
        a, b = self.args[0].arr, self.args[1].arr
        fa, fb = a.frozen()[0], b.frozen()[0]
        ma, mb = npx.bcast_index(a._shape, e._shape), npx.bcast_index(b._shape, e._shape)
        op = le if self.kind == "le" else eq

        def g(*i):
            return op(fa(*ma(i)), fb(*mb(i)))

        def go(k, idx):
            if k == e.rank:
                return g(*idx)
            return forall(e._shape[k], lambda i: go(k + 1, idx + (i,)))
        return go(0, ())

    def value(self, *a):
        raise Unsupported("constraint.value()")

    def _batch(self, i, N):
        """family of constraints indexed by i<N as one constraint object"""
        def lead(e):
            f, n = e.arr.frozen()
            sh = e.arr._shape
            return CExpr(SArr((N,) + sh, lambda j, *r: subst(f(*r), {i: tt(j)}), "f"), (e,), e.is_constant())
        r = CCon(self.kind, lead(self.args[0]), lead(self.args[1]))
        r.batch = N
        return r

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        raise Unsupported("constraint.%s" % k)


class ConType:
    def __init__(self, kind):
        self.kind = kind

    def _vf_isinst(self, x):
        return isinstance(x, CCon) and self.kind in ("any", x.kind)


def _uniq(xs):
    out = []
    for x in xs:
        if not any(y is x for y in out):
            out.append(x)
    return out


class CObjective:
    def __init__(self, e, sense):
        self.expr = cast(e)
        if self.expr.arr.rank != 0:
            if all(isinstance(d, int) and d == 1 for d in self.expr.arr._shape):
                self.expr = mkexpr(self.expr.arr.reshape(-1)[0], (self.expr,))
            else:
                raise ValueError("The objective must resolve to a scalar.")
        self.args = [self.expr]
        self.sense = sense
        self.id = next(_ids)

    @property
    def value(self):
        return self.expr.value


def Minimize(e): return CObjective(e, 1)
def Maximize(e): return CObjective(e, -1)


class Solve:
    """record of one successful or failed call of Problem.solve"""


class CProblem:
    def __init__(self, objective, constraints=None):
        self.objective = objective
        cs = [] if constraints is None else list(constraints)
        for c in cs:
            if not isinstance(c, CCon):
                if isinstance(c, bool):
                    continue
                raise ValueError("Problem has a non-constraint in its constraint list")
        self.constraints = cs
        self.status = None
        self._value = None
        self._born = next(CTX.clock)

    def _snap(self):
        return (self.status, self._value)

    def _restore(self, s):
        self.status, self._value = s

    @property
    def value(self):
        return self._value

    def variables(self):
        vs = list(self.objective.expr.variables())
        for c in self.constraints:
            vs += c.variables()
        return _uniq(vs)

    def parameters(self):
        ps = list(self.objective.expr.parameters())
        for c in self.constraints:
            ps += c.parameters()
        return _uniq(ps)

    def solve(self, *args, **opts):
        touch(self)
        mp = {}
        for p in self.parameters():
            if p._val is None:
                raise ParameterError("A Parameter (whose name is '%s') does not have a value" % p.name())
            _bind(mp, p.fname, p._val)
        if any(getattr(e, "_bil", False) for e in [self.objective.expr] + [a for c in self.constraints for a in c.args]):
            raise DCPError("Problem does not follow DCP rules")
        k = len(CTX.solves)
        s = Solve()
        s.k, s.args, s.opts, s.problem = k, args, opts, self
        s.sense = self.objective.sense
        o = self.objective.expr.arr.elem()
        s.objective = map_apps(o, mp) if mp else o
        s.constraints = [map_apps(c.holds(), mp) if mp else c.holds() for c in self.constraints]
        s.vars = self.variables()
        attr = []
        for v in s.vars:
            if v.attributes["nonneg"]:
                attr.append(_all(v, lambda t: ge(t, ZERO)))
            if v.attributes["nonpos"]:
                attr.append(_all(v, lambda t: le(t, ZERO)))
            if v.attributes["boolean"]:
                attr.append(_all(v, lambda t: or_(eq(t, ZERO), eq(t, ONE))))
        s.attr = attr
        s.integer = [v for v in s.vars if v.attributes["integer"] or v.attributes["boolean"]]
        s.status = None
        CTX.solves.append(s)
        modes = CTX.consts.get("solve_modes", ("optimal", "infeasible"))
        if CTX.decide(var("solve%d!ok" % k, B)):
            s.status = "optimal"
            if "optimal_inaccurate" in modes and not CTX.decide(var("solve%d!accurate" % k, B)):
                s.status = "optimal_inaccurate"
        else:
            rest = [m for m in modes if not m.startswith("optimal")]
            m = rest[-1] if rest else None
            if m is None:
                raise Infeasible()
            for q, cand in enumerate(rest[:-1]):
                if CTX.decide(var("solve%d!mode%d" % (k, q), B)):
                    m = cand
                    break
            s.status = m
            if m == "dcperror":
                raise DCPError("Problem does not follow DCP rules")
            if m == "solvererror":
                raise SolverError("Solver failed")
        self.status = s.status
        s.values = {}
        if s.status in ("optimal", "optimal_inaccurate"):
            for v in s.vars:
                touch(v)
                fn = "sol%d:%s" % (k, v.fname)
                srt = R
                sh = v.arr._shape
                integer = v.attributes["integer"]
                v._val = SArr(sh, _solfn(fn, sh), "f")
                s.values[v] = v._val
            bind = {}
            for v in s.vars:
                _bind(bind, v.fname, v._val)
            self._value = SNum(map_apps(s.objective, bind), "npfloat")
            s.facts = [map_apps(c, bind) for c in s.constraints + s.attr]
            CTX.note("cvxpy.solve", "cvxpy.Problem.solve with an optimal status returns a point satisfying the "
                                    "constraints and minimising the objective of the problem it was given")
            if CTX.consts.get("assume_feasible"):
                for c in s.facts:
                    CTX.assume(c)
        else:
            for v in s.vars:
                touch(v)
                v._val = None
            self._value = SNum(INF)
        return self._value

    def is_dcp(self, *a, **k):
        return True

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        raise Unsupported("Problem.%s" % k)


def _solfn(fn, sh):
    if sh:
        return lambda *i: app(fn, *i)
    return lambda: var(fn)


def _all(v, p):
    f = v.arr.frozen()[0]

    def go(k, idx):
        if k == v.arr.rank:
            return p(f(*idx))
        return forall(v.arr._shape[k], lambda i: go(k + 1, idx + (i,)))
    return go(0, ())


# ------------------------------------------------------------------ atoms
def csum(e, axis=None, keepdims=False):
    if isinstance(e, CMasked):
        return mkexpr(e.m.sum(), (e.e,))
    e = cast(e)
    return mkexpr(npx.np_sum(e.arr, axis), (e,))


def quad_form(x, P, assume_PSD=False):
    x, P = cast(x), cast(P)
    if P.arr.rank != 2 or not same_dim(P.arr._shape[0], P.arr._shape[1]):
        raise Exception("Invalid dimensions for arguments.")
    if x.arr.rank == 2 and isinstance(x.arr._shape[1], int) and x.arr._shape[1] == 1:
        xa = x.arr[:, 0]
    else:
        xa = x.arr
    if xa.rank != 1 or not same_dim(xa._shape[0], P.arr._shape[0]):
        raise Exception("Invalid dimensions for arguments.")
    if not x.is_constant():
        if not P.is_constant():
            raise Exception("At least one argument to quad_form must be non-variable.")
        f = P.arr.frozen()[0]
        n = P.arr._shape[0]
        if not CTX.decide(forall(n, lambda i: forall(n, lambda j: eq(f(i, j), f(j, i))))):
            raise ValueError("Quadratic form matrices must be symmetric/Hermitian.")
    return mkexpr(npx.np_matmul(xa, npx.np_matmul(P.arr, xa)), (x, P))


def norm(x, p=2, axis=None):
    x = cast(x)
    if axis is not None:
        raise Unsupported("norm(axis)")
    if isinstance(p, str):
        if p not in ("inf", "Inf"):
            raise Unsupported("norm %r" % p)
        return mkexpr(npx.np_extreme(npx.np_abs(x.arr), None, True), (x,))
    c = canon(term(p))
    if c is ONE:
        return mkexpr(npx.np_sum(npx.np_abs(x.arr)), (x,))
    if c.op == "num" and c.args[0] == 2:
        return mkexpr(npx.np_sqrt(npx.np_sum(x.arr * x.arr)), (x,))
    if c is INF:
        return mkexpr(npx.np_extreme(npx.np_abs(x.arr), None, True), (x,))
    raise Unsupported("norm %r" % (p,))


def power(x, p, **k):
    x = cast(x)
    return mkexpr(x.arr ** (p if not isinstance(p, CExpr) else p.arr), (x,) + ((p,) if isinstance(p, CExpr) else ()))


def _u(f):
    def g(x):
        x = cast(x)
        return mkexpr(f(x.arr), (x,))
    return g


def multiply(a, b):
    a, b = cast(a), cast(b)
    return mkexpr(a.arr * b.arr, (a, b))


def cmaximum(*xs):
    r = cast(xs[0])
    for y in xs[1:]:
        y = cast(y)
        r = mkexpr(npx.ew2(r.arr, y.arr, tm.tmax), (r, y))
    return r


def cminimum(*xs):
    r = cast(xs[0])
    for y in xs[1:]:
        y = cast(y)
        r = mkexpr(npx.ew2(r.arr, y.arr, tm.tmin), (r, y))
    return r


class _NS:
    def __init__(self, **k):
        self.__dict__.update(k)


def _scalarize(f):
    return f


import cvxpy as _cvx_real        # only to classify unknown attributes
REAL_EXPR = set(dir(_cvx_real.Variable))


class ExprType:
    _vf_name = "Expression"

    def _vf_isinst(self, x):
        return isinstance(x, CExpr)


class CPM:
    Variable = CVar
    Parameter = CParam
    Constant = CConst
    Expression = ExprType()
    Problem = CProblem
    Minimize = staticmethod(Minimize)
    Maximize = staticmethod(Maximize)
    DCPError = DCPError
    SolverError = SolverError
    ParameterError = ParameterError
    error = _NS(DCPError=DCPError, SolverError=SolverError, ParameterError=ParameterError)
    constraints = _NS(nonpos=_NS(Inequality=ConType("le"), NonPos=ConType("nonpos")),
                      zero=_NS(Equality=ConType("eq"), Zero=ConType("zero")),
                      constraint=_NS(Constraint=ConType("any")), Inequality=ConType("le"), Equality=ConType("eq"),
                      Constraint=ConType("any"))
    expressions = _NS(constants=_NS(constant=_NS(Constant=CConst), parameter=_NS(Parameter=CParam), Constant=CConst),
                      variable=_NS(Variable=CVar), expression=_NS(Expression=ExprType()),
                      leaf=_NS(Leaf=CLeaf))
    sum = staticmethod(csum)
    quad_form = staticmethod(quad_form)
    norm = staticmethod(norm)
    norm1 = staticmethod(lambda x: norm(x, 1))
    norm2 = staticmethod(lambda x: norm(x, 2))
    multiply = staticmethod(multiply)
    power = staticmethod(power)
    square = staticmethod(_u(lambda a: npx.np_square(a)))
    sqrt = staticmethod(_u(lambda a: npx.np_sqrt(a)))
    abs = staticmethod(_u(lambda a: npx.np_abs(a)))
    log = staticmethod(_u(lambda a: npx.np_log(a)))
    exp = staticmethod(_u(lambda a: npx.np_exp(a)))
    pos = staticmethod(_u(lambda a: npx.ew1(a, lambda t: tm.tmax(t, ZERO))))
    neg = staticmethod(_u(lambda a: npx.ew1(a, lambda t: tm.tmax(tm.neg(t), ZERO))))
    max = staticmethod(_u(lambda a: npx.np_extreme(a, None, True)))
    min = staticmethod(_u(lambda a: npx.np_extreme(a, None, False)))
    maximum = staticmethod(cmaximum)
    minimum = staticmethod(cminimum)
    inv_pos = staticmethod(_u(lambda a: 1 / a))
    entr = staticmethod(_u(lambda a: -(a * npx.np_log(a))))
    psd_wrap = staticmethod(_u(lambda a: a))
    mean = staticmethod(_u(lambda a: npx.np_mean(a)))
    ECOS, OSQP, SCS, CLARABEL = "ECOS", "OSQP", "SCS", "CLARABEL"

    @staticmethod
    def sum_squares(x):
        x = cast(x)
        return mkexpr(npx.np_sum(npx.np_square(x.arr)), (x,))

    @staticmethod
    def quad_over_lin(x, y):
        x, y = cast(x), cast(y)
        return mkexpr(npx.np_sum(npx.np_square(x.arr)) / y.arr, (x, y))

    @staticmethod
    def matmul(a, b):
        return cast(a) @ b

    @staticmethod
    def hstack(xs):
        es = [cast(x) for x in as_seq(xs)]
        return mkexpr(npx.np_hstack([e.arr.reshape(1) if e.arr.rank == 0 else e.arr for e in es]), tuple(es))

    @staticmethod
    def vstack(xs):
        es = [cast(x) for x in as_seq(xs)]
        return mkexpr(npx.np_vstack([e.arr.reshape(1) if e.arr.rank == 0 else e.arr for e in es]), tuple(es))

    @staticmethod
    def installed_solvers():
        return ["CLARABEL", "ECOS", "ECOS_BB", "OSQP", "SCIPY", "SCS"]

    def __getattr__(self, k):
        if hasattr(_cvx_real, k):
            raise Unsupported("cvxpy.%s" % k)
        raise AttributeError("module 'cvxpy' has no attribute '%s'" % k)


CPMOD = CPM()
