"""Contract language.  One contract text (a unit) is interpreted in three ways:

  sym    symbolic inputs of unbounded size: every `ensure` becomes a proof obligation generated from /repo's
         current source and discharged by the normal-form prover / z3
  small  the same with small concrete sizes: a failed obligation yields a z3 model, i.e. concrete inputs
  conc   concrete inputs: the real package in CPython with the real libraries; `ensure` is evaluated (replay of a
         counterexample, and the bounded conformance run of the assumed library contracts)
"""
import math
import signal
import threading
import random
import sys
import time
import traceback
import importlib
import itertools
from fractions import Fraction
from . import term as tm
from . import prove as pv
from . import core

UNITS = {}
REPO = "/repo"


class Unit:
    def __init__(self, prop, name, fn, funcs, opts):
        self.prop, self.name, self.fn, self.funcs, self.opts = prop, name, fn, funcs, opts

    @property
    def key(self):
        return self.prop + "." + self.name


def unit(prop, name=None, funcs=(), **opts):
    props = prop if isinstance(prop, (list, tuple)) else [prop]

    def deco(fn):
        u = Unit(props[0], name or fn.__name__, fn, list(funcs), opts)
        u.props = list(props)
        assert u.key not in UNITS, u.key
        UNITS[u.key] = u
        return fn
    return deco


def units_of(prop):
    return [u for u in UNITS.values() if prop in u.props]


class Skip(Exception):
    pass


class Res:
    """outcome of calling code under contract"""

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    def raised(self, *names):
        return self.exc is not None and any(c.__name__ in names for c in type(self.exc).__mro__)


class Obligation:
    def __init__(self, unit, name, pc, goal, ok, how, reason="", failed=None, t=0.0):
        self.unit, self.name, self.pc, self.goal, self.ok = unit, name, pc, goal, ok
        self.how, self.reason, self.failed, self.t = how, reason, failed, t


# ================================================================== symbolic
class SymV:
    small = property(lambda self: self.dims is not None)
    sym = True
    conc = False

    def __init__(self, unit, vf, dims=None, budget=30.0, deadline=None):
        from . import npx, pdx, cpx
        self.unit, self.vf, self.dims = unit, vf, dims
        self.npx, self.pdx, self.cpx = npx, pdx, cpx
        self.np, self.pd, self.cp = npx.NPMOD, pdx.PDMOD, cpx.CPMOD
        self.obligations = {}
        self._patches = []
        self.budget = budget
        self.deadline = deadline
        self.inputs = {}
        self.reach = set()
        self.covers = {}
        self.patience = 100.0 if dims is None else 0.0
        self.own_all = self.muted = False
        self._native = []

    # ---- data of the caller
    def _name(self, owner, name):
        return owner or (name if self.own_all else None)

    def _keep(self, x, name, depth=0):
        """watch data handed to the code for modification"""
        if not self.own_all or depth > 3:
            return x
        if isinstance(x, self.npx.SArr):
            x.store.owner = x.store.owner or name
        elif isinstance(x, self.pdx.PD):
            if not getattr(x, "owner", None):
                x.owner = name
            self._keep(getattr(x, "arr", None), name, depth + 1)
        elif isinstance(x, (core.SMap, core.SList)):
            x.owner = x.owner or name
            if isinstance(x, core.SList) and x.sym is None:
                for y in list.__iter__(x):
                    self._keep(y, name, depth + 1)
        elif type(x) in (list, dict, set):
            self._native.append((name, x, x.copy()))
        if type(x) in (list, tuple):
            for y in x:
                self._keep(y, name, depth + 1)
        elif type(x) is dict:
            for y in x.values():
                self._keep(y, name, depth + 1)
        return x

    # ---- code access
    def mod(self, name):
        self.vf.load("pypfopt")
        return self.vf.load("pypfopt." + name if name else "pypfopt")

    def patch(self, mod, attr, fn):
        """replace a function of a module by its contract for the rest of this run"""
        m = self.mod(mod) if isinstance(mod, str) else mod
        self._patches.append((m, attr, getattr(m, attr)))
        setattr(m, attr, fn)

    def library(self, mod, attr, *a):
        """a library function, by its contract (symbolic) or itself (concrete)"""
        root, *rest = mod.split(".")
        m = self.vf.shims[root] if self.sym else importlib.import_module(mod)
        if self.sym:
            for p in rest:
                m = getattr(m, p)
        return getattr(m, attr)(*a)

    def fact_of_library(self, name, cond):
        """an assumed contract of a library function (checked on the real one in the concrete runs)"""
        if self.sym:
            core.CTX.note("contract:" + name, "assumed contract of " + name)
            self.assume(cond)
        else:
            self.ensure("library contract: " + name, cond)

    def patch_lib(self, mod, attr, fn):
        """the same for a library function the code takes from its module at call time"""
        root, *rest = mod.split(".")
        m = self.vf.shims[root] if self.sym else importlib.import_module(mod)
        if self.sym:
            for p in rest:
                m = getattr(m, p)
        self._patches.append((m, attr, getattr(m, attr)))
        setattr(m, attr, fn)

    def unpatch(self):
        while self._patches:
            m, a, f = self._patches.pop()
            setattr(m, a, f)

    def posdef(self, A):
        """the condition under which np.linalg.cholesky(A) does not raise"""
        return self.npx.Linalg.posdef(self.npx.asarr(A))

    def eigh(self, A):
        return self.npx.Linalg.eigh(A)

    def begin(self):
        """reset per-path state"""
        self.unpatch()
        core.CTX.solves.clear()
        core.CTX.warnings.clear()
        core.CTX.files.clear()
        core.CTX.events.clear()
        core.CTX.consts.clear()
        core.CTX.invariants.clear()
        pv.MATCH[0] = False
        tm.reset_fresh()
        self.cpx.reset()
        self.inputs = {}

    # ---- inputs
    def dim(self, name, lo=1, hi=None):
        if self.dims is not None:
            d = self.dims.get(name, self.dims.get("*", 2))
            d = max(d, lo)
            if hi is not None:
                d = min(d, hi)
            self.inputs[name] = ("dim", d, None)
            return d
        v = tm.var("dim:" + name, tm.I)
        self.assume(tm.ge(v, tm.num(lo)))
        if hi is not None:
            self.assume(tm.le(v, core.term(hi)))
        if lo >= 1:
            tm.MINDIM[v] = max(lo, tm.MINDIM.get(v, 0)) if isinstance(tm.MINDIM, dict) else lo
        self.inputs[name] = ("dim", v, None)
        return core.SNum(v, "int")

    def _dt(self, n):
        return core.as_dim(n)

    def vec(self, name, n, lo=None, hi=None, gen=None, py="f", owner=None, nan=None):
        return self._arr(name, (n,), lo, hi, py, owner, nan)

    def mat(self, name, n, m, lo=None, hi=None, gen=None, py="f", owner=None, nan=None):
        return self._arr(name, (n, m), lo, hi, py, owner, nan)

    def _arr(self, name, shape, lo, hi, py, owner, nan=None):
        sh = tuple(self._dt(d) for d in shape)
        srt = tm.I if py == "i" else tm.R
        fn = "in:" + name
        nanf = None
        if nan:
            nn = "innan:" + name
            nanf = lambda *i: tm.app(nn, *i, sort=tm.B)
        a = self.npx.SArr(sh, lambda *i: tm.app(fn, *i, sort=srt), py, nan=nanf, owner=self._name(owner, name))

        def bound(*idx):
            cs = []
            e = tm.app(fn, *idx, sort=srt)
            if lo is not None:
                cs.append(tm.ge(e, core.term(lo)))
            if hi is not None:
                cs.append(tm.le(e, core.term(hi)))
            return tm.and_(*cs)
        if lo is not None or hi is not None:
            self.assume(_forall_shape(sh, bound))
        self.inputs[name] = ("arr", a, sh)
        return a

    def centred(self, name, T, n, gen=None, owner=None):
        """an arbitrary matrix X written as x + m, the columns of x summing to zero (every X has exactly one such form):
        X, x(t, i), m(i)"""
        T, n = self._dt(T), self._dt(n)
        fx, fm = "cen:" + name, "mean:" + name
        tm.CENTRED[fx] = tm.canon(tm.tt(T))
        x, m = (lambda t, i: tm.app(fx, t, i)), (lambda i: tm.app(fm, i))
        A = self.npx.SArr((T, n), lambda t, i: tm.add(x(t, i), m(i)), "f", owner=self._name(owner, name))
        if isinstance(T, int):
            for i in range(n) if isinstance(n, int) else ():
                core.CTX.assume(tm.eq(tm.add(*[x(tm.num(t), tm.num(i)) for t in range(T)]), tm.ZERO))
        self.inputs[name] = ("arr", A, (T, n))
        return A, (lambda t, i: core.SNum(x(core.term(t), core.term(i)), "npfloat")), (lambda i: core.SNum(m(core.term(i)), "npfloat"))

    def symmat(self, name, n, gen=None, owner=None, psd=True):
        fn = "in:" + name
        tm.SYMMETRIC.add(fn)
        d = self._dt(n)
        a = self.npx.SArr((d, d), lambda i, j: tm.app(fn, i, j), "f", owner=self._name(owner, name))
        self.inputs[name] = ("arr", a, (d, d))
        return a

    def real(self, name, lo=None, hi=None, gen=None, strict=None, py="float"):
        t = tm.var("in:" + name, tm.R)
        if lo is not None:
            self.assume(tm.ge(t, core.term(lo)))
        if hi is not None:
            self.assume(tm.le(t, core.term(hi)))
        self.inputs[name] = ("real", t, None)
        return core.SNum(t, py)

    def int(self, name, lo=None, hi=None, gen=None):
        if self.dims is not None and lo is not None and hi is not None and hi - lo <= 0:
            return lo
        t = tm.var("in:" + name, tm.I)
        if lo is not None:
            self.assume(tm.ge(t, core.term(lo)))
        if hi is not None:
            self.assume(tm.le(t, core.term(hi)))
        self.inputs[name] = ("int", t, None)
        return core.SNum(t, "int")

    def bool(self, name):
        """a python bool, both values explored"""
        t = tm.var("inb:" + name, tm.B)
        self.inputs[name] = ("bool", t, None)
        return core.CTX.decide(t)

    def choice(self, name, options):
        for k in range(len(options) - 1):
            t = tm.var("inc:%s:%d" % (name, k), tm.B)
            self.inputs.setdefault(name, ("choice", [], None))[1].append(t)
            if core.CTX.decide(t):
                return options[k]
        self.inputs.setdefault(name, ("choice", [], None))
        return options[-1]

    def labels(self, name, n):
        d = self._dt(n)
        if isinstance(d, int):
            xs = [core.SLab(tm.app("lab:" + name, tm.num(k), sort=tm.L)) for k in range(d)]
            ax = core.label_axis(name, d)
            s = core.Seq(d, lambda i: core.pick(xs, i))
            s.axis = ax
            self.inputs[name] = ("labels", d, None)
            return self._keep(core.SList(xs), "labels")
        ax = core.label_axis(name, d)
        self.inputs[name] = ("labels", d, None)
        return self._keep(core.SList(sym=ax.seq()), "labels")

    def sublabels(self, name, base, m, n, perm=False):
        """n distinct labels in any order, drawn from the m labels `base` and (unless perm) labels outside them;
        perm: n == m and exactly the labels of base"""
        d, m = self._dt(n), self._dt(m)
        f, g = ("psub:" + name, "psubinv:" + name) if perm else ("sub:" + name, "subinv:" + name)
        core.PERM_INVERSE[g] = f
        if perm:
            core.PERM_INVERSE[f] = g
            tm.PERMS[f], tm.PERMS[g] = (tm.canon(tm.tt(d)), g, False), (tm.canon(tm.tt(d)), f, False)
        F = lambda i: tm.app(f, i, sort=tm.I)
        G = lambda i: tm.app(g, i, sort=tm.I)
        core.CTX.assume(tm.forall(d, lambda i: tm.and_(tm.ge(F(i), tm.ZERO), tm.eq(G(F(i)), i),
                                                       tm.lt(F(i), tm.tt(m)) if perm else tm.TRUE)))
        core.CTX.assume(tm.forall(m, lambda j: tm.and_(tm.ge(G(j), tm.ZERO if perm else tm.num(-1)), tm.lt(G(j), tm.tt(d)),
                                                       tm.implies(tm.ge(G(j), tm.ZERO), tm.eq(F(G(j)), j)))))
        # the position of a base label is -1 or below n by the assumption above
        ax = core.label_axis(self._basename(base), d, F, G, (lambda p: tm.TRUE) if perm else (lambda p: tm.ge(p, tm.ZERO)))
        self.inputs[name] = ("labels", d, None)
        if isinstance(d, int):
            return core.SList([ax.label(tm.num(k)) for k in range(d)])
        return core.SList(sym=ax.seq())

    def _basename(self, base):
        t = core.as_seq(base).at(tm.ZERO).t
        return tm.canon(t).args[0][4:]

    def axis(self, name, n):
        return core.label_axis(name, self._dt(n))

    def series(self, arr, labels):
        return self._keep(self.pdx.SSeries(arr, self.pdx.to_axis(labels)), "series")

    def frame(self, arr, index, columns):
        f = self.pdx.SFrame(arr, self.pdx.to_axis(index, arr._shape[0]), self.pdx.to_axis(columns, arr._shape[1]))
        f.owner = arr.store.owner
        return self._keep(f, "frame")

    def datelabels(self, n):
        return self.labels("date", n)

    def mapping(self, labels, arr, py="npfloat"):
        """dict label -> arr[i]"""
        ax = self.pdx.to_axis(labels)
        f = arr.frozen()[0]
        return self._keep(core.SMap(ax, lambda i: core.SNum(f(i), py if arr.dt == "f" else "int")), "mapping")

    def submap(self, labels, arr, cond):
        """dict of the labels whose index satisfies cond"""
        m = self.mapping(labels, arr)
        m.guard = lambda i: self.c(cond(core.SNum(core.tt(i), "int")))
        return m

    def weights_of(self, o):
        """mapping given by a list of (label, value) pairs"""
        return core.map_from_pairs(core.as_seq(o.weights))

    def odict(self, labels, arr):
        import collections
        m = self.mapping(labels, arr)
        m.cls = collections.OrderedDict
        return m

    def labelmap(self, labels, code, names):
        """dict label_i -> names[code_i]; labels with a code outside the list are absent"""
        ax = self.pdx.to_axis(labels)
        f = code.frozen()[0]

        def at(i):
            t = core.term("?unmapped?")
            for k in range(len(names) - 1, -1, -1):
                t = tm.ite(tm.eq(f(i), tm.num(k)), core.term(names[k]), t)
            return core.SLab(t)
        return self._keep(core.SMap(ax, at, lambda i: tm.and_(tm.ge(f(i), tm.ZERO), tm.lt(f(i), tm.num(len(names))))), "mapping")

    def tuples(self, *arrs):
        """python list of tuples (a0[i], a1[i], ...); a NaN entry stands for None"""
        xs = [self.npx.asarr(a) for a in arrs]
        n = xs[0]._shape[0]
        fz = [x.frozen() + (x,) for x in xs]

        def at(i):
            i = core.term(i) if not isinstance(i, int) else tm.num(i)
            return tuple(x.scalar(f(i), nn(i) if nn else tm.FALSE) for f, nn, x in fz)
        if isinstance(n, int):
            return core.SList([at(k) for k in range(n)])
        return core.SList(sym=core.Seq(n, at))

    def arr(self, n, f, dt="f"):
        return self.npx.SArr((self._dt(n),), lambda i: core.term(f(core.SNum(i, "int"))), dt)

    def arr2(self, n, m, f):
        return self.npx.SArr((self._dt(n), self._dt(m)),
                             lambda i, j: core.term(f(core.SNum(i, "int"), core.SNum(j, "int"))), "f")

    def copy(self, a):
        """ghost copy of an array's present content"""
        return a.copy()

    # ---- assumptions and obligations
    def assume(self, c):
        core.CTX.assume(self.c(c))

    def require(self, c):
        self.assume(c)

    def q(self, s):
        """exact rational constant"""
        return core.SNum(tm.num(Fraction(s), tm.R), "float")

    def suppose(self, c):
        """assumption about a sample point (concrete runs: skip points where it does not hold)"""
        self.assume(c)
        return True

    def warned(self, *cats):
        return any(getattr(c, "__name__", "") in cats for c, _ in core.CTX.warnings)

    def c(self, x):
        if isinstance(x, bool):
            return tm.TRUE if x else tm.FALSE
        return core.tt(core.unwrap(x)) if not isinstance(x, tm.T) else x

    def cover(self, name):
        """reachability: the path condition here must be satisfiable"""
        self.covers[name] = self.covers.get(name, 0) + 1

    def ensure(self, name, cond, tol=None):
        if self.muted:
            return
        goal = self.c(cond)
        pc = list(core.CTX.pc)
        key = (name, frozenset(pc), goal)
        if key in self.obligations:
            return
        if self.deadline and time.time() > self.deadline:
            self.obligations[key] = Obligation(self.unit, name, pc, goal, False, "", "unit time limit")
            return
        t0 = time.time()
        b = self.budget
        if self.deadline:
            b = max(1.0, min(b, self.deadline - time.time()))
        st0 = dict(pv.STATS)
        p, ok = pv.prove(pc, goal, b)
        if not ok and p.failed and not p.failed[2].startswith("z3: sat") and self.patience > 0:
            # undecided, perhaps only for want of time: once more, with other settings of the solver
            t1 = time.time()
            with pv.patient():
                p2, ok = pv.prove(pc, goal, min(60.0, self.patience))
            p = p2
            self.patience -= time.time() - t1
        how = "z3" if pv.STATS["z3"] > st0["z3"] else "normal-form"
        reason = ""
        failed = None
        if not ok:
            failed = p.failed
            reason = p.failed[2] if p.failed else "?"
        self.obligations[key] = Obligation(self.unit, name, pc, goal, ok, how, reason, failed, time.time() - t0)

    def sum_le(self, name, n, f, g):
        """finite sums are monotone: termwise f <= g (an obligation) gives sum f <= sum g (a fact)"""
        self.ensure(name, self.forall(n, lambda i: self.le(f(i), g(i))))
        core.CTX.assume(self.c(self.le(self.sum(n, f), self.sum(n, g))))

    def sums_pos(self, name, m, n, f):
        """a finite sum of non-negative terms with a positive term is positive: for each i < m, sum_t<n f(i, t) > 0"""
        self.ensure(name, self.forall(m, lambda i: self.and_(
            self.forall(n, lambda t: self.ge(f(i, t), 0)), self.exists(n, lambda t: self.gt(f(i, t), 0)))))
        core.CTX.assume(self.forall(m, lambda i: self.gt(self.sum(n, lambda t: f(i, t)), 0)))

    def ghost(self, name, n, init, step):
        """ghost sequence of length n: g(0) = init, g(t+1) = step(t, g(t))"""
        fn = "gh:" + name
        g = lambda t: core.SNum(tm.app(fn, core.term(t)))
        core.CTX.assume(tm.eq(g(tm.ZERO).t, core.term(init)))
        N = core.term(n)
        core.CTX.assume(tm.forall(tm.sub(N, tm.ONE), lambda t: tm.eq(
            g(tm.add(t, tm.ONE)).t, core.term(step(core.SNum(t, "int"), g(t))))))
        return self.npx.SArr((self._dt(n),), lambda i: g(i).t, "f")

    def induct(self, name, n, P):
        """P(0) and P(t) -> P(t+1) below n (obligations) give P on all of 0..n-1 (a fact)"""
        self.ensure(name + " (base)", P(core.SNum(tm.ZERO, "int")))
        N = core.term(n)
        self.ensure(name + " (step)", tm.forall(tm.sub(N, tm.ONE), lambda t: tm.implies(
            self.c(P(core.SNum(t, "int"))), self.c(P(core.SNum(tm.add(t, tm.ONE), "int"))))))
        core.CTX.assume(self.forall(n, P))

    def fact(self, name, cond):
        """a lemma: an obligation here, a hypothesis afterwards"""
        self.ensure(name, cond)
        core.CTX.assume(self.c(cond))

    def aslist(self, a):
        f = a.frozen()[0]
        n = a._shape[0]
        if isinstance(n, int):
            return core.SList([core.SNum(f(tm.num(k))) for k in range(n)])
        return core.SList(sym=core.Seq(n, lambda i: core.SNum(f(core.term(i)))))

    def columns(self, W):
        """list of the rows of a matrix as column vectors"""
        f = W.frozen()[0]
        m, n = W._shape
        one = lambda k: self.npx.SArr((n, 1), lambda i, j: f(core.tt(k), i), "f")
        if isinstance(m, int):
            return core.SList([one(k) for k in range(m)])
        return core.SList(sym=core.Seq(m, one))

    def which(self, name, n, best, same):
        """some index k < n satisfies both"""
        self.ensure(name, self.exists(n, lambda k: self.and_(best(k), same(k))))

    def split(self, cond):
        """case distinction on a specification condition (ghost branch)"""
        return core.CTX.decide(self.c(cond))

    def known(self, cond):
        return pv.entails(core.CTX.pc, self.c(cond))

    def call(self, f, *a, **k):
        for x in a + tuple(k.values()) if self.own_all else ():
            self._keep(x, "argument")
        try:
            return Res(True, f(*a, **k))
        except tm.Budget:
            raise core.Unsupported("normal form budget")
        except Exception as e:
            return Res(False, exc=e)

    # ---- specification expressions
    def el(self, a, *idx):
        if isinstance(a, (list, tuple)) and not isinstance(a, core.SList) or isinstance(a, (core.SList, core.Seq)):
            return core.as_seq(a).at(core.term(idx[0]))
        return _sc(self.npx.asarr(a).elem(*[core.term(i) for i in idx]))

    def isnan(self, a, *idx):
        if isinstance(a, self.npx.NaN):
            return tm.TRUE
        if isinstance(a, self.npx.MaybeNaN):
            return a.nan
        return self.npx.asarr(a).nanat(*[core.term(i) for i in idx])

    def at(self, d, lab):
        """value stored under a label, for dicts, Series"""
        if isinstance(d, core.SMap):
            return d.at(d.has(lab)[1])
        if isinstance(d, self.pdx.SSeries):
            p, q = d._axis.locate(lab)
            return _sc(d.arr.elem(q))
        if isinstance(d, dict):
            t = lab.t if isinstance(lab, core.SNum) else None
            return d[int(t.args[0]) if t is not None and t.op == "num" else lab]
        raise core.Unsupported("lookup in %s" % type(d))

    def has(self, d, lab):
        if isinstance(d, core.SMap):
            return d.has(lab)[0]
        if isinstance(d, self.pdx.SSeries):
            return d._axis.locate(lab)[0]
        if isinstance(d, dict):
            return tm.or_(*[core.term(k == lab) for k in d]) if d else tm.FALSE
        raise core.Unsupported("lookup in %s" % type(d))

    def at2(self, d, r, c):
        return _sc(d.arr.elem(d._index.locate(r)[1], d._columns.locate(c)[1]))

    def tail(self, labels, n, k):
        """labels[k:]"""
        q = core.as_seq(labels)
        m = core.as_dim(core.SNum(tm.canon(tm.sub(core.term(n), tm.num(k))), "int"))
        return core.Seq(m, lambda i: q.at(tm.canon(tm.add(core.tt(i), tm.num(k)))))

    def index(self, f):
        return f._index.seq() if self.is_frame(f) else f._axis.seq()

    def has_row(self, f, r):
        return f._index.locate(r)[0]

    def cell(self, f, r, c):
        """(value, is NaN) of the entry under the labels r, c"""
        i, j = f._index.locate(r)[1], f._columns.locate(c)[1]
        return _sc(f.arr.elem(i, j)), f.arr.nanat(i, j)

    def lab(self, labels, i):
        return core.as_seq(labels).at(core.term(i))

    def keys(self, d):
        if isinstance(d, core.SMap):
            if d.guard is not None:
                raise core.Unsupported("keys of a filtered dict")
            return d.keys()
        if isinstance(d, self.pdx.SSeries):
            return d._axis.seq()
        if isinstance(d, self.pdx.SIndex):
            return d.axis.seq()
        if isinstance(d, dict):
            return core.SList(list(d))
        return d

    def labels_eq(self, a, b):
        a, b = core.as_seq(self.keys(a)), core.as_seq(self.keys(b))
        if not core.same_dim(a.length, b.length):
            return tm.eq(core.tt(a.length), core.tt(b.length)) if False else tm.FALSE
        n = a.length
        return self.forall(n, lambda i: _beq(a.at(core.term(i)), b.at(core.term(i))))

    def lab_eq(self, a, b):
        return _beq(a, b)

    def forall(self, n, f):
        return tm.forall(self._dt(n), lambda i: self.c(f(core.SNum(i, "int"))))

    def exists(self, n, f):
        return tm.exists(self._dt(n), lambda i: self.c(f(core.SNum(i, "int"))))

    def sum(self, n, f):
        return core.SNum(tm.mksum(self._dt(n), lambda i: core.term(f(core.SNum(i, "int")))))

    def split_sum(self, n, at, f):
        """rule of the logic: the sum over 0..n-1 is that over 0..at-1 plus that over at..n-1 (0 <= at <= n is an obligation)"""
        self.ensure("a sum is split inside its range", self.and_(self.ge(at, 0), self.le(at, n)))
        core.CTX.assume(self.c(self.eq(self.sum(n, f), self.sum(at, f) + self.sum(n - at, lambda k: f(at + k)))))

    def prod(self, n, f):
        return core.SNum(tm.mkprod(self._dt(n), lambda i: core.term(f(core.SNum(i, "int")))))

    def eq(self, a, b, tol=None):
        a, b = core.term(a), core.term(b)
        if a.sort == tm.B or b.sort == tm.B:
            return tm.iff(a, b)
        return tm.eq(a, b)

    def le(self, a, b):
        return tm.le(core.term(a), core.term(b))

    def lt(self, a, b):
        return tm.lt(core.term(a), core.term(b))

    def ge(self, a, b):
        return tm.ge(core.term(a), core.term(b))

    def gt(self, a, b):
        return tm.gt(core.term(a), core.term(b))

    def and_(self, *cs):
        return tm.and_(*[self.c(x() if callable(x) else x) for x in cs])

    def or_(self, *cs):
        return tm.or_(*[self.c(x() if callable(x) else x) for x in cs])

    def not_(self, c):
        return tm.not_(self.c(c))

    def implies(self, a, b):
        return tm.implies(self.c(a), self.c(b() if callable(b) else b))

    def iff(self, a, b):
        return tm.iff(self.c(a), self.c(b))

    def ite(self, c, a, b):
        k = tm.bnf(self.c(c))
        if k is tm.TRUE or k is tm.FALSE:
            r = a if k is tm.TRUE else b
            return r() if callable(r) else r
        a = a() if callable(a) else a
        b = b() if callable(b) else b
        return _sc(tm.ite(self.c(c), core.term(a), core.term(b)))

    def ind(self, c):
        return core.SNum(tm.iv(self.c(c)))

    def max(self, a, b):
        return core.SNum(tm.tmax(core.term(a), core.term(b)))

    def min(self, a, b):
        return core.SNum(tm.tmin(core.term(a), core.term(b)))

    def abs(self, a):
        return core.SNum(tm.tabs(core.term(a)))

    def sqrt(self, a):
        return core.SNum(tm.sqrt(core.term(a)))

    def pow(self, a, b):
        return core.SNum(tm.rpow(core.term(a), core.term(b)))

    def exp(self, a):
        return self.np.exp(core.SNum(core.term(a)))

    def log(self, a):
        return self.np.log(core.SNum(core.term(a)))

    def whole(self, a):
        """an integer number"""
        t = core.term(a)
        return core.SBool(tm.eq(core.floor_term(t), t))

    def floor(self, a):
        return core.SNum(core.floor_term(core.term(a)), "int")

    def isnone(self, x):
        return x is None

    def dimof(self, x, axis=0):
        return core.SNum(core.tt(self.npx.asarr(x)._shape[axis]), "int")

    def rank(self, x):
        return self.npx.asarr(x).rank

    def isfinite_scalar(self, x):
        return core.is_scalar(x) and not isinstance(x, (self.npx.NaN, self.npx.MaybeNaN))

    # ---- composite obligations
    def scalar(self, name, got, exp, tol=None):
        if isinstance(got, self.npx.SArr) and got.rank == 0:
            got = got.scalar(got.elem(), got.nanat())
        if isinstance(got, self.npx.NaN) or got is None or not core.is_scalar(got):
            return self.ensure(name + ": a number", False)
        if isinstance(got, self.npx.MaybeNaN):
            self.ensure(name + ": not NaN", tm.not_(got.nan))
        self.ensure(name, tm.eq(core.term(got), core.term(exp)))

    def vector(self, name, got, n, f, tol=None, cond=None):
        a = self._arrof(got, 1)
        if a is None:
            return self.ensure(name + ": a vector", False)
        self.ensure(name + ": length", tm.eq(core.tt(a._shape[0]), core.term(n)))
        if not core.same_dim(a._shape[0], self._dt(n)):
            return
        if a.hasnan:
            self.ensure(name + ": no NaN", self.forall(n, lambda i: tm.implies(
                self.c(cond(i)) if cond else tm.TRUE, tm.not_(a.nanat(i.t)))))
        self.ensure(name, self.forall(n, lambda i: tm.implies(self.c(cond(i)) if cond else tm.TRUE,
                                                              tm.eq(a.elem(i.t), core.term(f(i))))))

    def matrix(self, name, got, n, m, f, tol=None):
        a = self._arrof(got, 2)
        if a is None:
            return self.ensure(name + ": a matrix", False)
        self.ensure(name + ": shape", tm.and_(tm.eq(core.tt(a._shape[0]), core.term(n)),
                                              tm.eq(core.tt(a._shape[1]), core.term(m))))
        if not (core.same_dim(a._shape[0], self._dt(n)) and core.same_dim(a._shape[1], self._dt(m))):
            return
        if a.hasnan:
            self.ensure(name + ": no NaN", self.forall(n, lambda i: self.forall(m, lambda j: tm.not_(a.nanat(i.t, j.t)))))
        self.ensure(name, self.forall(n, lambda i: self.forall(m, lambda j: tm.eq(a.elem(i.t, j.t), core.term(f(i, j))))))

    def _arrof(self, got, rank):
        try:
            a = self.npx.asarr(got)
        except (core.Unsupported,):
            raise
        except Exception:
            return None
        return a if a.rank == rank else None

    def is_frame(self, x):
        return isinstance(x, self.pdx.SFrame)

    def is_series(self, x):
        return isinstance(x, self.pdx.SSeries)

    def is_number(self, x):
        return core.is_scalar(x) and not isinstance(x, (bool, core.SBool, core.SLab, str, self.npx.NaN, self.npx.MaybeNaN))

    def is_odict(self, x):
        import collections
        return isinstance(x, core.SMap) and x.cls is collections.OrderedDict or isinstance(x, collections.OrderedDict)

    def is_dict(self, x):
        return isinstance(x, dict)

    def is_ndarray(self, x):
        return isinstance(x, self.npx.SArr)

    def is_str(self, x):
        return isinstance(x, (str, core.SLab))

    def frame_labels(self, name, f, index, columns):
        if not self.is_frame(f):
            return self.ensure(name + ": is a DataFrame", False)
        self.ensure(name + ": index", self.labels_eq(f._index.seq(), index))
        self.ensure(name + ": columns", self.labels_eq(f._columns.seq(), columns))

    def range_labels(self, n):
        return core.range_axis(self._dt(n)).seq()

    def wdict(self, name, d, labels, f, tol=None):
        """d is an ordered dict over exactly `labels` (in order) with value f(i)"""
        if not isinstance(d, dict):
            return self.ensure(name + ": is a dict", False)
        ks = self.keys(d)
        n = core.as_seq(labels).length
        self.ensure(name + ": keys in order", self.labels_eq(ks, labels))
        self.ensure(name + ": values", self.forall(n, lambda i: tm.eq(core.term(self.at(d, self.lab(labels, i))),
                                                                      core.term(f(i)))))

    # ---- solver records
    def solves(self):
        return [SymProblem(self, s) for s in core.CTX.solves]

    def samples(self, k=1):
        return range(1)

    def point(self, name, n=None, base=None, total=None, lo=None, hi=None, nonneg=False):
        if n is None:
            t = tm.var("in:" + name, tm.R)
            self.inputs[name] = ("real", t, None)
            return core.SNum(t)
        return self._arr(name, (n,), None, None, "f", None)

    def scipy_call(self, rec):
        s = rec.s
        return {"fun": s.fun, "x0": s.x0, "args": s.args, "method": s.method, "bounds": s.bounds,
                "constraints": s.constraints, "x": s.x}

    def one(self):
        return core.SNum(tm.num(1, tm.R))

    def length(self, xs):
        return core.SNum(core.tt(core.as_seq(xs).length), "int")

    def item(self, xs, i):
        q = core.as_seq(xs)
        if isinstance(i, int) and i < 0:
            i = core.SNum(tm.canon(tm.add(tm.tt(q.length), core.term(i))), "int")
        return q.at(core.term(i))

    def nonsingular(self, A):
        """A has an inverse"""
        self.npx.singular_fork(A, never=True)

    def warnings(self):
        return list(core.CTX.warnings)

    def mutated(self):
        native = [("mutate", o) for o, a, c in self._native
                  if len(a) != len(c) or any(x is not y for x, y in zip(a, c))
                  or (isinstance(a, dict) and any(a[k] is not c[k] for k in a))]
        return [e for e in core.CTX.events if e[0] in ("write", "mutate", "relabel")] + native

    def files(self):
        return list(core.CTX.files)

    def scratch(self, name):
        return name

    def round(self, x, k):
        return self.np.round(core.SNum(core.term(x)), k)

    def saved(self, name, rec, path, ext, labels, f):
        """the file record holds {label_i: f(i)} in the format `ext`"""
        kind, p, obj, kw = rec
        want = {"csv": "csv", "json": "json", "txt": "text"}[ext]
        if kind != want or str(p) != path or (kind == "csv" and set(kw) != {"header"}) or (kind != "csv" and kw):
            return self.ensure(name + ": format", False)
        if kind == "csv":
            if kw["header"] is not False or not self.is_series(obj):
                return self.ensure(name + ": format", False)
            self.ensure(name + ": keys in order", self.labels_eq(obj, labels))
            return self.vector(name + ": values", obj, core.as_seq(labels).length, f)
        if kind == "text" and (not isinstance(obj, core.SMap) or obj.cls is not dict):
            return self.ensure(name + ": the text of a plain dict", False)
        self.wdict(name, obj, labels, f)
        self.floats(name, obj, labels)

    def floats(self, name, obj, labels):
        """the values are plain Python floats (their text is a number)"""
        x = self.at(obj, self.lab(labels, core.SNum(tm.ZERO, "int")))
        self.ensure(name + ": plain floats", isinstance(x, float) or isinstance(x, core.SNum) and x.py == "float")

    def fun(self, name, *xs):
        """value of an arbitrary function at xs"""
        return core.SNum(tm.app("ghost:" + name, *[core.term(x) for x in xs]))

    def pred(self, name, *xs):
        """truth of an arbitrary predicate at xs"""
        return core.SBool(tm.app("ghost:" + name, *[core.term(x) for x in xs], sort=tm.B))

    def axes(self):
        """a recorder of drawing calls"""
        from . import shims
        return shims.Drawn("given axes", None)

    def drawn(self, ax, what, label=None):
        """arguments of the calls ax.what(.., label=label)"""
        return [e[2] for e in core.CTX.events if e[0] == "draw" and e[1] == "given axes." + what
                and (label is None or e[3].get("label") == label)]

    def filtered(self, name, got, n, cond, f):
        """got lists f(i) for the i < n with cond(i), in order"""
        q = core.as_seq(got)
        if isinstance(core.as_dim(n), int) and core.as_dim(n) <= 24 and q.guard is None and isinstance(q.length, int):
            exp = [f(i) for i in range(core.as_dim(n)) if self.split(cond(i))]
            self.ensure(name + ": listed exactly when it should be", len(exp) == q.length)
            if len(exp) == q.length:
                self.ensure(name, self.and_(*[self.eq(q.at(tm.num(k)), x) for k, x in enumerate(exp)]))
            return
        if not core.same_dim(q.length, core.as_dim(n)):
            self.ensure(name, False)
            return
        g = q.guard or (lambda i: tm.TRUE)
        self.ensure(name + ": listed exactly when it should be",
                    self.forall(n, lambda i: self.iff(core.SBool(g(core.term(i))), cond(i))))
        self.ensure(name, self.forall(n, lambda i: self.implies(cond(i), lambda: self.eq(q.at(core.term(i)), f(i)))))

    def draws(self):
        return [e for e in core.CTX.events if e[0] == "draw"]

    def solve_modes(self, *m):
        core.CTX.consts["solve_modes"] = m

    def feasible_solutions(self):
        core.CTX.consts["assume_feasible"] = True

    def loop(self, fn, no, state, inv, objs=None, small=False):
        """contract of the no-th loop of a function (symbolic runs; small: also those at fixed sizes)"""
        if self.dims is not None and not small:
            return
        pv.MATCH[0] = True
        core.CTX.invariants["%s#%d" % (fn, no)] = core.LoopContract(self, state, inv, objs)

    def unknown(self, name, *idx, sort="real"):
        """arbitrary function, fresh for each name"""
        srt = {"real": tm.R, "int": tm.I, "bool": tm.B}[sort]
        t = tm.app("any:" + name, *[core.term(i) for i in idx], sort=srt)
        return core.SBool(t) if sort == "bool" else core.SNum(t, "int" if sort == "int" else "float")

    def fresh(self):
        return tm.fresh_name("any")

    def content(self, a, f):
        """give an array (or Series) arbitrary content (ghost, in loop contracts)"""
        st = getattr(a, "arr", a).store
        st.fn, st.nan, st.log = (lambda *i: core.term(f(*[core.SNum(x, "int") for x in i]))), None, ()
        st.ver += 1

    def listing(self, x, n, f):
        """give a list arbitrary content (ghost, in loop contracts)"""
        list.clear(x)
        x.sym = core.Seq(core.as_dim(n), lambda i: f(core.SNum(core.tt(i), "int")))

    def same_array(self, a, b):
        a, b = self.npx.asarr(a), self.npx.asarr(b)
        if a is b:
            return True
        if a.rank != b.rank or a.rank not in (1, 2):
            return False
        if a.rank == 2:
            return self.and_(self.eq(self.dimof(a, 0), self.dimof(b, 0)), self.eq(self.dimof(a, 1), self.dimof(b, 1)),
                             self.forall(a._shape[0], lambda i: self.forall(a._shape[1], lambda j: self.eq(
                                 a.elem(i.t, j.t), b.elem(i.t, j.t)))))
        return self.and_(self.eq(self.dimof(a), self.dimof(b)),
                         self.forall(a._shape[0], lambda i: self.eq(a.elem(i.t), b.elem(i.t))))

    def store(self, a):
        return getattr(a, "arr", a).store

    def half(self, x):
        """x // 2"""
        return core.SNum(core.intdiv_term(core.term(x), tm.num(2)), "int")

    def num(self, i):
        return core.SNum(core.term(i), "int")

    def slice(self, q, s, e):
        q, s, e = core.as_seq(q), core.term(s), core.term(e)
        return core.SList(sym=core.Seq(core.as_dim(core.SNum(tm.canon(tm.sub(e, s)), "int")),
                                       lambda i: q.at(tm.canon(tm.add(s, core.tt(i))))))

    def segment(self, items, order):
        """(items == order[s:e], s, e)"""
        q, o = core.as_seq(items), core.as_seq(order)
        n = core.tt(q.length)
        st = tm.canon(o.axis.locate(q.at(tm.ZERO))[1])
        same = tm.forall(q.length, lambda i: _beq(q.at(i), o.at(tm.canon(tm.add(st, i)))))
        return core.SBool(same), core.SNum(st, "int"), core.SNum(tm.canon(tm.add(st, n)), "int")

    def size(self, n):
        """a known integer"""
        t = tm.canon(core.term(n))
        if t.op != "num":
            raise core.Unsupported("not a known integer")
        return int(t.args[0])

    def subset(self, name, labels, n, k, outside=False):
        """(k of the n labels in any order, their positions); outside: the position of an element not chosen is k"""
        f, g = "sub:" + name, "subinv:" + name
        F = lambda i: tm.app(f, core.term(i), sort=tm.I)
        k = self._dt(k)
        core.CTX.assume(tm.forall(k, lambda i: tm.and_(tm.ge(F(i), tm.ZERO), tm.lt(F(i), core.tt(self._dt(n))))))
        core.CTX.assume(tm.forall(k, lambda i: tm.eq(tm.app(g, F(i), sort=tm.I), i)))
        o = core.as_seq(labels)
        if not isinstance(k, int):
            tm.SELS[f] = (tm.canon(core.tt(k)), core.tt(self._dt(n)), lambda q: member(q), g)

        def member(q):
            r = tm.app(g, q, sort=tm.I)
            if outside:
                return tm.lt(r, core.tt(k))
            return tm.and_(tm.ge(r, tm.ZERO), tm.lt(r, core.tt(k)), tm.eq(F(r), q))

        if outside:
            def position(q):
                r = tm.app(g, q, sort=tm.I)
                return tm.and_(tm.ge(r, tm.ZERO), tm.le(r, core.tt(k)), tm.or_(tm.ge(r, core.tt(k)), tm.eq(F(r), q)))
            core.CTX.assume(tm.forall(self._dt(n), position))
            # n distinct numbers below n are all of them
            core.CTX.assume(tm.forall(self._dt(n), lambda q: tm.or_(tm.lt(core.tt(k), core.tt(self._dt(n))), member(q))))

        if not isinstance(k, int):
            core.CTX.assume(tm.eq(core.tt(k), tm.mksum(self._dt(n), lambda j: tm.iv(member(j)))))

        def loc(x):
            p, q = o.axis.locate(x)
            return tm.and_(p, member(q)), tm.app(g, q, sort=tm.I)
        if isinstance(k, int):
            return core.SList([o.at(F(tm.num(i))) for i in range(k)]), lambda i: core.SNum(F(i), "int")
        ax = core.Axis(k, lambda i: o.at(F(i)), loc)
        return core.SList(sym=ax.seq()), lambda i: core.SNum(F(i), "int")

    def some_list(self, name, labels):
        """any list of these labels, of any length; nothing is known about it (membership is a free predicate)"""
        u = tm.fresh_name("some:" + name)
        o = core.as_seq(labels)
        k = tm.app(u + "#", tm.ZERO, sort=tm.I)
        core.CTX.assume(tm.ge(k, tm.ZERO))

        def loc(x):
            p, q = o.axis.locate(x)
            return tm.and_(p, tm.app(u + "?", q, sort=tm.B)), tm.app(u + "@", q, sort=tm.I)
        return core.SList(sym=core.Axis(k, lambda i: o.at(tm.app(u, i, sort=tm.I)), loc).seq())

    def member(self, items, x):
        """x is in the list"""
        loc = core.locate(core.as_seq(items), core.SNum(core.term(x), "int"))
        if loc is None:
            return self.exists(self.length(items), lambda a: self.eq(self.item(items, a), x))
        return core.SBool(loc[0])

    def named(self, name, n, P):
        """a name for the predicate or quantity P on 0..n-1; .unfold(i) gives its definition at i"""
        nm = "def:" + tm.fresh_name(name)
        num = core.term(P(core.SNum(tm.ZERO, "int"))).sort != tm.B
        at = lambda i: (core.SNum if num else core.SBool)(tm.app(nm, core.term(i), sort=tm.R if num else tm.B))
        means = lambda i: self.c((self.eq if num else self.iff)(at(i), P(core.SNum(core.term(i), "int"))))
        core.CTX.assume(tm.forall(self._dt(n), means))
        at.unfold = lambda i: core.CTX.assume(tm.implies(
            tm.and_(tm.ge(core.term(i), tm.ZERO), tm.lt(core.term(i), core.tt(self._dt(n)))), means(i)))
        return at

    def list(self, xs):
        return core.SList(xs)

    def unknown_mat(self, name, n, m):
        u = tm.fresh_name(name)
        return self.npx.SArr((self._dt(n), self._dt(m)), lambda i, j: tm.app("any:" + u, i, j), "f")

    def become(self, x, y):
        """give a list the content of another (ghost)"""
        list.clear(x)
        x.sym = core.as_seq(y)

    def enumeration(self, f, n):
        """(f as an enumeration of a subset of 0..n-1, position -> element); f holds distinct elements, as shown before"""
        k = self.length(f)
        q = core.as_seq(f)
        new, F = self.subset("enum" + tm.fresh_name(""), self.range_labels(n), n, k, outside=True)
        self.assume(self.forall(k, lambda a: self.and_(self.eq(F(a), core.SNum(core.term(q.at(core.term(a))), "int")),
                                                       self.eq(self.position(new, q.at(core.term(a))), a))))
        return new, F

    def position(self, items, x):
        """position of x in the list (where it is)"""
        return core.SNum(core.locate(core.as_seq(items), core.SNum(core.term(x), "int"))[1], "int")

    def reindex(self, f, n, x):
        """sum over the positions of a list of distinct elements = sum over its elements; x(element, position)"""
        core.CTX.note("reindex", "a finite sum over the positions of an injective list is the sum over its elements (rule of the logic)")
        k = self.length(f)
        return self.eq(self.sum(k, lambda a: x(self.item(f, a), a)),
                       self.sum(n, lambda j: self.ind(self.member(f, j)) * x(j, self.position(f, j))))

    def same_list(self, a, b):
        n = self.length(a)
        return self.and_(self.eq(n, self.length(b)), lambda: self.forall(n, lambda i: self.eq(self.item(a, i), self.item(b, i))))

    def order(self):
        """(position -> element, element -> position) of the last sort"""
        o = core.CTX.consts.get("order")
        if o is None:
            raise core.Unsupported("nothing was sorted")
        return tuple((lambda i, f=f: core.SNum(tm.app(f, core.term(i), sort=tm.I), "int")) for f in o[:2])

    def ordered(self, p):
        """what the last sort ensures for position p: keys before it are not larger, keys after it not smaller"""
        f, g, key, rev, n = core.CTX.consts["order"]
        p = core.term(p)
        at = key(tm.app(f, p, sort=tm.I))
        up, down = (tm.ge, tm.le) if not rev else (tm.le, tm.ge)
        core.CTX.assume(tm.implies(tm.and_(tm.ge(p, tm.ZERO), tm.lt(p, n)), tm.forall(n, lambda j: tm.and_(
            tm.implies(tm.ge(tm.app(g, j, sort=tm.I), p), up(key(j), at)),
            tm.implies(tm.le(tm.app(g, j, sort=tm.I), p), down(key(j), at))))))

    def arity(self, f):
        import inspect
        return len(inspect.signature(f).parameters)

    def opaque(self, name, *arrays):
        """number determined by the arrays and numbers"""
        ks = [("s", [core.term(a)]) if isinstance(a, (core.SNum, int, float)) else self.npx.mat_key(self.npx.asarr(a))
              for a in arrays]
        return core.SNum(tm.app("opq:%s:%s" % (name, "".join(k for k, _ in ks)), tm.ZERO, *[v for _, f in ks for v in f]), "float")

    def inverse(self, A):
        """the inverse of a nonsingular matrix"""
        self.npx.CTX.note("inv", "np.linalg.inv(A) is the inverse of A (A nonsingular)")
        a = self.npx.asarr(A)
        r, nm = self.npx.opaque_mat("inv", a, (a._shape[0], a._shape[0]))
        self.npx.sym_check(a, nm)
        return r

    def inverts(self, A, B, x):
        """A (B x) = x, what B = inv(A) means for the vector x"""
        a, b = self.npx.asarr(A), self.npx.asarr(B)
        n = a._shape[0]
        v = lambda i: core.term(x(core.SNum(i, "int")))
        core.CTX.assume(tm.forall(n, lambda i: tm.eq(tm.mksum(n, lambda k: tm.mul(a.elem(i, k), tm.mksum(
            n, lambda j: tm.mul(b.elem(k, j), v(j))))), v(i))))

    def unknown_vec(self, name, n):
        u = tm.fresh_name(name)
        return self.npx.SArr((self._dt(n),), lambda i: tm.app("any:" + u, i), "f")

    def lib(self, mod, attr):
        return self.library(mod, "__getattribute__", attr) if False else self._libmod(mod)[attr]

    def _libmod(self, mod):
        root, *rest = mod.split(".")
        m = self.vf.shims[root]
        for p in rest:
            m = getattr(m, p)
        return m.__dict__

    def condensed(self, y, n, i, j):
        """entry (i, j), i < j, of a condensed distance vector"""
        return _sc(y.mat.elem(core.term(i), core.term(j)))

    def leaves(self, tree):
        from . import shims
        return shims._leaf_order(tree)

    def close(self, a, b, tol):
        return self.eq(a, b)

    def rank_of(self, c):
        """position, among the elements the last filtering comprehension kept, of the element at c"""
        k = core.CTX.consts.get("kept")
        if k is None:
            raise core.Unsupported("no filtering comprehension")
        return core.SNum(tm.app(k, core.term(c), sort=tm.I), "int")

    def seq(self, n, f):
        return core.SList(sym=core.Seq(core.as_dim(n), lambda i: f(core.SNum(core.tt(i), "int"))))

    def seed(self):
        return random.Random(0)

    def symmetric(self, a):
        n = a._shape[0]
        return self.forall(n, lambda i: self.forall(n, lambda j: tm.eq(a.elem(i.t, j.t), a.elem(j.t, i.t))))

    def distinct_reals(self, *a):
        pass


def _forall_shape(sh, f):
    def go(k, idx):
        if k == len(sh):
            return f(*idx)
        return tm.forall(sh[k], lambda i: go(k + 1, idx + (i,)))
    return go(0, ())


def _beq(a, b):
    r = a == b
    if isinstance(r, bool):
        return tm.TRUE if r else tm.FALSE
    return core.term(r)


def _sc(t):
    if t.sort == tm.B:
        return core.SBool(t)
    if t.sort == tm.L:
        return core.SLab(t)
    return core.SNum(t, "npfloat" if t.sort == tm.R else "npint")


class SymProblem:
    def __init__(self, V, s):
        self.V, self.s = V, s
        self.kind = getattr(s, "kind", "cvxpy")

    @property
    def status(self):
        return self.s.status

    @property
    def vars(self):
        return self.s.vars

    def var_of_shape(self, *shape, exclude=()):
        sh = tuple(core.as_dim(x) for x in shape)
        out = []
        for v in self.s.vars:
            if any(v is e for e in exclude):
                continue
            vs = v.arr._shape
            if len(vs) == len(sh) and all(core.same_dim(p, q) for p, q in zip(vs, sh)):
                out.append(v)
        return out

    def _mp(self, assign):
        mp = {}
        for v, val in assign:
            self.V.cpx._bind(mp, v.fname, self.V.npx.asarr(val))
        return mp

    def obj(self, assign):
        t = self.V.cpx.map_apps(self.s.objective, self._mp(assign))
        return core.SNum(t if self.s.sense == 1 else tm.neg(t))

    def feasible(self, assign):
        mp = self._mp(assign)
        return tm.and_(*[self.V.cpx.map_apps(c, mp) for c in self.s.constraints + self.s.attr])

    def value(self, v):
        return self.s.values[v]

    def is_integer(self, v):
        return any(v is x for x in self.s.integer)

    @property
    def solver_args(self):
        return self.s.args, self.s.opts


def run_sym(u, vf, dims=None, budget=30.0, limit=200.0):
    """returns (V, errors) : obligations in V.obligations, engine problems in errors"""
    deadline = time.time() + limit
    core.CTX.reset()
    tm.reset_caches()
    V = SymV(u, vf, dims, budget, deadline)
    errors = []

    def go():
        V.begin()
        if time.time() > deadline:
            raise core.PathLimit("unit time limit")
        u.fn(V)
    core.CTX.invariants.clear()
    core._inv_cache.clear()
    core.CTX.maxpaths = u.opts.get("maxpaths", 400)
    outs = []
    try:
        outs = core.explore(go)
    except core.Unsupported as e:
        errors.append(("unsupported", str(e), traceback.format_exc(limit=-8)))
    except core.PathLimit as e:
        errors.append(("pathlimit", str(e), ""))
    except tm.Budget as e:
        errors.append(("budget", str(e), ""))
    except RecursionError as e:
        errors.append(("recursion", "recursion limit", ""))
    finally:
        V.unpatch()
    for o in outs:
        if o.kind == "exc":
            errors.append(("contract", "%s: %s" % (type(o.value).__name__, o.value),
                           "".join(traceback.format_exception(o.value, limit=-6))))
    V.paths = len(outs)
    if not outs and not errors:
        errors.append(("vacuous", "no path of the contract can be completed", ""))
    return V, errors


# ================================================================== concrete
class Tri:
    __slots__ = ("v", "d")

    def __init__(self, v, d=""):
        self.v, self.d = v, d

    def __repr__(self):
        return "Tri(%s)" % self.v


def tri(x):
    if isinstance(x, Tri):
        return x.v
    return bool(x)


class ConcV:
    sym = small = False
    conc = True

    def __init__(self, unit, rng, hints=None, mined=(), maxdim=5):
        import numpy, pandas, cvxpy
        self.np, self.pd, self.cp = numpy, pandas, cvxpy
        self.unit, self.rng, self.hints, self.mined, self.maxdim = unit, rng, hints or {}, list(mined), maxdim
        self.used = {}
        self.fails = []
        self.checked = 0
        self.undecided = 0
        self._solves = []
        self._warn = []
        self._samples = 0
        self._owned = []
        self.own_all = self.muted = False
        self._dir = None
        self._patches = []

    def mod(self, name):
        return importlib.import_module("pypfopt." + name if name else "pypfopt")

    def centred(self, name, T, n, gen=None, owner=None):
        A = self.mat(name, T, n, gen=gen, owner=owner)
        m = A.mean(axis=0)
        x = A - m
        return A, (lambda t, i: x[int(t), int(i)]), (lambda i: m[int(i)])

    patch, fact_of_library = SymV.patch, SymV.fact_of_library
    unpatch, patch_lib, library = SymV.unpatch, SymV.patch_lib, SymV.library

    def posdef(self, A):
        try:
            self.np.linalg.cholesky(self.np.asarray(A))
            return True
        except self.np.linalg.LinAlgError:
            return False

    def eigh(self, A):
        return self.np.linalg.eigh(self.np.asarray(A))

    # ---- inputs
    def _hint(self, name):
        return self.hints.get(name)

    def dim(self, name, lo=1, hi=None):
        h = self._hint(name)
        if h is None:
            top = min(hi, lo + self.maxdim) if hi is not None else lo + self.maxdim
            h = self.rng.randint(lo, top)
        h = int(h)
        if h < lo or (hi is not None and h > hi) or h > 400:
            raise Skip("dim")
        self.used[name] = h
        return h

    def _rv(self, lo, hi):
        r = self.rng
        if lo is not None and hi is not None:
            q = r.random()
            if q < 0.05:
                return float(lo)
            if q < 0.1:
                return float(hi)
            return r.uniform(lo, hi)
        if lo is not None:
            return float(lo) + r.choice([0.0, 1.0, r.expovariate(1), r.expovariate(0.2)]) \
                if r.random() < 0.3 else float(lo) + r.expovariate(1)
        if hi is not None:
            return float(hi) - r.expovariate(1)
        q = r.random()
        if q < 0.05:
            return 0.0
        if q < 0.1:
            return float(r.choice([1, -1, 2, 0.5, 10] + [m for m in self.mined if abs(m) < 1e6]))
        return r.gauss(0, 1)

    def _num(self, h, lo, hi):
        h = float(h)
        if math.isnan(h) or (lo is not None and h < lo - 1e-12) or (hi is not None and h > hi + 1e-12):
            raise Skip("hint out of range")
        return h

    def vec(self, name, n, lo=None, hi=None, gen=None, py="f", owner=None, nan=None):
        h = self._hint(name)
        if h is not None and len(h) == n:
            a = self.np.array([self._num(x, lo, hi) if not _isnan(x) else float("nan") for x in h],
                              dtype=float if py == "f" else int)
        elif gen is not None:
            a = self.np.array(gen(self.rng, n), dtype=float if py == "f" else int)
        elif py == "i":
            a = self.np.array([self.rng.randint(int(lo if lo is not None else -5), int(hi if hi is not None else 20))
                               for _ in range(n)], dtype=int)
        else:
            a = self.np.array([self._rv(lo, hi) for _ in range(n)], dtype=float)
        if nan and h is None:
            for k in range(n):
                if self.rng.random() < 0.15:
                    a[k] = float("nan")
        self.used[name] = a.tolist()
        if owner or self.own_all:
            self._owned.append((owner or name, a, a.copy()))
        return a

    def mat(self, name, n, m, lo=None, hi=None, gen=None, py="f", owner=None, nan=None):
        h = self._hint(name)
        if h is not None and len(h) == n and (n == 0 or len(h[0]) == m):
            a = self.np.array([[self._num(x, lo, hi) if not _isnan(x) else float("nan") for x in r] for r in h],
                              dtype=float).reshape(n, m)
        elif gen is not None:
            a = self.np.array(gen(self.rng, n, m), dtype=float).reshape(n, m)
        else:
            a = self.np.array([[self._rv(lo, hi) for _ in range(m)] for _ in range(n)], dtype=float).reshape(n, m)
        if nan and h is None:
            for i in range(n):
                for k in range(m):
                    if self.rng.random() < 0.12:
                        a[i, k] = float("nan")
        self.used[name] = a.tolist()
        if owner or self.own_all:
            self._owned.append((owner or name, a, a.copy()))
        return a

    def symmat(self, name, n, gen=None, owner=None, psd=True):
        h = self._hint(name)
        np = self.np
        a = None
        if h is not None and len(h) == n:
            a = np.array(h, dtype=float).reshape(n, n)
            a = (a + a.T) / 2
            if psd and np.linalg.eigvalsh(a)[0] < 1e-9 * max(1.0, abs(a).max()):
                a = None if self.hints.get("__strict__") else a + np.eye(n) * (abs(np.linalg.eigvalsh(a)[0]) + 0.1)
                if a is None:
                    raise Skip("not psd")
        if a is None:
            if gen is not None:
                a = np.array(gen(self.rng, n), dtype=float)
            else:
                m = np.array([[self.rng.gauss(0, 1) for _ in range(n + 2)] for _ in range(n)])
                a = m @ m.T / (n + 2) * 10 ** self.rng.uniform(-2, 0.5)
                a = (a + a.T) / 2
                if not psd and self.rng.random() < 0.5:
                    a = a - np.eye(n) * self.rng.uniform(0, 1.5) * np.abs(a).max()
        self.used[name] = a.tolist()
        if owner or self.own_all:
            self._owned.append((owner or name, a, a.copy()))
        return a

    def real(self, name, lo=None, hi=None, gen=None, strict=None, py="float"):
        h = self._hint(name)
        x = self._num(h, lo, hi) if h is not None else (float(gen(self.rng)) if gen else self._rv(lo, hi))
        self.used[name] = x
        return x

    def int(self, name, lo=None, hi=None, gen=None):
        h = self._hint(name)
        x = int(h) if h is not None else (int(gen(self.rng)) if gen else self.rng.randint(
            lo if lo is not None else -10, hi if hi is not None else (lo if lo is not None else 0) + 15))
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            raise Skip("hint out of range")
        self.used[name] = x
        return x

    def bool(self, name):
        h = self._hint(name)
        x = bool(h) if h is not None else self.rng.random() < 0.5
        self.used[name] = x
        return x

    def choice(self, name, options):
        h = self._hint(name)
        k = int(h) if h is not None and 0 <= int(h) < len(options) else self.rng.randrange(len(options))
        self.used[name] = k
        return options[k]

    def labels(self, name, n):
        # distinct labels, deliberately not in sorted order
        base = ["%s%s" % (c, d) for d in "0123456789" for c in "QAZMXBCWRT"] + ["L%03d" % k for k in range(300)]
        h = self._hint(name)
        if h is not None and len(h) == n and isinstance(h, list):
            xs = list(h)
        else:
            base = base[:max(10, n)]
            self.rng.shuffle(base)
            xs = base[:n]
        self.used[name] = list(xs)
        return self._keep(xs, "labels")

    def sublabels(self, name, base, m, n, perm=False):
        h = self._hint(name)
        base = list(base)
        if h is not None and isinstance(h, list) and len(h) == n and h and isinstance(h[0], int):
            ix = h
        else:
            ix = list(range(len(base) if perm else len(base) + max(2, n)))
            self.rng.shuffle(ix)
            if not perm:
                ix.sort(key=lambda k: k >= len(base) and self.rng.random() < 0.8)
            ix = ix[:n]
            if self.rng.random() < 0.3:
                ix.sort()
        self.used[name] = ix
        ts = isinstance(base[0], self.pd.Timestamp) if base else False
        return [base[k] if k < len(base) else
                (self.pd.Timestamp("2030-01-01") + self.pd.Timedelta(days=k) if ts else "~out%d" % k) for k in ix]

    def series(self, arr, labels):
        return self._keep(self.pd.Series(arr, index=list(labels)), "series")

    def frame(self, arr, index, columns):
        f = self.pd.DataFrame(arr, index=list(index) if index is not None else None,
                              columns=list(columns) if columns is not None else None)
        for o, a, c in self._owned:
            if a is arr:
                self._owned.append((o, f, f.copy()))
                break
        return f

    def datelabels(self, n):
        ds = list(self.pd.date_range("2020-01-01", periods=n, freq="D"))
        return ds

    def mapping(self, labels, arr, py="npfloat"):
        return self._keep(dict(zip(labels, list(arr) if py != "float" else [float(x) for x in arr])), "mapping")

    def submap(self, labels, arr, cond):
        return {l: int(x) if self.np.issubdtype(arr.dtype, self.np.integer) else float(x)
                for i, (l, x) in enumerate(zip(labels, arr)) if tri(cond(i)) is True}

    def weights_of(self, o):
        return dict(o.weights)

    def odict(self, labels, arr):
        import collections
        return collections.OrderedDict(zip(labels, list(arr)))

    def labelmap(self, labels, code, names):
        it = [(l, names[int(c)]) for l, c in zip(labels, code) if 0 <= c < len(names)]
        self.rng.shuffle(it)
        return dict(it)

    def tuples(self, *arrs):
        def c(x):
            return None if _isnan(x) else int(x) if isinstance(x, self.np.integer) else float(x)
        return [tuple(c(a[k]) for a in arrs) for k in range(len(arrs[0]))]

    def arr(self, n, f, dt="f"):
        return self.np.array([f(i) for i in range(n)], dtype=float if dt == "f" else bool if dt == "b" else int)

    def arr2(self, n, m, f):
        return self.np.array([[f(i, j) for j in range(m)] for i in range(n)], dtype=float).reshape(n, m)

    def copy(self, a):
        return a.copy()

    # ---- conditions
    def assume(self, c):
        if tri(c) is not True:
            raise Skip("precondition")

    require = assume

    def cover(self, name):
        pass

    def _keep(self, x, name):
        if self.own_all and isinstance(x, (list, dict, self.np.ndarray, self.pd.DataFrame, self.pd.Series)):
            self._owned.append((name, x, _snapshot(self, x)))
        return x

    def ensure(self, name, cond, tol=None):
        if self.muted:
            return
        v = tri(cond)
        if v is None:
            self.undecided += 1
            return
        self.checked += 1
        if v is False:
            self.fails.append((name, cond.d if isinstance(cond, Tri) else ""))

    def columns(self, W):
        return [self.np.array(r, dtype=float).reshape(-1, 1) for r in W]

    def which(self, name, n, best, same):
        self.ensure(name, self.exists(n, lambda k: self.and_(best(k), same(k))))

    def split(self, cond):
        v = tri(cond)
        if v is None:
            raise Skip("borderline")
        return v

    def sum_le(self, name, n, f, g):
        pass

    def sums_pos(self, name, m, n, f):
        pass

    def ghost(self, name, n, init, step):
        g = [init]
        for t in range(n - 1):
            g.append(step(t, g[-1]))
        return self.np.array(g, dtype=float)

    def induct(self, name, n, P):
        self.ensure(name, self.forall(n, P))

    def fact(self, name, cond):
        self.ensure(name, cond)

    def aslist(self, a):
        return [float(x) for x in a]

    def known(self, cond):
        return tri(cond) is True

    def call(self, f, *a, **k):
        import warnings
        for x in a + tuple(k.values()):
            self._keep(x, "argument")
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            try:
                with self.np.errstate(all="ignore"):
                    r = Res(True, f(*a, **k))
            except Exception as e:
                r = Res(False, exc=e)
        self._warn.extend((w.category, str(w.message)) for w in rec if "pypfopt" in w.filename)
        return r

    # ---- expressions
    def el(self, a, *idx):
        if isinstance(a, (list, tuple)):
            return a[idx[0]]
        return self.np.asarray(a)[tuple(int(i) for i in idx)]

    def isnan(self, a, *idx):
        x = self.np.asarray(a, dtype=float)
        return bool(self.np.isnan(x[tuple(idx)] if idx else x))

    def at(self, d, lab):
        return d[lab]

    def has(self, d, lab):
        return lab in d

    def at2(self, d, r, c):
        return d.loc[r, c]

    def tail(self, labels, n, k):
        return list(labels)[k:]

    def index(self, f):
        return list(f.index)

    def has_row(self, f, r):
        return r in f.index

    def cell(self, f, r, c):
        x = float(f.loc[r, c])
        return x, math.isnan(x)

    def lab(self, labels, i):
        return list(labels)[i]

    def keys(self, d):
        if isinstance(d, dict):
            return list(d.keys())
        if isinstance(d, self.pd.Series):
            return list(d.index)
        return list(d)

    def labels_eq(self, a, b):
        return self.keys(a) == self.keys(b)

    def lab_eq(self, a, b):
        return a == b

    def forall(self, n, f):
        r = True
        for i in range(int(n)):
            x = f(i)
            v = tri(x)
            if v is False:
                return Tri(False, "at %d: %s" % (i, x.d if isinstance(x, Tri) else ""))
            if v is None:
                r = None
        return Tri(r)

    def exists(self, n, f):
        return self.not_(self.forall(n, lambda i: self.not_(f(i))))

    def sum(self, n, f):
        s = 0.0
        for i in range(int(n)):
            s = s + f(i)
        return s

    def prod(self, n, f):
        s = 1.0
        for i in range(int(n)):
            s = s * f(i)
        return s

    def eq(self, a, b, tol=None):
        if isinstance(a, (bool, Tri)) or isinstance(b, (bool, Tri)):
            return self.iff(a, b)
        return close(a, b, tol)

    def _cmp(self, a, b, strict):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return Tri(False, "NaN comparison")
        if math.isinf(a) or math.isinf(b):
            return Tri(a < b if strict else a <= b)
        s = 1e-9 * max(abs(a), abs(b), 1e-6) if not strict else 1e-12 * max(abs(a), abs(b), 1e-6)
        big = 1e-6 * max(abs(a), abs(b), 1e-3)
        if strict:
            if a < b - s:
                return Tri(True)
            if a == b:
                return Tri(False, "%r < %r" % (a, b))
            return Tri(False, "%r < %r" % (a, b)) if a > b + big else Tri(None)
        if a <= b + s:
            return Tri(True) if a <= b or a - b <= s else Tri(None)
        return Tri(False, "%r <= %r" % (a, b)) if a > b + big else Tri(None)

    def le(self, a, b):
        return self._cmp(a, b, False)

    def lt(self, a, b):
        return self._cmp(a, b, True)

    def ge(self, a, b):
        return self._cmp(b, a, False)

    def gt(self, a, b):
        return self._cmp(b, a, True)

    def and_(self, *cs):
        r = True
        for c in cs:
            v0 = c() if callable(c) else c
            v = tri(v0)
            if v is False:
                return Tri(False, v0.d if isinstance(v0, Tri) else "")
            if v is None:
                r = None
        return Tri(r)

    def or_(self, *cs):
        r, d = False, ""
        for c in cs:
            v0 = c() if callable(c) else c
            v = tri(v0)
            if v is True:
                return Tri(True)
            if v is None:
                r = None
            d += (v0.d if isinstance(v0, Tri) else "") + ";"
        return Tri(r, d)

    def not_(self, c):
        v = tri(c)
        return Tri(None if v is None else not v, "negated")

    def implies(self, a, b):
        v = tri(a)
        if v is False:
            return Tri(True)
        b = b() if callable(b) else b
        w = tri(b)
        if v is None:
            return Tri(True if w is True else None)
        return b if isinstance(b, Tri) else Tri(w)

    def iff(self, a, b):
        x, y = tri(a), tri(b)
        if x is None or y is None:
            return Tri(None)
        return Tri(x == y, "%s <=> %s" % (x, y))

    def ite(self, c, a, b):
        v = tri(c)
        if v is None:
            raise Skip("borderline condition")
        x = a if v else b
        return x() if callable(x) else x

    def ind(self, c):
        v = tri(c)
        if v is None:
            raise Skip("borderline condition")
        return 1.0 if v else 0.0

    def max(self, a, b): return max(a, b)
    def min(self, a, b): return min(a, b)
    def abs(self, a): return abs(a)

    def sqrt(self, a):
        return math.sqrt(a) if a >= 0 else float("nan")

    def pow(self, a, b):
        try:
            r = float(a) ** float(b)
            return r if not isinstance(r, complex) else float("nan")
        except (OverflowError, ZeroDivisionError):
            return float("nan")

    def exp(self, a): return math.exp(a)

    def log(self, a):
        return math.log(a) if a > 0 else float("nan")

    def whole(self, a):
        return isinstance(a, (int, self.np.integer)) and not isinstance(a, bool)

    def floor(self, a): return math.floor(a)
    def isnone(self, x): return x is None
    def dimof(self, x, axis=0): return self.np.asarray(x).shape[axis]
    def rank(self, x): return self.np.asarray(x).ndim

    def isfinite_scalar(self, x):
        try:
            return self.np.ndim(x) == 0 and math.isfinite(float(x))
        except Exception:
            return False

    # ---- composite
    def scalar(self, name, got, exp, tol=None):
        try:
            g = float(self.np.asarray(got, dtype=float).reshape(()))
        except Exception:
            return self.ensure(name, Tri(False, "not a scalar: %r" % (got,)))
        self.ensure(name, close(g, float(exp), tol))

    def vector(self, name, got, n, f, tol=None, cond=None):
        try:
            a = self.np.asarray(got, dtype=float)
        except Exception:
            return self.ensure(name, Tri(False, "not numeric: %r" % (got,)))
        if a.shape != (n,):
            return self.ensure(name + ": length", Tri(False, "shape %s, expected %s" % (a.shape, (n,))))
        idx = [i for i in range(n) if cond is None or tri(cond(i)) is True]
        e = self.np.array([float(f(i)) for i in idx])
        self.ensure(name, close_arr(a[idx], e, tol))

    def matrix(self, name, got, n, m, f, tol=None):
        try:
            a = self.np.asarray(got, dtype=float)
        except Exception:
            return self.ensure(name, Tri(False, "not numeric: %r" % (got,)))
        if a.shape != (n, m):
            return self.ensure(name + ": shape", Tri(False, "shape %s, expected %s" % (a.shape, (n, m))))
        e = self.np.array([[float(f(i, j)) for j in range(m)] for i in range(n)]).reshape(n, m)
        self.ensure(name, close_arr(a, e, tol))

    def is_frame(self, x): return isinstance(x, self.pd.DataFrame)
    def is_series(self, x): return isinstance(x, self.pd.Series)

    def is_odict(self, x):
        import collections
        return isinstance(x, collections.OrderedDict)

    def is_dict(self, x): return isinstance(x, dict)
    def is_ndarray(self, x): return isinstance(x, self.np.ndarray)
    def is_str(self, x): return isinstance(x, str)

    def frame_labels(self, name, f, index, columns):
        if not self.is_frame(f):
            return self.ensure(name, Tri(False, "not a DataFrame"))
        self.ensure(name + ": index", Tri(list(f.index) == list(index), "%s vs %s" % (list(f.index), list(index))))
        self.ensure(name + ": columns", Tri(list(f.columns) == list(columns), str(list(f.columns))))

    def range_labels(self, n): return list(range(n))

    def wdict(self, name, d, labels, f, tol=None):
        if not isinstance(d, dict):
            return self.ensure(name, Tri(False, "not a dict: %r" % (type(d),)))
        self.ensure(name + ": keys in order", Tri(list(d.keys()) == list(labels), "%s vs %s" % (list(d), list(labels))))
        if list(d.keys()) != list(labels):
            return
        self.vector(name + ": values", list(d.values()), len(labels), f, tol)

    # ---- solver records
    def solves(self):
        return list(self._solves)

    def samples(self, k=20):
        for q in range(k):
            self._samples = q
            yield q
        self._samples = 0

    def point(self, name, n=None, base=None, total=None, lo=None, hi=None, nonneg=False):
        r = self.rng
        h = self._hint(name) if self._samples == 0 else None
        if n is None:
            if h is not None:
                x = float(h)
            elif base is not None and r.random() < 0.6:
                x = float(base) * (1 + r.gauss(0, 0.3)) + r.gauss(0, 0.1)
            else:
                x = r.gauss(0, 1)
            return abs(x) if nonneg else x
        np = self.np
        if h is not None and len(h) == n:
            return np.array([float(x) for x in h])
        q = r.random()
        if base is not None and q < 0.45:
            b = np.asarray(base, dtype=float).reshape(n)
            x = b.copy() if q < 0.1 else b + np.array([r.gauss(0, 1) for _ in range(n)]) * 10 ** r.uniform(-3, 0)
            if q > 0.3:       # change few coordinates
                x = b.copy()
                for _ in range(2):
                    x[r.randrange(n)] += r.gauss(0, 0.5)
        else:
            x = np.array([r.choice([r.gauss(0, 1), r.expovariate(1), 0.0]) for _ in range(n)])
        if nonneg:
            x = np.abs(x)
        if lo is not None and hi is not None:
            lo = np.clip(np.asarray(lo, dtype=float), -3, None)
            hi = np.clip(np.asarray(hi, dtype=float), None, 3)
        if lo is not None and hi is not None and r.random() < 0.5:
            x = np.array([r.uniform(float(l), float(u)) if r.random() < 0.8 else r.choice([float(l), float(u)])
                          for l, u in zip(lo, hi)])
        if total is not None and r.random() < 0.8:
            if lo is not None and hi is not None and r.random() < 0.7:
                x = _to_total(np, x, total, lo, hi)
            elif n and r.random() < 0.5 and abs(x.sum()) > 1e-3 and total != 0:
                x = x * (total / x.sum())
            elif n:
                x = x + (total - x.sum()) / n
        return x

    def warnings(self): return list(self._warn)

    def q(self, s): return float(Fraction(s))

    def suppose(self, c): return tri(c) is True

    def scipy_call(self, rec):
        kw = rec.kw
        c = kw.get("constraints") or ()
        return {"fun": rec.fun, "x0": rec.x0, "args": rec.args if isinstance(rec.args, tuple) else (rec.args,),
                "method": kw.get("method"), "bounds": kw.get("bounds"),
                "constraints": [c] if isinstance(c, dict) else list(c), "x": rec.result["x"]}

    def one(self): return 1.0
    def length(self, xs): return len(xs)
    def item(self, xs, i): return xs[int(i)]

    def warned(self, *cats):
        return any(c.__name__ in cats for c, _ in self._warn)
    def files(self):
        import os
        return sorted(os.listdir(self._dir))

    def scratch(self, name):
        import os
        return os.path.join(self._dir, name)

    def round(self, x, k):
        return float(self.np.round(float(x), k))

    def saved(self, name, rec, path, ext, labels, f):
        import os, json, ast, csv
        if rec != os.path.basename(path):
            return self.ensure(name, Tri(False, "file %s, expected %s" % (rec, path)))
        txt = open(os.path.join(self._dir, rec)).read()
        try:
            if ext == "csv":
                d = {r[0]: float(r[1]) for r in csv.reader(txt.splitlines())}
            else:
                d = json.loads(txt) if ext == "json" else ast.literal_eval(txt)
        except Exception as e:
            return self.ensure(name, Tri(False, "unreadable %s file: %s: %r" % (ext, e, txt[:80])))
        self.wdict(name, d, labels, f, tol=1e-12)

    def floats(self, name, obj, labels):
        self.ensure(name + ": plain floats", all(type(x) is float for x in obj.values()))

    def mutated(self):
        out = []
        for o, a, c in self._owned:
            if not _unchanged(self, a, c):
                out.append(("write", o))
        return out

    def fun(self, name, *xs):
        import zlib
        h = zlib.crc32(repr((name, [round(float(x), 12) for x in xs])).encode())
        return (h % 10007) / 10007 * 2 - 0.5

    def pred(self, name, *xs):
        return self.fun(name, *xs) < 0

    def axes(self):
        return Axes()

    def drawn(self, ax, what, label=None):
        return [a for k, a, kw in ax.calls if k == what and (label is None or kw.get("label") == label)]

    def filtered(self, name, got, n, cond, f):
        exp = [f(i) for i in range(n) if tri(cond(i))]
        self.ensure(name + ": listed exactly when it should be", len(got) == len(exp))
        self.ensure(name, self.forall(len(exp), lambda i: self.eq(got[i], exp[i])))

    def draws(self): return []
    def solve_modes(self, *m): pass
    def feasible_solutions(self): pass
    def loop(self, *a, **k): pass

    def half(self, x):
        return x // 2

    def num(self, i):
        return i

    def size(self, n):
        return int(n)

    def subset(self, name, labels, n, k):
        h = self._hint(name)
        ix = list(range(n))
        self.rng.shuffle(ix)
        ix = ix[:k]
        self.used[name] = ix
        return [labels[i] for i in ix], (lambda i: ix[int(i)])

    def lib(self, mod, attr):
        return getattr(importlib.import_module(mod), attr)

    def member(self, items, x):
        return int(x) in [int(q) for q in items]

    def arity(self, f):
        import inspect
        return len(inspect.signature(f).parameters)

    def named(self, name, n, P):
        r = lambda i: P(i)
        r.unfold = lambda i: None
        return r

    def holds(self, c):
        return tri(c) is True

    def inverse(self, A):
        return self.np.linalg.inv(self.np.asarray(A, dtype=float))

    def inverts(self, A, B, x): pass

    def condensed(self, y, n, i, j):
        i, j = int(i), int(j)
        return float(y[n * i + j - (i + 2) * (i + 1) // 2])

    def leaves(self, tree):
        import scipy.cluster.hierarchy as sch
        return [int(i) for i in sch.leaves_list(tree)]

    def close(self, a, b, tol):
        return abs(float(a) - float(b)) <= tol

    def split_sum(self, n, at, f):
        pass

    def shuffled(self, labels):
        x = list(labels)
        self.rng.shuffle(x)
        return self._keep(x, "labels")
    def distinct_reals(self, *a): pass

    def symmetric(self, a):
        return Tri(bool(self.np.allclose(a, a.T)))


def _snapshot(V, x):
    if isinstance(x, (V.np.ndarray, V.pd.DataFrame, V.pd.Series)):
        return x.copy()
    if type(x) in (list, tuple):
        return type(x)(_snapshot(V, y) for y in x)
    if isinstance(x, dict):
        return {k: _snapshot(V, y) for k, y in x.items()}
    return x


def _unchanged(V, a, c):
    if isinstance(a, V.np.ndarray):
        return a.shape == c.shape and bool(V.np.array_equal(a, c, equal_nan=a.dtype.kind == "f"))
    if isinstance(a, (V.pd.DataFrame, V.pd.Series)):
        return a.equals(c) and list(a.index) == list(c.index) and \
            (not hasattr(a, "columns") or list(a.columns) == list(c.columns)) and getattr(a, "name", None) == getattr(c, "name", None)
    if type(a) in (list, tuple):
        return len(a) == len(c) and all(_unchanged(V, x, y) for x, y in zip(a, c))
    if isinstance(a, dict):
        return list(a) == list(c) and all(_unchanged(V, a[k], c[k]) for k in a)
    if isinstance(a, float) and isinstance(c, float):
        return a == c or (a != a and c != c)
    return a is c or (isinstance(a, (int, str, float, V.np.generic)) and bool(a == c))


def _to_total(np, x, total, lo, hi):
    """move x towards sum == total inside the box"""
    x = np.clip(x, lo, hi)
    for _ in range(40):
        gap = total - x.sum()
        if abs(gap) < 1e-13:
            break
        room = (np.asarray(hi) - x) if gap > 0 else (x - np.asarray(lo))
        act = room > 1e-12
        if not act.any():
            break
        x = np.clip(x + act * gap / act.sum(), lo, hi)
    return x


def _isnan(x):
    try:
        return math.isnan(float(x))
    except Exception:
        return False


def close(a, b, tol=None):
    a, b = float(a), float(b)
    if math.isnan(b):
        return Tri(None, "specification is NaN")
    if math.isnan(a):
        return Tri(False, "got NaN, expected %r" % b)
    if math.isinf(a) or math.isinf(b):
        return Tri(True if a == b else None if (math.isinf(b)) else False, "%r vs %r" % (a, b))
    d = abs(a - b)
    s = max(abs(a), abs(b), 1e-4)
    hi = tol if tol is not None else 1e-6
    if d <= hi * 1e-3 * s:
        return Tri(True)
    return Tri(False, "got %r, expected %r" % (a, b)) if d > hi * s else Tri(None, "")


def close_arr(a, e, tol=None):
    import numpy as np
    a, e = np.asarray(a, dtype=float), np.asarray(e, dtype=float)
    if np.isnan(e).any():
        return Tri(None, "specification is NaN")
    if np.isnan(a).any():
        return Tri(False, "got NaN: %s expected %s" % (a.tolist(), e.tolist()))
    if a.size == 0:
        return Tri(True)
    if np.isinf(e).any() or np.isinf(a).any():
        return Tri(True if np.array_equal(a, e) else False, "%s vs %s" % (a.tolist(), e.tolist()))
    hi = tol if tol is not None else 1e-6
    s = max(float(np.abs(e).max()), float(np.abs(a).max()), 1e-4)
    d = float(np.abs(a - e).max())
    if d <= hi * 1e-3 * s:
        return Tri(True)
    return Tri(False, "got %s, expected %s" % (a.tolist(), e.tolist())) if d > hi * s else Tri(None)


class Axes:
    def __init__(self):
        self.calls = []

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)

        def f(*a, **kw):
            self.calls.append((k, a, kw))
            return Axes()
        return f


class ConcProblem:
    kind = "cvxpy"

    def __init__(self, V, problem, args, opts):
        self.V, self.problem = V, problem
        self.args, self.opts = args, opts
        self.params = [(p, None if p.value is None else p.value) for p in problem.parameters()]
        self.status = None
        self.values = {}

    @property
    def vars(self):
        return self.problem.variables()

    def done(self):
        self.status = self.problem.status
        for v in self.problem.variables():
            self.values[v.id] = None if v.value is None else self.V.np.array(v.value)

    def var_of_shape(self, *shape, exclude=()):
        return [v for v in self.vars if tuple(v.shape) == tuple(int(x) for x in shape) and
                not any(v is e for e in exclude)]

    def _with(self, assign, f):
        old = [(v, v.value) for v in self.vars]
        oldp = [(p, p.value) for p, _ in self.params]
        try:
            for v, val in assign:
                v.save_value(self.V.np.asarray(val, dtype=float))
            for p, val in self.params:
                p.save_value(val)
            with self.V.np.errstate(all="ignore"):
                return f()
        finally:
            for v, val in old:
                v.save_value(val)
            for p, val in oldp:
                p.save_value(val)

    def obj(self, assign):
        def f():
            x = self.problem.objective.args[0].value
            if x is None:
                raise Skip("objective undefined")
            s = 1 if type(self.problem.objective).__name__ == "Minimize" else -1
            return s * float(self.V.np.asarray(x).reshape(()))
        return self._with(assign, f)

    def violation(self, assign):
        def f():
            worst = 0.0
            np = self.V.np
            for c in self.problem.constraints:
                v = c.violation()
                worst = max(worst, float(np.max(v)) if np.size(v) else 0.0)
            for v in self.vars:
                a = v.attributes
                if a.get("nonneg") or a.get("pos"):
                    worst = max(worst, float(-np.min(v.value)))
            return worst
        return self._with(assign, f)

    def total_violation(self, assign):
        """summed over the affine constraints: compares two assignments of the auxiliary variables"""
        np = self.V.np
        return self._with(assign, lambda: sum(float(np.sum(np.abs(c.violation()))) for c in self.problem.constraints
                                              if all(a.is_affine() for a in c.args)))

    def feasible(self, assign):
        w = self.violation(assign)
        if math.isnan(w):
            return Tri(None)
        return Tri(True if w <= 1e-9 else False if w > 1e-6 else None, "violation %g" % w)

    def value(self, v):
        return self.values[v.id]

    def is_integer(self, v):
        return bool(v.attributes.get("integer") or v.attributes.get("boolean"))

    @property
    def solver_args(self):
        return self.args, self.opts


class ConcScipy:
    kind = "scipy"

    def __init__(self, fun, x0, args, kw):
        self.fun, self.x0, self.args, self.kw = fun, x0, args, kw


def ensure_real_package():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


RUN_LIMIT = 45      # seconds of processor time; a run takes well under a second


class Hang(BaseException):
    """a concrete run that does not come back"""


def run_conc(u, seed, hints=None, mined=(), maxdim=5):
    """one concrete execution; returns (V, status) status in ok|fail|skip|error"""
    import cvxpy
    import scipy.optimize as sco
    ensure_real_package()
    rng = random.Random("%s/%s" % (u.key, seed))
    V = ConcV(u, rng, hints, mined, maxdim)
    osolve, omin = cvxpy.Problem.solve, sco.minimize

    def solve(self, *a, **k):
        rec = ConcProblem(V, self, a, k)
        V._solves.append(rec)
        r = osolve(self, *a, **k)     # a solver exception leaves rec.status None
        rec.done()
        return r

    def minimize(fun, x0, args=(), **kw):
        r = ConcScipy(fun, V.np.array(x0), args, kw)
        V._solves.append(r)
        res = omin(fun, x0, args=args, **kw)
        r.result = res
        return res
    cvxpy.Problem.solve = solve
    sco.minimize = minimize
    import io
    import contextlib
    import tempfile
    import os
    import shutil
    import warnings
    if u.opts.get("files"):
        V._dir = tempfile.mkdtemp(prefix="vf-scratch-")
        cwd = os.getcwd()
        os.chdir(V._dir)
    watch = threading.current_thread() is threading.main_thread()
    if watch:
        def hang(*_):
            raise Hang("still running after %d s of processor time" % RUN_LIMIT)
        old = signal.signal(signal.SIGPROF, hang)
        signal.setitimer(signal.ITIMER_PROF, RUN_LIMIT)
    try:
        with contextlib.redirect_stdout(io.StringIO()), V.np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            u.fn(V)
    except Skip as e:
        return V, "skip" if not V.fails else "fail"
    except Hang as e:
        V.fails.append(("terminates", str(e)))
        return V, "fail"
    except Exception as e:
        V.fails.append(("evaluation of the postconditions", "%s: %s\n%s" % (type(e).__name__, e,
                                                                           traceback.format_exc(limit=-4))))
        return V, "fail"
    finally:
        if watch:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
        V.unpatch()
        cvxpy.Problem.solve = osolve
        sco.minimize = omin
        if V._dir:
            os.chdir(cwd)
            shutil.rmtree(V._dir, ignore_errors=True)
    return V, "fail" if V.fails else "ok"


# ================================================================== models -> concrete inputs
def model_hints(V, ob):
    """concrete inputs from the z3 model of a failed obligation"""
    if not ob.failed or ob.failed[3] is None:
        return None
    import z3
    model, Zt = ob.failed[3]
    out = {}

    def val(t):
        try:
            z = Zt.z(t)
            v = model.eval(z, model_completion=True)
            if z3.is_true(v):
                return True
            if z3.is_false(v):
                return False
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            if z3.is_algebraic_value(v):
                return float(v.approx(20).as_fraction())
        except Exception:
            pass
        return None
    for name, (kind, t, sh) in V.inputs.items():
        if kind == "dim":
            out[name] = t if isinstance(t, int) else val(t)
        elif kind in ("real", "int", "bool"):
            out[name] = val(t)
        elif kind == "choice":
            k = 0
            for b in t:
                if b in ob.pc:
                    break
                k += 1
            out[name] = k
        elif kind == "arr":
            if all(isinstance(d, int) for d in sh):
                if len(sh) == 1:
                    out[name] = [nanor(val(t.nanat(tm.num(i))) is True, val(t.elem(tm.num(i)))) for i in range(sh[0])]
                    if any(x is None for x in out[name]):
                        del out[name]
                elif len(sh) == 2:
                    out[name] = [[nanor(val(t.nanat(tm.num(i), tm.num(j))) is True, val(t.elem(tm.num(i), tm.num(j))))
                                  for j in range(sh[1])] for i in range(sh[0])]
                    if any(x is None for r in out[name] for x in r):
                        del out[name]
        if kind == "bool":
            for c in ob.pc:
                if c is t:
                    out[name] = True
                elif c is tm.bnf(tm.not_(t)):
                    out[name] = False
    return {k: v for k, v in out.items() if v is not None}


def nanor(isnan, v):
    return float("nan") if isnan else v


def path_hints(V, ob):
    """branch choices (booleans, alternatives) of the failing path"""
    out = {}
    for name, (kind, t, sh) in V.inputs.items():
        if kind == "bool":
            if t in ob.pc:
                out[name] = True
            elif tm.bnf(tm.not_(t)) in ob.pc:
                out[name] = False
        elif kind == "choice":
            k = 0
            for b in t:
                if b in ob.pc:
                    break
                k += 1
            out[name] = k
    return out


def mine_literals(repo=None):
    """numeric constants occurring in the package source (used as input hints)"""
    import ast
    import os
    out = set()
    base = (repo or REPO) + "/pypfopt"
    for root, _, fs in os.walk(base):
        for f in fs:
            if f.endswith(".py"):
                try:
                    for n in ast.walk(ast.parse(open(os.path.join(root, f)).read())):
                        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and \
                                not isinstance(n.value, bool):
                            out.add(float(n.value))
                except SyntaxError:
                    pass
    return sorted(out)
