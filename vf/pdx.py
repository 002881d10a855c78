"""Contract model of pandas (assumed contracts of the dependency)."""
import functools
import inspect
import types
from . import term as tm
from . import prove as pv
from . import core
from . import npx
from .core import *
from .core import CTX, SNum, SBool, SLab, Seq, SList, SMap, Sym, Unsupported, as_dim, dim_val, same_dim, touch, Axis, \
    range_axis
from .npx import SArr, asarr, NaN, MaybeNaN

USE = object()


def _islab(x):
    return isinstance(x, (str, SLab, SNum, int)) and not isinstance(x, bool)


# ------------------------------------------------------------------ axes
class AppendAxis(Axis):
    def __init__(self, base, lab):
        self.base, self.lab = base, lab
        n = tt(base.length)

        def label(i):
            c = bnf(lt(i, n))
            if c is TRUE:
                return base.label(i)
            if c is FALSE:
                return lab
            return vmerge(c, base.label(i), lab)

        def loc(x):
            e = bnf(term(x == lab))
            if e is TRUE:
                return TRUE, n
            p, q = base.locate(x)
            if e is FALSE:
                return p, q
            return or_(e, p), ite(e, n, q)
        Axis.__init__(self, add(n, ONE), label, loc, uid=("append", base.uid, term(lab)))


def slice_axis(ax, off, n, step=1):
    off = tt(off)
    if canon(off) is ZERO and step == 1 and same_dim(n, ax.length):
        return ax
    if step == 1:
        def loc(x):
            p, q = ax.locate(x)
            r = canon(sub(q, off))
            return and_(p, ge(r, ZERO), lt(r, tt(n))), r
        return Axis(n, lambda i: ax.label(canon(add(i, off))), loc, uid=("slice", ax.uid, canon(off), tt(n)))

    def loc2(x):
        p, q = ax.locate(x)
        r = canon(sub(off, q))
        return and_(p, ge(r, ZERO), lt(r, tt(n))), r
    return Axis(n, lambda i: ax.label(canon(sub(off, i))), loc2, uid=("rev", ax.uid, canon(off), tt(n)))


def to_axis(x, n=None):
    if isinstance(x, SIndex):
        return x.axis
    if isinstance(x, Axis):
        return x
    if x is None:
        return range_axis(n)
    if isinstance(x, SMap):
        return to_axis(x.keys())
    if getattr(x, "_pd", False):
        x = x.arr
    s = as_seq(core.iter_of(x) if not isinstance(x, (list, tuple, Seq, SArr)) else x)
    if getattr(s, "axis", None) is not None:
        return s.axis
    if s.concrete:
        xs = list(s)
        for a in range(len(xs)):
            if not _islab(xs[a]) and not isinstance(xs[a], tuple):
                raise Unsupported("index labels of type %s" % type(xs[a]))
        return Axis(len(xs), lambda i: core.pick(xs, i))
    i = ivar(s.length, "ax")
    if s.guard is not None:
        raise Unsupported("index from filtered sequence")
    try:
        return core.axis_of_keys(s.at(i), i, s.length)
    except Unsupported:
        return Axis(s.length, s.at, None)


def dictinct_lab(*a):
    pass


class SIndex(Sym):
    _vf_priority = 2

    def __init__(self, axis):
        self.axis = axis

    def _as_seq(self):
        return self.axis.seq()

    def __iter__(self):
        return iter(self._as_seq())

    def vf_len(self):
        return dim_val(self.axis.length)

    def __len__(self):
        return len(self._as_seq())

    @property
    def size(self):
        return self.vf_len()

    @property
    def shape(self):
        return (self.vf_len(),)

    def __getitem__(self, k):
        if isinstance(k, slice):
            s = self.axis.seq()[k]
            return SIndex(to_axis(s))
        if _islab(k):
            i = core.norm_index(k, self.axis.length)
            return self.axis.label(i)
        ks = as_seq(k)
        ax = self.axis
        if ks.concrete:
            ls = [ax.label(core.norm_index(j, ax.length)) for j in ks]
            return SIndex(Axis(len(ls), lambda i: core.pick(ls, i)))

        def at(i):
            return ax.label(term(ks.at(i)))
        q = Seq(ks.length, at)
        return SIndex(to_axis(q))

    def __contains__(self, x):
        return CTX.decide(self.axis.locate(x)[0])

    def get_loc(self, x):
        p, q = self.axis.locate(x)
        if not CTX.decide(p):
            raise KeyError(x)
        return SNum(q, "int")

    def tolist(self):
        return SList(sym=self.axis.seq()) if not isinstance(self.axis.length, int) else SList(list(self.axis.seq()))

    to_list = tolist

    @property
    def values(self):
        return npx.asarr(self.axis.seq())

    def to_numpy(self):
        return self.values

    def _to_arr(self):
        return self.values

    def copy(self):
        return SIndex(self.axis)

    def equals(self, o):
        return SBool(TRUE) if self.axis.same(o.axis) else SBool(axis_eq(self.axis, o.axis))

    def __eq__(self, o):
        if isinstance(o, SIndex):
            if self.axis.same(o.axis):
                return npx.np_ones(self.shape, bool)
        return self.values == (o.values if isinstance(o, SIndex) else asarr(o))

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return id(self)

    @property
    def is_unique(self):
        return True

    def isin(self, xs):
        ax = to_axis(xs)
        return SArr((self.axis.length,), lambda i: ax.locate(self.axis.label(i))[0], "b")

    def _py_is(self, c):
        return getattr(c, "_vf_name", None) in ("Index",) or c is object or getattr(c, "__name__", "") == "Iterable"

    def __format__(self, s):
        return "<index>"

    def _vsubst(self, m):
        return self

    def append(self, o):
        return SIndex(to_axis(core.concat(self.axis.seq(), as_seq(o))))


def axis_eq(a, b):
    if not same_dim(a.length, b.length):
        return eq(tt(a.length), tt(b.length)) if False else FALSE
    return forall(a.length, lambda i: term(a.label(i) == b.label(i)))


# ------------------------------------------------------------------ common
class PD(Sym):
    _pd = True
    _vf_priority = 2
    _nattr = ("owner",)

    def _init(self):
        self._born = next(CTX.clock)
        self.owner = None

    def _relabel(self, what):
        touch(self)
        if self.owner:
            CTX.events.append((what, self.owner))

    @property
    def values(self):
        return self.arr

    def to_numpy(self, *a, **k):
        return self.arr

    def __array__(self, *a, **k):
        raise Unsupported("native conversion of a pandas object")

    @property
    def shape(self):
        return self.arr.shape

    @property
    def ndim(self):
        return self.arr.rank

    @property
    def size(self):
        return self.arr.size

    def vf_len(self):
        return self.arr.vf_len()

    def __len__(self):
        return len(self.arr)

    @property
    def empty(self):
        return SBool(or_(*[eq(tt(d), ZERO) for d in self.arr._shape]))

    def __bool__(self):
        raise ValueError("The truth value of a %s is ambiguous." % type(self).__name__)

    def __hash__(self):
        raise TypeError("unhashable type")

    def __format__(self, s):
        return "<pandas>"

    def __repr__(self):
        return "<%s %s>" % (type(self).__name__, self.arr._shape)

    def _ew1(self, f, dt=None):
        return self._wrap(npx.ew1(self.arr, f, dt))

    def _op(self, o, f, rev=False):
        if getattr(o, "_vf_priority", 0) > 2:
            return NotImplemented
        if isinstance(o, (str, SMap)) or o is None:
            raise TypeError("unsupported operand")
        if isinstance(o, SIndex):
            o = o.values
        other, res = self._align(o)
        a, b = (other, res.arr) if rev else (res.arr, other)
        return res._wrap(asarr(f(a, b)))

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __radd__(self, o): return self._op(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._op(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._op(o, lambda a, b: a * b, True)
    def __truediv__(self, o): return self._op(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._op(o, lambda a, b: a / b, True)
    def __floordiv__(self, o): return self._op(o, lambda a, b: a // b)
    def __mod__(self, o): return self._op(o, lambda a, b: a % b)
    def __pow__(self, o): return self._op(o, lambda a, b: a ** b)
    def __rpow__(self, o): return self._op(o, lambda a, b: a ** b, True)
    def __neg__(self): return self._wrap(-self.arr)
    def __pos__(self): return self
    def __abs__(self): return self._wrap(abs(self.arr))
    def __lt__(self, o): return self._op(o, lambda a, b: a < b)
    def __le__(self, o): return self._op(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._op(o, lambda a, b: a > b)
    def __ge__(self, o): return self._op(o, lambda a, b: a >= b)
    def __invert__(self): return self._wrap(~self.arr)
    def __and__(self, o): return self._op(o, lambda a, b: a & b)
    def __or__(self, o): return self._op(o, lambda a, b: a | b)

    def __eq__(self, o):
        if isinstance(o, str) or o is None:
            return self._wrap(npx.np_full(self.arr.shape, False))
        return self._op(o, lambda a, b: a == b)

    def __ne__(self, o):
        return ~(self == o)

    add, sub, mul, div, pow = __add__, __sub__, __mul__, __truediv__, __pow__

    def _ip(self, o, f):
        r = self._op(o, f)
        if r is NotImplemented:
            return r
        # in-place arithmetic writes through to the (possibly shared) buffer
        self.arr[tuple([slice(None)] * self.arr.rank)] = r.arr
        return self

    def __iadd__(self, o): return self._ip(o, lambda a, b: a + b)
    def __isub__(self, o): return self._ip(o, lambda a, b: a - b)
    def __imul__(self, o): return self._ip(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._ip(o, lambda a, b: a / b)

    def __matmul__(self, o):
        return pd_matmul(self, o)

    def __rmatmul__(self, o):
        return pd_matmul(o, self)

    dot = __matmul__

    def abs(self): return abs(self)
    def round(self, nd=0): return self._wrap(npx.np_round(self.arr, nd))
    def astype(self, t, **k): return self._wrap(self.arr.astype(t))
    def clip(self, lower=None, upper=None, **k): return self._wrap(npx.np_clip(self.arr, lower, upper))

    def copy(self, deep=True):
        return self._wrap(self.arr.copy())

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def isnull(self):
        return self._wrap(npx.np_isnan(self.arr))

    isna = isnull

    def notnull(self):
        return self._wrap(~npx.np_isnan(self.arr))

    notna = notnull

    def fillna(self, v=None, inplace=False, **k):
        if inplace:
            raise Unsupported("fillna(inplace)")
        if not self.arr.hasnan:
            return self.copy()
        if not is_scalar(v):
            raise Unsupported("fillna with non-scalar")
        f, n = self.arr.frozen()
        t = term(v)
        return self._wrap(SArr(self.arr._shape, lambda *i: ite(n(*i), t, f(*i)), self.arr.dt))

    def mask(self, cond, other=USE):
        return self._where(~cond if not getattr(cond, "_pd", False) else ~cond, other)

    def where(self, cond, other=USE):
        return self._where(cond, other)

    def _where(self, cond, other):
        c = asarr(cond)
        fc, _ = c.frozen()
        f, n = self.arr.frozen()
        if other is USE or isinstance(other, NaN):
            return self._wrap(SArr(self.arr._shape, f, self.arr.dt,
                                   lambda *i: or_(not_(fc(*i)), n(*i) if n else FALSE)))
        o = asarr(self._align(other)[0])
        io = npx.bcast_index(o._shape, self.arr._shape)
        fo, no = o.frozen()
        nan = None
        if n or no:
            nan = lambda *i: or_(and_(fc(*i), n(*i) if n else FALSE),
                                 and_(not_(fc(*i)), no(*io(i)) if no else FALSE))
        return self._wrap(SArr(self.arr._shape, lambda *i: ite(fc(*i), f(*i), fo(*io(i))), self.arr.dt, nan))

    def ffill(self, **k):
        if not self.arr.hasnan:
            return self.copy()
        f, n = self.arr.frozen()
        sh = self.arr._shape
        T_ = sh[0]
        probes = [ivar(d, "ff") for d in sh]
        mp = {p: num(0) for p in probes}
        key = tm.hash_str(str(bnf(_closed(n, sh))))
        nm = "ffpos:" + key

        def pos(*i):
            return app(nm, *i, sort=I)
        if nm not in FFILL:
            FFILL[nm] = True

        def facts(*rest):
            def at(t):
                p = pos(t, *rest)
                return and_(lt(p, add(t, ONE)), ge(p, num(-1)),
                            implies(ge(p, ZERO), not_(n(p, *rest))),
                            forall(T_, lambda s: implies(and_(gt(s, p), le(s, t)), n(s, *rest))))
            return forall(T_, at)
        if len(sh) == 1:
            CTX.assume(facts())
        else:
            CTX.assume(forall(sh[1], lambda j: facts(j)))
        return self._wrap(SArr(sh, lambda *i: f(pos(*i), *i[1:]), self.arr.dt,
                               lambda *i: lt(pos(*i), ZERO)))

    pad = ffill

    def pct_change(self, periods=1, fill_method=USE, **k):
        base = self
        if fill_method is not None and self.arr.hasnan:
            base = self.ffill()
        return base / base.shift(periods) - 1

    def shift(self, periods=1):
        f, n = self.arr.frozen()
        p = term(periods)
        T_ = tt(self.arr._shape[0])

        def nan(*i):
            q = canon(sub(i[0], p))
            out = or_(lt(q, ZERO), ge(q, T_))
            return or_(out, n(q, *i[1:])) if n else out
        return self._wrap(SArr(self.arr._shape, lambda *i: f(canon(sub(i[0], p)), *i[1:]), "f", nan))

    def diff(self, periods=1):
        return self - self.shift(periods)

    def cumprod(self, axis=0, **k):
        f, n = self.arr.frozen()
        if n:
            g = lambda *i: ite(n(*i), ONE, f(*i))
        else:
            g = f
        return self._wrap(SArr(self.arr._shape, lambda *i: mkprod(canon(add(i[0], ONE)), lambda s: g(s, *i[1:])),
                               self.arr.dt, n))

    def cumsum(self, axis=0, **k):
        f, n = self.arr.frozen()
        if n:
            raise Unsupported("cumsum with NaN")
        return self._wrap(SArr(self.arr._shape, lambda *i: mksum(canon(add(i[0], ONE)), lambda s: f(s, *i[1:])),
                               self.arr.dt, n))

    def _axis_arg(self, axis):
        if axis in (None, USE):
            return 0 if self.arr.rank == 2 else None
        if axis in ("index", "rows"):
            return 0
        if axis == "columns":
            return 1
        return int(axis)

    def _valid(self):
        f, n = self.arr.frozen()
        if n is None:
            return (lambda *i: ONE), f
        return (lambda *i: iv(not_(n(*i)))), (lambda *i: ite(n(*i), ZERO, f(*i)))

    def _reduce(self, axis, kind, ddof=1):
        ax = self._axis_arg(axis)
        sh = self.arr._shape
        f0, n0 = self.arr.frozen()

        def over(g, i):
            """sum of g over the reduced axis"""
            if ax is None:
                return mksum(sh[0], lambda s: g(s))
            if ax == 0:
                return mksum(sh[0], lambda s: g(s, i[0]))
            return mksum(sh[1], lambda s: g(i[0], s))

        v, x = self._valid()
        cnt = lambda *i: over(v, i)
        if kind == "count":
            fn, nan, dt = cnt, None, "i"
        elif kind == "sum":
            fn, nan, dt = (lambda *i: over(x, i)), None, self.arr.dt if self.arr.dt != "b" else "i"
            if self.arr.dt == "b":
                fn = lambda *i: over(lambda *j: iv(f0(*j)), i)
        elif kind == "mean":
            if self.arr.dt == "b":
                x = lambda *j: iv(f0(*j))
            fn, dt = (lambda *i: div(over(x, i), cnt(*i))), "f"
            nan = lambda *i: eq(cnt(*i), ZERO)
        elif kind == "var":
            dt = "f"

            def fn(*i):
                c = cnt(*i)
                m = div(over(x, i), c)
                return div(over(lambda *j: mul(v(*j), power(sub(x(*j), m), 2)), i), sub(c, num(ddof)))
            nan = lambda *i: le(cnt(*i), num(ddof))
        elif kind == "prod":
            g = (lambda *j: ite(n0(*j), ONE, f0(*j))) if n0 else f0
            nan, dt = None, self.arr.dt
            if ax is None:
                fn = lambda *i: mkprod(sh[0], lambda s: g(s))
            elif ax == 0:
                fn = lambda *i: mkprod(sh[0], lambda s: g(s, i[0]))
            else:
                fn = lambda *i: mkprod(sh[1], lambda s: g(i[0], s))
        rsh = () if ax is None else (sh[1],) if ax == 0 else (sh[0],)
        if nan is not None:
            pr = [ivar(d, "rd") for d in rsh]
            hy = [c for p, d in zip(pr, rsh) for c in (ge(p, ZERO), lt(p, tt(d)))]
            if pv.entails(CTX.pc + hy, not_(nan(*pr))):
                nan = None
        r = SArr(rsh, fn, dt, nan)
        return self._wrap_red(r, ax)

    def _wrap_red(self, r, ax):
        if r.rank == 0:
            return r.scalar(r.elem(), r.nanat())
        return SSeries(r, self.columns.axis if ax == 0 else self.index.axis)

    def sum(self, axis=USE, **k): return self._reduce(axis, "sum")
    def mean(self, axis=USE, **k): return self._reduce(axis, "mean")
    def prod(self, axis=USE, **k): return self._reduce(axis, "prod")
    def product(self, axis=USE, **k): return self._reduce(axis, "prod")
    def count(self, axis=USE, **k): return self._reduce(axis, "count")

    def var(self, axis=USE, ddof=1, **k):
        return self._reduce(axis, "var", ddof)

    def std(self, axis=USE, ddof=1, **k):
        return npx.np_sqrt(self._reduce(axis, "var", ddof))

    def _noskip(self):
        if self.arr.hasnan:
            raise Unsupported("min/max with NaN")
        return self.arr

    def max(self, axis=USE, **k):
        ax = self._axis_arg(axis)
        return self._wrap_red(asarr(npx.np_extreme(self._noskip(), ax, True)), ax)

    def min(self, axis=USE, **k):
        ax = self._axis_arg(axis)
        return self._wrap_red(asarr(npx.np_extreme(self._noskip(), ax, False)), ax)

    def any(self, axis=USE, **k):
        if axis is None:
            return npx.np_any(self.arr)
        ax = self._axis_arg(axis)
        return self._wrap_red(asarr(npx.np_any(self.arr, ax)), ax)

    def all(self, axis=USE, **k):
        if axis is None:
            return npx.np_all(self.arr)
        ax = self._axis_arg(axis)
        return self._wrap_red(asarr(npx.np_all(self.arr, ax)), ax)

    def ewm(self, com=None, span=None, halflife=None, alpha=None, adjust=True, **k):
        if k and any(v is not None and v is not False and v != 0 for v in k.values()):
            raise Unsupported("ewm options")
        if halflife is not None:
            raise Unsupported("ewm halflife")
        if span is not None:
            if CTX.decide(lt(term(span), ONE)):
                raise ValueError("span must satisfy: span >= 1")
            al = div(num(2), add(term(span), ONE))
        elif com is not None:
            al = div(ONE, add(term(com), ONE))
        elif alpha is not None:
            al = term(alpha)
        else:
            raise ValueError("Must pass one of comass, span, halflife, or alpha")
        return SEwm(self, al, adjust)

    def equals(self, o):
        raise Unsupported("equals")

    def _dropmask(self, how):
        f, n = self.arr.frozen()
        sh = self.arr._shape
        if n is None:
            return None
        if self.arr.rank == 1:
            return lambda t: n(t)
        if how == "all":
            return lambda t: forall(sh[1], lambda j: n(t, j))
        return lambda t: exists(sh[1], lambda j: n(t, j))

    def dropna(self, axis=0, how=USE, inplace=False, **k):
        how = "any" if how is USE else how
        if axis not in (0, "index") or inplace or k:
            raise Unsupported("dropna options")
        sh = self.arr._shape
        dm = self._dropmask(how)
        if dm is None:
            return self.copy()
        t = ivar(sh[0], "dr")
        tb = [ge(t, ZERO), lt(t, tt(sh[0]))]
        pc = CTX.pc
        if pv.entails(pc + tb, not_(dm(t))):
            return self._rows(slice(None))
        first = ge(tt(sh[0]), ONE)
        if pv.entails(pc, first) and pv.entails(pc, dm(ZERO)) and \
                pv.entails(pc + tb + [ge(t, ONE)], not_(dm(t))):
            return self._rows(slice(1, None))
        # general case: order-preserving selection of the kept rows
        if isinstance(sh[0], int):
            keep = []
            for r in range(sh[0]):
                if not CTX.decide(dm(num(r))):
                    keep.append(r)
            return self._rows(SList(keep))
        key = tm.hash_str(str(bnf(_closed(dm, sh[:1]))))
        M, sel, inv = selection(key, sh[0], lambda r: not_(dm(r)))
        CTX.note("dropna", "DataFrame.dropna keeps exactly the rows not matching, in their order")
        return self._rows_map(M, lambda q: app(sel, q, sort=I), ("drop", key),
                              lambda p: (not_(dm(p)), app(inv, p, sort=I)))

    def _rows_map(self, M, sel, uid, back):
        f, n = self.arr.frozen()
        sh = (as_dim(M),) + self.arr._shape[1:]
        nan = None
        if n is not None:
            # NaNs may remain (how='all'); drop the mask when provably clean
            pr = [ivar(d, "rw") for d in sh]
            hy = [c for p, d in zip(pr, sh) for c in (ge(p, ZERO), lt(p, tt(d)))]
            if not pv.entails(CTX.pc + hy, not_(n(sel(pr[0]), *pr[1:]))):
                nan = lambda i, *r: n(sel(i), *r)
        ax = self.index.axis

        def loc(x):
            p, q = ax.locate(x)
            ok, b = back(q)
            return and_(p, ok), b
        return self._mk(SArr(sh, lambda i, *r: f(sel(i), *r), self.arr.dt, nan),
                        Axis(M, lambda i: ax.label(sel(i)), loc, uid=("sel", ax.uid, uid)))

    def _rows(self, sl):
        ax = self.index.axis
        a = self.arr[sl]
        if isinstance(sl, slice):
            if sl == slice(None):
                r = self._mk(a, ax)
            else:
                start, n, step = _slice(sl, ax.length)
                r = self._mk(a, slice_axis(ax, start, n, step))
        else:
            ks = list(as_seq(sl))
            r = self._mk(a, Axis(len(ks), lambda i: core.pick([ax.label(term(q)) for q in ks], i)))
        return r._clean()

    def _clean(self):
        """forget the NaN mask when it is provably empty"""
        if self.arr.hasnan:
            sh = self.arr._shape
            pr = [ivar(d, "cl") for d in sh]
            hy = [c for p, d in zip(pr, sh) for c in (ge(p, ZERO), lt(p, tt(d)))]
            if pv.entails(CTX.pc + hy, not_(self.arr.nanat(*pr))):
                f, _ = self.arr.frozen()
                self.arr = SArr(sh, f, self.arr.dt)
        return self

    def tail(self, n=5): return self._rows(slice(-n, None))
    def head(self, n=5): return self._rows(slice(0, n))


FFILL = {}


def selection(key, n, keep):
    """(count, position -> index, index -> position) of the elements kept, in their order"""
    M = var("dropn:" + key, I)
    sel, inv = "dropsel:" + key, "dropinv:" + key
    T_ = tt(n)
    CTX.assume(and_(ge(M, ZERO), le(M, T_)))
    CTX.assume(forall(M, lambda q: and_(ge(app(sel, q, sort=I), ZERO), lt(app(sel, q, sort=I), T_),
                                        keep(app(sel, q, sort=I)),
                                        eq(app(inv, app(sel, q, sort=I), sort=I), q))))
    CTX.assume(forall(T_, lambda r: implies(keep(r), and_(ge(app(inv, r, sort=I), ZERO),
                                                          lt(app(inv, r, sort=I), M),
                                                          eq(app(sel, app(inv, r, sort=I), sort=I), r)))))
    return M, sel, inv


def _slice(sl, n):
    s = Seq(n, lambda i: SNum(i, "int"))
    r = core.slice_seq(s, sl)
    st = r.at(ZERO)
    step = -1 if sl.step == -1 else 1
    if sl.step not in (None, 1, -1):
        raise Unsupported("strided pandas slice")
    return term(st), r.length, step


def _closed(n, sh):
    """closed term capturing predicate n over shape sh (used as a key)"""
    def go(k, idx):
        if k == len(sh):
            return n(*idx)
        return forall(sh[k], lambda i: go(k + 1, idx + (i,)), "zz")
    return go(0, ())


class SEwm:
    def __init__(self, obj, alpha, adjust):
        self.obj, self.alpha, self.adjust = obj, alpha, adjust

    def mean(self, *a, **k):
        o = self.obj
        v, x = o._valid()
        q = canon(sub(ONE, self.alpha))
        if not self.adjust:
            raise Unsupported("ewm(adjust=False)")

        def num_(*i):
            t = i[0]
            return mksum(canon(add(t, ONE)), lambda s: mul(rpow(q, canon(sub(t, s))), v(s, *i[1:]), x(s, *i[1:])))

        def den(*i):
            t = i[0]
            return mksum(canon(add(t, ONE)), lambda s: mul(rpow(q, canon(sub(t, s))), v(s, *i[1:])))
        n = o.arr.frozen()[1]
        nan = None
        if n is not None:
            nan = lambda *i: forall(canon(add(i[0], ONE)), lambda s: n(s, *i[1:]))
        return o._wrap(SArr(o.arr._shape, lambda *i: div(num_(*i), den(*i)), "f", nan))

    def __getattr__(self, k):
        raise Unsupported("ewm().%s" % k)


# ------------------------------------------------------------------ Series
class SSeries(PD):
    def __init__(self, arr, axis, name=None):
        self._init()
        self.arr = arr
        self._axis = axis
        self.name = name

    def _snap(self):
        return (self.arr, self._axis)

    def _restore(self, s):
        self.arr, self._axis = s

    @property
    def index(self):
        return SIndex(self._axis)

    @index.setter
    def index(self, v):
        self._relabel("relabel")
        self._axis = to_axis(v, self.arr._shape[0])

    @property
    def dtype(self):
        return self.arr.dtype

    def _wrap(self, a):
        if not isinstance(a, SArr):
            return a
        if a.rank == 0:
            return a.scalar(a.elem(), a.nanat())
        if a.rank == 2:
            raise Unsupported("series op with matrix")
        if not same_dim(a._shape[0], self.arr._shape[0]):
            return a
        return SSeries(a, self._axis, self.name)

    def _mk(self, arr, axis):
        return SSeries(arr, axis, self.name)

    def _align(self, o):
        if isinstance(o, SSeries):
            if self._axis.same(o._axis):
                return o.arr, self
            return align_outer(self, o)
        if isinstance(o, SFrame):
            raise Unsupported("series op frame")
        if isinstance(o, (list, tuple, Seq)):
            o = asarr(o)
        return o, self

    @property
    def T(self):
        return self

    def _as_seq(self):
        return self.arr._as_seq()

    def __iter__(self):
        return iter(self.arr._as_seq())

    def __contains__(self, x):
        return CTX.decide(self._axis.locate(x)[0])

    def keys(self):
        return self.index

    def items(self):
        ax, a = self._axis, self.arr
        f, n = a.frozen()
        q = Seq(ax.length, lambda i: (ax.label(i), a.scalar(f(i), n(i) if n else FALSE)))
        q.axis_pairs = ax
        return q

    def to_dict(self):
        f, n = self.arr.frozen()
        return SMap(self._axis, lambda i: SNum(f(i), "float"))

    def _as_map(self):
        f, n = self.arr.frozen()
        if n is not None:
            raise Unsupported("dict of a Series with missing values")
        CTX.note("dict(Series)", "dict(series) maps each label to its value, in order")
        return SMap(self._axis, lambda i: SNum(f(i), "npfloat"))

    def _pos(self, k):
        p, q = self._axis.locate(k)
        if not CTX.decide(p):
            raise KeyError(k)
        return q

    def __getitem__(self, k):
        if isinstance(k, (SLab, str)):
            q = self._pos(k)
            return self.arr.scalar(self.arr.elem(q), self.arr.nanat(q))
        if isinstance(k, (int, SNum)) and not isinstance(k, bool):
            if self._axis.kind == "range":
                q = self._pos(k)
                return self.arr.scalar(self.arr.elem(q), self.arr.nanat(q))
            return self.iloc[k]
        if isinstance(k, slice):
            return self._rows(k)
        if isinstance(k, SSeries) and k.arr.dt == "b" or isinstance(k, SArr) and k.dt == "b":
            m = k.arr if isinstance(k, SSeries) else k
            return self.arr[m]
        return self._take_labels(k)

    def _take_labels(self, k):
        ks = as_seq(k)
        ax = self._axis
        f, n = self.arr.frozen()
        if ks.concrete:
            qs = [self._pos(x) for x in ks]
            labs = list(ks)
            return SSeries(SArr((len(qs),), lambda i: f(core.pick([SNum(q, "int") for q in qs], i).t), self.arr.dt,
                                (lambda i: n(core.pick([SNum(q, "int") for q in qs], i).t)) if n else None),
                           Axis(len(qs), lambda i: core.pick(labs, i)))
        i = ivar(ks.length, "tl")
        p, q = ax.locate(ks.at(i))
        if ks.guard is not None:
            return self._take_filtered(ks)
        if not pv.entails(CTX.pc + [ge(i, ZERO), lt(i, tt(ks.length))], p):
            if not CTX.decide(forall(ks.length, lambda j: ax.locate(ks.at(j))[0])):
                raise KeyError("labels not in index")
        return SSeries(SArr((ks.length,), lambda j: f(ax.locate(ks.at(j))[1]), self.arr.dt,
                            (lambda j: n(ax.locate(ks.at(j))[1])) if n else None), to_axis(ks))

    def _take_filtered(self, ks):
        m = getattr(ks, "of_map", None)
        ax = self._axis
        if m is None or isinstance(ks.length, int):
            raise Unsupported("label list is filtered")
        at, g, mx = ks.at, ks.guard, m.axis
        if not CTX.decide(forall(ks.length, lambda j: implies(g(j), ax.locate(at(j))[0]))):
            raise KeyError("labels not in index")
        M, sel, inv = selection(tm.hash_str(str(bnf(_closed(g, (ks.length,))))), ks.length, g)
        f, n = self.arr.frozen()
        src = lambda q: ax.locate(at(app(sel, q, sort=I)))[1]

        def loc(x):
            p, q = mx.locate(x)
            return and_(p, g(q)), app(inv, q, sort=I)
        CTX.note("series_take", "indexing a Series by a list of labels gives each label its value")
        return SSeries(SArr((as_dim(M),), lambda q: f(src(q)), self.arr.dt, (lambda q: n(src(q))) if n else None),
                       Axis(as_dim(M), lambda q: at(app(sel, q, sort=I)), loc))

    def __setitem__(self, k, v):
        if self.owner:
            CTX.events.append(("mutate", self.owner))
        if isinstance(k, (SLab, str)) or isinstance(k, (int, SNum)) and self._axis.kind == "range":
            p, q = self._axis.locate(k)
            if not CTX.decide(p):
                raise Unsupported("enlarging a Series")
            self.arr[SNum(q, "int")] = v
            return
        if isinstance(k, (int, SNum)):
            self.arr[k] = v
            return
        if isinstance(k, slice):
            self.arr[k] = v
            return
        if isinstance(k, SSeries) and k.arr.dt == "b" or isinstance(k, SArr) and k.dt == "b":
            self.arr[k.arr if isinstance(k, SSeries) else k] = v.arr if getattr(v, "_pd", False) else v
            return
        ks = as_seq(k)
        if ks.concrete:
            vs = asarr(v)
            if isinstance(v, SSeries):
                vals = [v[x] for x in ks]
            elif vs.rank == 0:
                vals = [v] * len(ks)
            else:
                vals = [vs[j] for j in range(len(ks))]
            for x, y in zip(ks, vals):
                self.arr[SNum(self._pos(x), "int")] = y
            return
        # a run of consecutive labels
        j = ivar(ks.length, "sl")
        pr, pos = self._axis.locate(ks.at(j))
        st = canon(sub(pos, j))
        inside = CTX.pc + [ge(j, ZERO), lt(j, tt(ks.length))]
        if ks.guard is not None or j in st.fv or self.arr.view is not None or not pv.entails(inside, pr):
            raise Unsupported("symbolic label-list assignment")
        if isinstance(v, SSeries):
            if not core.same_dim(v.arr._shape[0], ks.length) or not pv.entails(inside, term(v._axis.label(j) == ks.at(j))):
                raise Unsupported("assignment of a Series with other labels")
            f, nn = v.arr.frozen()
            val = lambda p: f(canon(sub(p, st)))
        elif core.is_scalar(v):
            x, nn = term(v), None
            val = lambda p: x
        else:
            raise Unsupported("symbolic label-list assignment")
        if nn is not None:
            raise Unsupported("symbolic label-list assignment of missing values")
        self.arr.store.write(lambda p: and_(ge(p, st), lt(canon(sub(p, st)), tt(ks.length))), val)

    def sort_index(self, axis=0, ascending=True, inplace=False, **k):
        if k or inplace or axis not in (0, "index") or ascending is not True:
            raise Unsupported("sort_index options")
        ax = self._axis
        if isinstance(ax.length, int) and ax.length < 2:
            return self.copy()
        q = core.sym_sorted(ax.seq(), lambda x: SNum(app("ord", term(x))) if isinstance(x, (SLab, str)) else x, False)
        _, f, g = as_seq(q).sorted_from

        def loc(x):
            p, i = ax.locate(x)
            return p, app(g, i, sort=I)
        fn, nn = self.arr.frozen()
        CTX.note("sort_index", "Series.sort_index() is the Series with its labels in order")
        at = lambda i: app(f, canon(i), sort=I)
        return SSeries(SArr((ax.length,), lambda i: fn(at(i)), self.arr.dt, (lambda i: nn(at(i))) if nn else None),
                       Axis(ax.length, lambda i: ax.label(at(i)), loc), self.name)

    @property
    def loc(self):
        return SLoc(self)

    at = loc

    @property
    def iloc(self):
        return SILoc(self)

    iat = iloc

    def drop(self, labels=None, **k):
        if k:
            labels = k.get("index", labels)
        return drop_label(self, labels)

    def squeeze(self, axis=None):
        if isinstance(self.arr._shape[0], int) and self.arr._shape[0] == 1:
            return self.arr[0]
        return self

    def reindex(self, index=None, **k):
        return reindex(self, to_axis(index))

    def to_frame(self, name=None):
        f, n = self.arr.frozen()
        nm = name if name is not None else (self.name if self.name is not None else 0)
        return SFrame(SArr((self.arr._shape[0], 1), lambda i, j: f(i), self.arr.dt, (lambda i, j: n(i)) if n else None),
                      self._axis, Axis(1, lambda i: nm))

    def rename(self, nm=None, **k):
        if not _islab(nm):
            raise Unsupported("rename")
        return SSeries(self.arr, self._axis, nm)

    def map(self, f):
        if isinstance(f, SMap):
            raise Unsupported("Series.map(dict)")
        q = core.comp_seq(self._as_seq(), f)
        return SSeries(asarr(q), self._axis)

    apply = map

    def tolist(self):
        return self.arr.tolist()

    to_list = tolist

    def flatten(self):
        raise AttributeError("'Series' object has no attribute 'flatten'")

    def ravel(self):
        return self.arr.ravel()

    def item(self):
        return self.arr.item()

    def cov(self, o):
        r = SFrame.from_cols([self.arr, self._align(o)[0]]).cov()
        return r.arr[0, 1]

    def to_csv(self, path=None, **k):
        CTX.files.append(("csv", path, self, k))

    def unique(self):
        raise Unsupported("unique")

    def sort_values(self, *a, **k):
        raise Unsupported("sort_values")

    def argmax(self): return self.arr.argmax()
    def argmin(self): return self.arr.argmin()

    def idxmax(self): return self._axis.label(term(self.arr.argmax()))
    def idxmin(self): return self._axis.label(term(self.arr.argmin()))

    def _py_is(self, c):
        return getattr(c, "_vf_name", None) == "Series" or c is object or getattr(c, "__name__", "") == "Iterable"

    def _vsubst(self, m):
        return SSeries(self.arr._vsubst(m), self._axis, self.name)

    def _vmerge(self, c, o):
        if isinstance(o, SSeries) and self._axis.same(o._axis):
            return SSeries(self.arr._vmerge(c, o.arr), self._axis, self.name)
        raise Unsupported("merge of different series")

    def _veq(self, o):
        return isinstance(o, SSeries) and self._axis.same(o._axis)

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        if k in REAL_SERIES:
            raise Unsupported("Series.%s" % k)
        raise AttributeError("'Series' object has no attribute '%s'" % k)


def align_outer(a, b):
    """pandas aligns on the union of the labels.  Supported when both label sets are equal (any order)."""
    i = ivar(a._axis.length, "al")
    hy = [ge(i, ZERO), lt(i, tt(a._axis.length))]
    if not same_dim(a._axis.length, b._axis.length):
        raise Unsupported("alignment of series of different length")
    p, q = b._axis.locate(a._axis.label(i))
    if not pv.entails(CTX.pc + hy, p):
        raise Unsupported("alignment of series with different labels")
    CTX.note("align", "element-wise Series arithmetic pairs equal labels; the order of the result is taken from the "
                      "left operand")
    return reindex(b, a._axis).arr, a


def reindex(s, ax):
    if s._axis.same(ax):
        return s
    f, n = s.arr.frozen()
    i = ivar(ax.length, "ri")
    hy = [ge(i, ZERO), lt(i, tt(ax.length))]
    full = pv.entails(CTX.pc + hy, s._axis.locate(ax.label(i))[0])

    def pos(j):
        return s._axis.locate(ax.label(j))
    nan = None
    if n or not full:
        nan = lambda j: or_(not_(pos(j)[0]) if not full else FALSE, n(pos(j)[1]) if n else FALSE)
    return SSeries(SArr((ax.length,), lambda j: f(pos(j)[1]), s.arr.dt, nan), ax)


def drop_label(s, lab):
    if not isinstance(lab, (SLab, str)):
        ks = list(as_seq(lab)) if not isinstance(lab, (int, SNum)) else [lab]
        for x in ks:
            s = drop_label1(s, x)
        return s
    return drop_label1(s, lab)


def drop_label1(s, lab):
    ax = s._axis
    p, q = ax.locate(lab)
    if not CTX.decide(p):
        raise KeyError("%s not found in axis" % (lab,))
    f, n = s.arr.frozen()
    N = canon(sub(tt(ax.length), ONE))
    q = canon(q)
    if canon(sub(q, N)) is ZERO:
        base = ax.base if isinstance(ax, AppendAxis) else slice_axis(ax, ZERO, N)
        return SSeries(SArr((base.length,), f, s.arr.dt, n), base)
    mp = lambda i: ite(lt(i, q), i, add(i, ONE))

    def loc(x):
        a, b = ax.locate(x)
        return and_(a, not_(eq(b, q))), ite(lt(b, q), b, sub(b, ONE))
    return SSeries(SArr((N,), lambda i: f(mp(i)), s.arr.dt, (lambda i: n(mp(i))) if n else None),
                   Axis(N, lambda i: ax.label(mp(i)), loc))


class SLoc:
    def __init__(self, o):
        self.o = o

    def __getitem__(self, k):
        o = self.o
        if isinstance(o, SSeries):
            if isinstance(k, slice) and k != slice(None):
                raise Unsupported("label slice")
            if isinstance(k, (int, SNum)):
                q = o._pos(k)
                return o.arr.scalar(o.arr.elem(q), o.arr.nanat(q))
            return o[k]
        if isinstance(k, tuple):
            r, c = k
        else:
            r, c = k, slice(None)
        return o._sel(r, c)

    def __setitem__(self, k, v):
        o = self.o
        if isinstance(o, SSeries):
            o[k] = v
            return
        if not isinstance(k, tuple):
            k = (k, slice(None))
        if o.owner:
            CTX.events.append(("mutate", o.owner))
        ix = []
        for kk, ax in zip(k, (o._index, o._columns)):
            if isinstance(kk, slice) and kk == slice(None):
                ix.append(kk)
            elif _islab(kk):
                p, q = ax.locate(kk)
                if not CTX.decide(p):
                    raise Unsupported("enlarging with loc")
                ix.append(SNum(q, "int"))
            else:
                raise Unsupported("loc assignment")
        o.arr[tuple(ix)] = v.arr if getattr(v, "_pd", False) else v


class SILoc:
    def __init__(self, o):
        self.o = o

    def __getitem__(self, k):
        o = self.o
        if isinstance(o, SSeries):
            if _islab(k):
                q = core.norm_index(k, o.arr._shape[0], IndexError, "single positional indexer is out-of-bounds")
                return o.arr.scalar(o.arr.elem(q), o.arr.nanat(q))
            if isinstance(k, slice):
                return o._rows(k)
            return o._take_labels(Seq(as_seq(k).length, lambda i: o._axis.label(term(as_seq(k).at(i)))))
        if not isinstance(k, tuple):
            k = (k, slice(None))
        r, c = k
        f, n = o.arr.frozen()
        if _islab(r):
            q = core.norm_index(r, o.arr._shape[0])
            row = SSeries(o.arr[SNum(q, "int"), :], o._columns, o._index.label(q))
            return row if isinstance(c, slice) and c == slice(None) else row.iloc[c]
        if _islab(c):
            q = core.norm_index(c, o.arr._shape[1])
            col = SSeries(o.arr[:, SNum(q, "int")], o._index, o._columns.label(q))
            return col if isinstance(r, slice) and r == slice(None) else col.iloc[r]
        if isinstance(r, slice) and isinstance(c, slice):
            rs, cs = _slice(r, o.arr._shape[0]), _slice(c, o.arr._shape[1])
            return SFrame(o.arr[r, c], slice_axis(o._index, *rs), slice_axis(o._columns, *cs))._clean()
        raise Unsupported("iloc with lists")

    def __setitem__(self, k, v):
        o = self.o
        if o.owner:
            CTX.events.append(("mutate", o.owner))
        if isinstance(v, SSeries):
            v = v.arr
        o.arr[k] = v


# ------------------------------------------------------------------ DataFrame
class SFrame(PD):
    def __init__(self, arr, index, columns):
        self._init()
        self.arr = arr
        self._index = index
        self._columns = columns

    @staticmethod
    def from_cols(cols):
        fs = [c.frozen() for c in cols]
        n = cols[0]._shape[0]
        nan = None
        if any(f[1] for f in fs):
            nan = lambda i, j: _sel([f[1](i) if f[1] else FALSE for f in fs], j)
        return SFrame(SArr((n, len(cols)), lambda i, j: _sel([f[0](i) for f in fs], j), "f", nan),
                      range_axis(n), range_axis(len(cols)))

    def _snap(self):
        return (self.arr, self._index, self._columns)

    def _restore(self, s):
        self.arr, self._index, self._columns = s

    @property
    def index(self):
        return SIndex(self._index)

    @index.setter
    def index(self, v):
        self._relabel("relabel")
        self._index = to_axis(v, self.arr._shape[0])

    @property
    def columns(self):
        return SIndex(self._columns)

    @columns.setter
    def columns(self, v):
        self._relabel("relabel")
        ax = to_axis(v, self.arr._shape[1])
        if not same_dim(ax.length, self.arr._shape[1]):
            raise ValueError("Length mismatch")
        self._columns = ax

    def _wrap(self, a):
        if not isinstance(a, SArr):
            return a
        if a.rank == 0:
            return a.scalar(a.elem(), a.nanat())
        if a.rank == 2 and same_dim(a._shape[0], self.arr._shape[0]) and same_dim(a._shape[1], self.arr._shape[1]):
            return SFrame(a, self._index, self._columns)
        raise Unsupported("frame op changes shape")

    def _mk(self, arr, axis):
        return SFrame(arr, axis, self._columns)

    def _align(self, o):
        if isinstance(o, SFrame):
            if not (self._index.same(o._index) and self._columns.same(o._columns)):
                raise Unsupported("frame alignment")
            return o.arr, self
        if isinstance(o, SSeries):
            if self._columns.same(o._axis):
                return o.arr, self
            raise Unsupported("frame/series alignment")
        if isinstance(o, (list, tuple, Seq)):
            o = asarr(o)
        return o, self

    def _bin_axis(self, o, axis, f):
        if axis in (0, "index") and isinstance(o, SSeries):
            if not self._index.same(o._axis):
                raise Unsupported("alignment")
            return self._wrap(f(self.arr, o.arr.reshape(-1, 1)))
        return self._op(o, f)

    def sub(self, o, axis="columns", **k): return self._bin_axis(o, axis, lambda a, b: a - b)
    def add(self, o, axis="columns", **k): return self._bin_axis(o, axis, lambda a, b: a + b)
    def mul(self, o, axis="columns", **k): return self._bin_axis(o, axis, lambda a, b: a * b)
    def div(self, o, axis="columns", **k): return self._bin_axis(o, axis, lambda a, b: a / b)
    subtract, multiply, divide = sub, mul, div

    @property
    def T(self):
        return SFrame(self.arr.T, self._columns, self._index)

    def transpose(self):
        return self.T

    def _as_seq(self):
        return self._columns.seq()

    def __iter__(self):
        return iter(self._columns.seq())

    def __contains__(self, x):
        return CTX.decide(self._columns.locate(x)[0])

    def keys(self):
        return self.columns

    def _col(self, k):
        p, q = self._columns.locate(k)
        if not CTX.decide(p):
            raise KeyError(k)
        return SSeries(self.arr[:, SNum(q, "int")], self._index, k)

    def __getitem__(self, k):
        if isinstance(k, (SLab, str)) or isinstance(k, (int, SNum)) and not isinstance(k, bool):
            return self._col(k)
        if isinstance(k, slice):
            return self._rows(k)
        if getattr(k, "_pd", False) or isinstance(k, SArr) and k.dt == "b":
            raise Unsupported("boolean frame indexing")
        return self._sel(slice(None), k)

    def __setitem__(self, k, v):
        self._relabel("mutate")
        if not isinstance(k, (SLab, str, int, SNum)):
            raise Unsupported("frame assignment")
        if isinstance(v, SSeries):
            v = reindex(v, self._index).arr
        v = asarr(v)
        fv, nv = v.frozen()
        iv_ = npx.bcast_index(v._shape, (self.arr._shape[0],))
        p, q = self._columns.locate(k)
        f, n = self.arr.frozen()
        if CTX.decide(p):
            nan = None
            if n or nv:
                nan = lambda i, j: ite(eq(j, q), nv(*iv_((i,))) if nv else FALSE, n(i, j) if n else FALSE)
            self.arr = SArr(self.arr._shape, lambda i, j: ite(eq(j, q), fv(*iv_((i,))), f(i, j)), "f", nan)
            return
        N = tt(self.arr._shape[1])
        nan = None
        if n or nv:
            nan = lambda i, j: _ite2(lt(j, N), n(i, j) if n else FALSE, nv(*iv_((i,))) if nv else FALSE)
        self.arr = SArr((self.arr._shape[0], add(N, ONE)),
                        lambda i, j: _ite2(lt(j, N), f(i, j), fv(*iv_((i,)))), "f", nan)
        self._columns = AppendAxis(self._columns, k)

    def _axis_sel(self, ax, k):
        """(kind, payload): label -> ('f', pos); list -> ('l', map, newaxis); all -> ('a',)"""
        if isinstance(k, slice):
            if k == slice(None):
                return ("a",)
            raise Unsupported("label slice")
        if _islab(k):
            p, q = ax.locate(k)
            if not CTX.decide(p):
                raise KeyError(k)
            return ("f", q)
        ks = as_seq(k)
        if ks.guard is not None:
            raise Unsupported("filtered label list")
        if ks.concrete:
            qs, labs = [], list(ks)
            for x in labs:
                p, q = ax.locate(x)
                if not CTX.decide(p):
                    raise KeyError(x)
                qs.append(SNum(q, "int"))
            return ("l", lambda i: core.pick(qs, i).t, Axis(len(qs), lambda i: core.pick(labs, i)))
        i = ivar(ks.length, "sl")
        p, q = ax.locate(ks.at(i))
        if not pv.entails(CTX.pc + [ge(i, ZERO), lt(i, tt(ks.length))], p):
            if not CTX.decide(forall(ks.length, lambda j: ax.locate(ks.at(j))[0])):
                raise KeyError("labels")
        return ("l", lambda j: ax.locate(ks.at(j))[1], to_axis(ks))

    def _sel(self, r, c):
        R, C = self._axis_sel(self._index, r), self._axis_sel(self._columns, c)
        f, n = self.arr.frozen()
        if R[0] == "a" and C[0] == "a":
            return SFrame(self.arr, self._index, self._columns)
        ra = self._index if R[0] == "a" else R[2] if R[0] == "l" else None
        ca = self._columns if C[0] == "a" else C[2] if C[0] == "l" else None
        rm = (lambda i: i) if R[0] == "a" else R[1] if R[0] == "l" else (lambda i: R[1])
        cm = (lambda i: i) if C[0] == "a" else C[1] if C[0] == "l" else (lambda i: C[1])
        if ra is None and ca is None:
            return self.arr.scalar(self.arr.elem(R[1], C[1]), self.arr.nanat(R[1], C[1]))
        if ra is None:
            return SSeries(SArr((ca.length,), lambda j: f(rm(ZERO), cm(j)), self.arr.dt,
                                (lambda j: n(rm(ZERO), cm(j))) if n else None), ca)
        if ca is None:
            return SSeries(SArr((ra.length,), lambda i: f(rm(i), cm(ZERO)), self.arr.dt,
                                (lambda i: n(rm(i), cm(ZERO))) if n else None), ra)
        return SFrame(SArr((ra.length, ca.length), lambda i, j: f(rm(i), cm(j)), self.arr.dt,
                           (lambda i, j: n(rm(i), cm(j))) if n else None), ra, ca)

    @property
    def loc(self):
        return SLoc(self)

    at = loc

    @property
    def iloc(self):
        return SILoc(self)

    iat = iloc

    def cov(self, min_periods=None, ddof=1, **k):
        if min_periods is not None:
            raise Unsupported("cov(min_periods)")
        v, x = self._valid()
        f0, n0 = self.arr.frozen()
        T_, N = self.arr._shape
        d = num(ddof)
        if n0 is None:
            mean = lambda i: div(mksum(T_, lambda t: f0(t, i)), tt(T_))
            fn = lambda i, j: div(mksum(T_, lambda t: mul(sub(f0(t, i), mean(i)), sub(f0(t, j), mean(j)))),
                                  sub(tt(T_), d))
            nan = None
            if not pv.entails(CTX.pc, gt(tt(T_), d)):
                nan = lambda i, j: le(tt(T_), d)
        else:
            both = lambda i, j: (lambda t: mul(v(t, i), v(t, j)))

            def fn(i, j):
                w = both(i, j)
                c = mksum(T_, w)
                mi = div(mksum(T_, lambda t: mul(w(t), x(t, i))), c)
                mj = div(mksum(T_, lambda t: mul(w(t), x(t, j))), c)
                return div(mksum(T_, lambda t: mul(w(t), sub(x(t, i), mi), sub(x(t, j), mj))), sub(c, d))
            nan = lambda i, j: le(mksum(T_, both(i, j)), d)
        return SFrame(SArr((N, N), fn, "f", nan), self._columns, self._columns)

    def corr(self, *a, **k):
        if a or k:
            raise Unsupported("corr options")
        c = self.cov()
        f, n = c.arr.frozen()
        if self.arr.hasnan:
            raise Unsupported("corr with NaN")
        return c._wrap(SArr(c.arr._shape, lambda i, j: div(f(i, j), sqrt(mul(f(i, i), f(j, j)))), "f", n))

    def join(self, other, how="left", **k):
        if how != "left" or k:
            raise Unsupported("join options")
        if isinstance(other, SSeries):
            other = other.to_frame()
        N, M = self.arr._shape[1], other.arr._shape[1]
        if not (isinstance(M, int) and M == 1):
            raise Unsupported("join with several columns")
        lab = other._columns.label(ZERO)
        if CTX.decide(self._columns.locate(lab)[0]):
            raise ValueError("columns overlap but no suffix specified")
        s = reindex(SSeries(other.arr[:, 0], other._index), self._index)
        r = SFrame(self.arr, self._index, self._columns)
        r[lab] = s
        return r

    def drop(self, labels=None, axis=0, columns=None, index=None, **k):
        if columns is not None:
            labels, axis = columns, 1
        if index is not None:
            labels, axis = index, 0
        if not _islab(labels):
            ks = list(as_seq(labels))
            r = self
            for x in ks:
                r = r.drop(x, axis=axis)
            return r
        ax = self._columns if axis in (1, "columns") else self._index
        probe = SSeries(SArr((ax.length,), lambda i: i, "i"), ax)
        d = drop_label1(probe, labels)
        g = d.arr.frozen()[0]
        f, n = self.arr.frozen()
        if axis in (1, "columns"):
            return SFrame(SArr((self.arr._shape[0], d._axis.length), lambda i, j: f(i, g(j)), self.arr.dt,
                               (lambda i, j: n(i, g(j))) if n else None), self._index, d._axis)
        return SFrame(SArr((d._axis.length, self.arr._shape[1]), lambda i, j: f(g(i), j), self.arr.dt,
                           (lambda i, j: n(g(i), j)) if n else None), d._axis, self._columns)

    def squeeze(self, axis=None):
        r, c = self.arr._shape
        if isinstance(c, int) and c == 1:
            if isinstance(r, int) and r == 1:
                return self.arr[0, 0]
            return SSeries(self.arr[:, 0], self._index, self._columns.label(ZERO))
        if isinstance(r, int) and r == 1:
            return SSeries(self.arr[0], self._columns)
        return self

    def reindex(self, index=None, columns=None, **k):
        r = self
        if index is not None:
            ia = to_axis(index)
            if not r._index.same(ia):
                r = r._sel(ia.seq(), slice(None))
        if columns is not None:
            ca = to_axis(columns)
            if not r._columns.same(ca):
                r = r._sel(slice(None), ca.seq())
        return SFrame(r.arr, r._index, r._columns)

    def items(self):
        return Seq(self._columns.length, lambda j: (self._columns.label(j),
                                                    SSeries(self.arr[:, SNum(j, "int")], self._index)))

    def to_csv(self, path=None, **k):
        CTX.files.append(("csv", path, self, k))

    def _py_is(self, c):
        return getattr(c, "_vf_name", None) == "DataFrame" or c is object or getattr(c, "__name__", "") == "Iterable"

    def _vsubst(self, m):
        return SFrame(self.arr._vsubst(m), self._index, self._columns)

    def _vmerge(self, c, o):
        if isinstance(o, SFrame) and self._index.same(o._index) and self._columns.same(o._columns):
            return SFrame(self.arr._vmerge(c, o.arr), self._index, self._columns)
        raise Unsupported("merge of different frames")

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        if k in REAL_FRAME:
            raise Unsupported("DataFrame.%s" % k)
        raise AttributeError("'DataFrame' object has no attribute '%s'" % k)


def _sel(xs, j):
    c = canon(j)
    if c.op == "num":
        return xs[int(c.args[0])]
    r = xs[-1]
    for k in range(len(xs) - 2, -1, -1):
        r = _ite2(eq(c, num(k)), xs[k], r)
    return r


def _ite2(c, a, b):
    c = bnf(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.sort == B:
        return or_(and_(c, a), and_(not_(c), b))
    return ite(c, a, b)


import pandas as _pd_real          # only used to classify unknown attributes
REAL_FRAME = set(dir(_pd_real.DataFrame))
REAL_SERIES = set(dir(_pd_real.Series))


def pd_matmul(a, b):
    if isinstance(a, SFrame) and isinstance(b, SSeries):
        if not a._columns.same(b._axis):
            b = _align_dot(b, a._columns)
        return SSeries(npx.np_matmul(a.arr, b.arr), a._index)
    if isinstance(a, SFrame) and isinstance(b, SFrame):
        if not a._columns.same(b._index):
            raise Unsupported("matrix alignment")
        return SFrame(npx.np_matmul(a.arr, b.arr), a._index, b._columns)
    if isinstance(a, SSeries) and isinstance(b, SSeries):
        if not a._axis.same(b._axis):
            b = _align_dot(b, a._axis)
        return npx.np_matmul(a.arr, b.arr)
    if isinstance(a, SSeries) and isinstance(b, SFrame):
        if not a._axis.same(b._index):
            raise Unsupported("matrix alignment")
        return SSeries(npx.np_matmul(a.arr, b.arr), b._columns)
    if isinstance(a, SFrame):
        r = npx.np_matmul(a.arr, asarr(b))
        if r.rank == 1:
            return SSeries(r, a._index)
        return SFrame(r, a._index, range_axis(r._shape[1]))
    if isinstance(b, SFrame):
        aa = asarr(a)
        r = npx.np_matmul(aa, b.arr)
        if r.rank == 1:
            return SSeries(r, b._columns)
        return SFrame(r, range_axis(r._shape[0]), b._columns)
    if isinstance(a, SSeries):
        return npx.np_matmul(a.arr, asarr(b))
    return npx.np_matmul(asarr(a), b.arr)


def _align_dot(b, ax):
    if not same_dim(ax.length, b._axis.length):
        raise ValueError("matrices are not aligned")
    i = ivar(ax.length, "ad")
    if not pv.entails(CTX.pc + [ge(i, ZERO), lt(i, tt(ax.length))], b._axis.locate(ax.label(i))[0]):
        raise Unsupported("dot alignment")
    return reindex(b, ax)


# ------------------------------------------------------------------ module
class FrameType:
    _vf_name = "DataFrame"
    __name__ = "DataFrame"

    def _vf_isinst(self, x):
        return isinstance(x, SFrame)

    def __call__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        if isinstance(data, SFrame):
            if index is not None or columns is not None:
                return data.reindex(index, columns)
            return SFrame(data.arr.copy() if copy else data.arr, data._index, data._columns)
        if isinstance(data, SSeries):
            return data.to_frame()
        if data is None:
            raise Unsupported("empty DataFrame")
        if isinstance(data, (SMap, dict)):
            raise Unsupported("DataFrame from dict")
        a = npx.asarr(data)
        if a.rank == 1:
            a = a.reshape(-1, 1)
        if a.rank != 2:
            raise ValueError("Must pass 2-d input")
        ia, ca = to_axis(index, a._shape[0]), to_axis(columns, a._shape[1])
        if not same_dim(ia.length, a._shape[0]) or not same_dim(ca.length, a._shape[1]):
            raise ValueError("Shape of passed values does not match the indices")
        return SFrame(a.copy() if copy else a, ia, ca)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class SeriesType:
    _vf_name = "Series"
    __name__ = "Series"

    def _vf_isinst(self, x):
        return isinstance(x, SSeries)

    def __call__(self, data=None, index=None, dtype=None, name=None, copy=None):
        if isinstance(data, SSeries):
            r = SSeries(data.arr, data._axis, name or data.name)
            return r if index is None else reindex(r, to_axis(index))
        if isinstance(data, (SMap, dict)):
            if isinstance(data, SMap):
                if data.guard is not None:
                    raise Unsupported("Series of filtered dict")
                ax = data.axis
                p = ivar(ax.length, "sd")
                e = data.at(p)
                a = asarr(e)
                f, n = a.frozen()
                snap = data.copy()
                r = SSeries(SArr((ax.length,), lambda i: _t(asarr(snap.at(i)).elem()), a.dt,
                                 (lambda i: asarr(snap.at(i)).nanat()) if n else None), ax, name)
            else:
                ks = list(data)
                if not ks:
                    r = SSeries(SArr((0,), lambda i: ZERO, "f"), Axis(0, lambda i: None), name)
                else:
                    r = SSeries(asarr(SList([data[k] for k in ks])), Axis(len(ks), lambda i: core.pick(ks, i)), name)
            return r if index is None else reindex(r, to_axis(index))
        if data is None:
            raise Unsupported("empty Series")
        a = asarr(data)
        if a.rank == 0:
            if index is None:
                raise Unsupported("scalar Series without index")
            ax = to_axis(index)
            return SSeries(npx.np_full((dim_val(ax.length),), data, dtype), ax, name)
        if a.rank != 1:
            raise ValueError("Data must be 1-dimensional")
        ax = to_axis(index, a._shape[0])
        if not same_dim(ax.length, a._shape[0]):
            raise ValueError("Length of values does not match length of index")
        return SSeries(a, ax, name)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


def _t(t):
    return t


class IndexType:
    _vf_name = "Index"
    __name__ = "Index"

    def _vf_isinst(self, x):
        return isinstance(x, SIndex)

    def __call__(self, data, **k):
        return SIndex(to_axis(data))


class PDM:
    DataFrame = FrameType()
    Series = SeriesType()
    Index = IndexType()

    @staticmethod
    def isnull(x):
        if getattr(x, "_pd", False):
            return x.isnull()
        return npx.np_isnan(x)

    isna = isnull

    @staticmethod
    def notnull(x):
        return ~PDM.isnull(x)

    @staticmethod
    def concat(objs, axis=0, **k):
        raise Unsupported("pd.concat")

    def __getattr__(self, k):
        if hasattr(_pd_real, k):
            raise Unsupported("pandas.%s" % k)
        raise AttributeError(k)


PDMOD = PDM()


# ------------------------------------------------------------------ keyword options a contract does not describe
HARMLESS = {"copy": (True,), "numeric_only": (True, False), "skipna": (True,), "min_count": (0,), "level": (None,), "limit": (None,),
            "limit_area": (None,), "downcast": (None,), "method": (None,), "subset": (None,), "thresh": (None,),
            "axis": (None, 0, "index"), "inplace": (False,), "keepdims": (False,), "ignore_index": (False,), "order": ("C", "K", None),
            "ignore_na": (False,), "min_periods": (0, None), "times": (None,), "out": (None,), "dtype": (None, float),
            "rcond": (None,), "hermitian": (False,), "UPLO": ("L",), "fill_value": (None,), "errors": ("raise", "ignore"), "freq": (None,),
            "kind": (None, "quicksort", "stable", "mergesort"), "na_position": ("last",), "casting": ("same_kind",),
            "subok": (False, True), "endpoint": (True,), "retstep": (False,), "index": (None,), "columns": (None,), "key": (None,),
            "initial": (None,), "where": (True,), "tolerance": (None,), "name": (None,)}


def _strict(f, names):
    known = {c for c in f.__code__.co_consts if isinstance(c, str)}

    @functools.wraps(f)
    def g(*a, **k):
        for x, v in k.items():
            if x in names or x in known:
                continue
            ok = HARMLESS.get(x, ())
            if not any(v is o or (type(v) is type(o) and not isinstance(v, core.Sym) and v == o) for o in ok):
                raise Unsupported("%s(%s=...)" % (f.__name__, x))
        return f(*a, **k)
    return g


def _make_strict(holder, skip=()):
    for nm, f in list(vars(holder).items()):
        st = isinstance(f, staticmethod)
        fn = f.__func__ if st else f
        if isinstance(fn, types.FunctionType) and nm not in skip and fn.__module__ in ("vf.pdx", "vf.npx") \
                and fn.__code__.co_flags & inspect.CO_VARKEYWORDS:
            co = fn.__code__
            w = _strict(fn, set(co.co_varnames[:co.co_argcount + co.co_kwonlyargcount]))
            setattr(holder, nm, staticmethod(w) if st else w)


for _h in (PD, SSeries, SFrame, SEwm, IndexType, npx.SArr, npx.NP, npx.Linalg):
    _make_strict(_h, ("to_csv", "to_numpy", "__array__"))
