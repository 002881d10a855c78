"""Symbolic values, path exploration and loop summarisation.

The real source of /repo is executed by CPython on symbolic values; this module
supplies the values, the forking of paths and the summaries of unbounded loops.
"""
import builtins as _b
import itertools
from fractions import Fraction
from . import term as tm
from .term import (T, R, I, B, L, O, tt, num, var, app, add, sub, mul, div, neg, power, eq, gt, ge, lt, le,
                   ite, and_, or_, not_, implies, iv, mksum, forall, exists, TRUE, FALSE, ZERO, ONE, INF, NAN,
                   canon, bnf, subst, ivar, fresh_name, sqrt, rpow, tabs, tmax, tmin, tsum, mkprod, mk, rng_of)
from . import prove as pv


class Unsupported(BaseException):
    """the verifier cannot follow this construct (never a verdict)"""


class Infeasible(BaseException):
    pass


class PathLimit(BaseException):
    pass


# ------------------------------------------------------------------ context
class Frame:
    def __init__(self, prefix, pc):
        self.prefix, self.cursor, self.pc = prefix, 0, list(pc)
        self.pending = []
        self.steps = 0          # explorations started from this frame


class Ctx:
    def __init__(self):
        self.reset()

    def reset(self):
        self.frames = []
        self.journals = []
        self.clock = itertools.count(1)
        self.assumptions = {}
        self.warnings = []
        self.solves = []
        self.files = []
        self.mode = "sym"
        self.maxpaths = 400
        self.unroll = 0
        self.invariants = {}
        self.cuts = {}
        self.side = []
        self.consts = {}
        self.events = []

    @property
    def pc(self):
        return self.frames[-1].pc if self.frames else []

    def assume(self, c):
        c = tt(unwrap(c))
        for x in pv.flat_and([c]):
            cx = bnf(x)
            if cx is TRUE:
                continue
            if cx is FALSE:
                raise Infeasible()
            if cx not in self.frames[-1].pc:
                self.frames[-1].pc.append(cx)

    def note(self, key, text):
        self.assumptions[key] = text

    def decide(self, c):
        c = bnf(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        f = self.frames[-1]
        if c in f.pc:
            return True
        nc = bnf(not_(c))
        if nc in f.pc:
            return False
        if f.cursor < len(f.prefix):
            r = f.prefix[f.cursor]
            f.cursor += 1
        else:
            ft = pv.feasible(f.pc, c)
            ff = pv.feasible(f.pc, nc)
            if not ft and not ff:
                raise Infeasible()
            if ft and ff:
                f.pending.append(f.prefix + [False])
                f.prefix = f.prefix + [True]
                f.cursor += 1
                r = True
            else:
                r = ft
                f.prefix = f.prefix + [r]
                f.cursor += 1
        for x in pv.flat_and([c if r else nc]):
            if x not in f.pc:
                f.pc.append(x)
        return r


CTX = Ctx()


class Outcome:
    """one explored path: pc, kind ('ret'|'exc'), value"""

    def __init__(self, pc, kind, value, extra=None):
        self.pc, self.kind, self.value, self.extra = pc, kind, value, extra


def explore(fn, pc0=(), maxpaths=None, reset=True):
    """run fn on every feasible path; returns [Outcome]"""
    outs = []
    todo = [[]]
    base = list(CTX.pc) + list(pc0)
    lim = maxpaths or CTX.maxpaths
    if CTX.frames:
        CTX.frames[-1].steps += 1
    while todo:
        prefix = todo.pop()
        fr = Frame(prefix, base)
        CTX.frames.append(fr)
        try:
            try:
                v = fn()
                outs.append(Outcome(fr.pc, "ret", v))
            except Infeasible:
                pass
            except Exception as e:          # exception of the code under verification
                if isinstance(e, (tm.Budget,)):
                    raise Unsupported("normal form budget")
                outs.append(Outcome(fr.pc, "exc", e))
        finally:
            CTX.frames.pop()
        todo.extend(fr.pending)
        if len(outs) + len(todo) > lim:
            raise PathLimit("more than %d paths" % lim)
    return outs


# ------------------------------------------------------------------ journalling of mutable objects
class Journal:
    def __init__(self):
        self.stamp = next(CTX.clock)
        self.saved = {}

    def restore(self):
        for o, (obj, s) in self.saved.items():
            obj._restore(s)


def touch(obj):
    for j in CTX.journals:
        if obj._born < j.stamp and id(obj) not in j.saved:
            j.saved[id(obj)] = (obj, obj._snap())


# ------------------------------------------------------------------ scalars
def unwrap(x):
    if isinstance(x, (SNum, SBool, SLab)):
        return x.t
    return x


def term(x):
    """term of a scalar-like value"""
    if isinstance(x, T):
        return x
    if isinstance(x, (SNum, SBool, SLab)):
        return x.t
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, float, Fraction)):
        return tt(x)
    if isinstance(x, str):
        return app("lit:" + x, sort=L)
    if x is None:
        return app("lit:None", sort=L)
    h = getattr(x, "_scalar_term", None)
    if h is not None:
        return h()
    raise Unsupported("not a scalar: %r" % (type(x),))


def is_scalar(x):
    return isinstance(x, (SNum, SBool, int, float, Fraction))


class Sym:
    _vf = True


def _foreign(o):
    return getattr(o, "_vf_priority", 0) > 0


def _bin(fn, r=False):
    def op(self, o):
        if _foreign(o) or not (is_scalar(o)):
            if isinstance(o, (list, tuple)) or True:
                return NotImplemented
        a, b = (term(o), self.t) if r else (self.t, term(o))
        return SNum(fn(a, b), join_py(self, o, fn))
    return op


def pyof(x):
    if isinstance(x, SNum):
        return x.py
    if isinstance(x, bool):
        return "int"
    if isinstance(x, int):
        return "int"
    if isinstance(x, SBool):
        return "int"
    return "float"


def join_py(a, b, fn):
    p, q = pyof(a), pyof(b)
    npy = p.startswith("np") or q.startswith("np")
    isint = p in ("int", "npint") and q in ("int", "npint")
    if fn is div or fn is rdiv:
        isint = False
    return ("np" if npy else "") + ("int" if isint else "float")


def rdiv(a, b):
    return div(a, b)


def _pow(a, b):
    if b.op == "num":
        e = b.args[0]
        if e.denominator == 1 and abs(e) <= 64:
            return power(a, int(e))
    return rpow(a, b)


def floor_term(t):
    t = canon(t)
    if t.op == "num":
        return num(t.args[0].__floor__())
    if t.sort == I:
        return t
    return app("floor", t, sort=I)


def round_term(t, k):
    if t.op == "ite":
        return ite(t.args[0], round_term(t.args[1], k), round_term(t.args[2], k))
    if t.op == "num" and k.op == "num":
        return num(_b.round(Fraction(t.args[0]), int(k.args[0])), tm.R)
    if k.op == "num" and k.args[0] == 0:
        return t if canon(t).sort == I else app("rint", t, sort=I)
    return app("round", t, k)


def trunc_term(t):
    t = canon(t)
    if t.sort == I:
        return t
    return ite(ge(t, ZERO), floor_term(t), neg(floor_term(neg(t))))


def intdiv_term(a, b):
    a, b = canon(a), canon(b)
    if a.op == "num" and b.op == "num":
        return num(a.args[0] // b.args[0])
    if a.sort == I and b.sort == I:
        return app("tdiv", a, b, sort=I)
    return floor_term(div(a, b))


def divmod_term(t, k):
    """(t // k, t % k) for a positive number k; exact when the coefficients of t allow it"""
    p = tm.nf(t)
    c = p.get((), 0)
    if all(v % k == 0 for m, v in p.items() if m):
        r = c % k
        return canon(mul(num(Fraction(1, k)) if False else tm.pterm({m: v / k for m, v in tm.nf(sub(t, num(r))).items()}), ONE)), num(r)
    d = intdiv_term(t, num(k))
    return d, canon(sub(t, mul(num(k), d)))


def mod_term(a, b):
    a, b = canon(a), canon(b)
    if a.op == "num" and b.op == "num":
        return num(a.args[0] % b.args[0])
    if a.sort == I and b.sort == I:
        return app("mod", a, b, sort=I)
    return sub(a, mul(b, floor_term(div(a, b))))


class SNum(Sym):
    __slots__ = ("t", "py")

    def __init__(self, t, py=None):
        self.t = t
        if py is None:
            py = "int" if t.sort == I else "float"
        self.py = py

    __add__ = _bin(add)
    __radd__ = _bin(add, True)
    __sub__ = _bin(sub)
    __rsub__ = _bin(sub, True)
    __mul__ = _bin(mul)
    __truediv__ = _bin(div)
    __rtruediv__ = _bin(div, True)
    __pow__ = _bin(_pow)
    __rpow__ = _bin(_pow, True)
    __floordiv__ = _bin(intdiv_term)
    __rfloordiv__ = _bin(intdiv_term, True)
    __mod__ = _bin(mod_term)
    __rmod__ = _bin(mod_term, True)

    def __rmul__(self, o):
        if isinstance(o, list) and self.py in ("int", "npint"):
            return repeat_list(o, self)
        if not is_scalar(o):
            return NotImplemented
        return SNum(mul(term(o), self.t), join_py(self, o, mul))

    def __neg__(self):
        return SNum(neg(self.t), self.py)

    def __pos__(self):
        return self

    def __abs__(self):
        return SNum(tabs(self.t), self.py)

    def __divmod__(self, o):
        return self // o, self % o

    def _cmp(self, o, f):
        if o is None or isinstance(o, str):
            return NotImplemented
        if not is_scalar(o):
            return NotImplemented
        return SBool(f(self.t, term(o)))

    def __lt__(self, o):
        return self._cmp(o, lt)

    def __le__(self, o):
        return self._cmp(o, le)

    def __gt__(self, o):
        return self._cmp(o, gt)

    def __ge__(self, o):
        return self._cmp(o, ge)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, eq)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        r = self._cmp(o, eq)
        return NotImplemented if r is NotImplemented else SBool(not_(r.t))

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        return CTX.decide(not_(eq(self.t, ZERO)))

    def __index__(self):
        c = canon(self.t)
        if c.op == "num" and c.args[0].denominator == 1:
            return int(c.args[0])
        raise Unsupported("symbolic integer used as a concrete index: %s" % (self.t,))

    def __int__(self):
        return self.__index__()

    def __float__(self):
        c = canon(self.t)
        if c.op == "num":
            return float(c.args[0])
        raise Unsupported("symbolic number forced to a machine float")

    def __round__(self, nd=None):
        return SNum(round_term(self.t, num(nd or 0)), self.py if nd is not None else "int")

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "<%s %s>" % (self.py, self.t)

    __str__ = __repr__

    def _py_is(self, c):
        if c is float:
            return self.py in ("float", "npfloat")
        if c is int:
            return self.py == "int"
        nm = getattr(c, "__name__", "")
        if nm in ("floating", "float64"):
            return self.py == "npfloat"
        if nm in ("integer", "int64"):
            return self.py == "npint"
        if nm in ("number", "generic"):
            return self.py.startswith("np")
        return c is object

    # numpy scalar API
    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def dtype(self):
        from . import npx
        return npx.DType("i" if self.py in ("int", "npint") else "f")

    def item(self):
        return SNum(self.t, "int" if self.py.endswith("int") else "float")

    def copy(self):
        return self

    def round(self, nd=0):
        return SNum(round_term(self.t, num(unwrap_int(nd))), self.py)

    def is_integer(self):
        return SBool(eq(self.t, floor_term(self.t)))

    @property
    def value(self):
        return self

    def squeeze(self):
        return self

    def sum(self):
        return self

    def flatten(self):
        raise Unsupported("flatten of scalar")

    @property
    def T(self):
        return self


def unwrap_int(x):
    if isinstance(x, SNum):
        return x.__index__()
    return int(x)


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = bnf(t)

    def __bool__(self):
        return CTX.decide(self.t)

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(and_(self.t, term(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(or_(self.t, term(o)))
        return NotImplemented

    __ror__ = __or__

    def __invert__(self):
        return SBool(not_(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(tm.iff(self.t, term(o)))
        if isinstance(o, (int, float, SNum)):
            return SBool(eq(iv(self.t), term(o)))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SBool(not_(r.t))

    def __hash__(self):
        return hash(self.t)

    def _num(self):
        return SNum(iv(self.t), "int")

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def _py_is(self, c):
        return c is bool or c is object or c is int

    def any(self):
        return self

    all = any

    def item(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def __format__(self, spec):
        return "<symbool>"

    def __repr__(self):
        return "<bool %s>" % (self.t,)


class SLab(Sym):
    """a label (ticker, sector name, dictionary key...)"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, SLab):
            return SBool(eq(self.t, o.t))
        if isinstance(o, str):
            return SBool(eq(self.t, term(o)))
        if o is None:
            return SBool(eq(self.t, term(None)))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SBool(not_(r.t))

    def __hash__(self):
        return 7

    def _py_is(self, c):
        return c is str or c is object

    def __format__(self, spec):
        return "<label>"

    def __lt__(self, o):
        return SBool(gt(app("ord", term(o)), app("ord", self.t)))

    def __gt__(self, o):
        return SBool(gt(app("ord", self.t), app("ord", term(o))))

    def __repr__(self):
        return "<label %s>" % (self.t,)


class Poison:
    """loop-carried value the summariser could not havoc; any use is Unsupported"""

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def __getattribute__(self, k):
        if k in ("_why", "__class__"):
            return object.__getattribute__(self, k)
        raise Unsupported("loop-carried value: " + object.__getattribute__(self, "_why"))

    def _u(self, *a, **k):
        raise Unsupported("loop-carried value: " + object.__getattribute__(self, "_why"))
    __add__ = __radd__ = __mul__ = __call__ = __iter__ = __len__ = __getitem__ = __lt__ = __gt__ = __eq__ = __bool__ = _u
    __le__ = __ge__ = __sub__ = __rsub__ = __rmul__ = __setitem__ = __contains__ = __truediv__ = _u
    __hash__ = None


class Unbound:
    pass


UNBOUND = Unbound()


# ------------------------------------------------------------------ generic value operations
def vsubst(v, m):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, SNum):
        return SNum(subst(v.t, m), v.py)
    if isinstance(v, SBool):
        return SBool(subst(v.t, m))
    if isinstance(v, SLab):
        return SLab(subst(v.t, m))
    if isinstance(v, tuple):
        return tuple(vsubst(x, m) for x in v)
    if v is None or isinstance(v, (str, int, float, bool, Poison, Unbound)):
        return v
    h = getattr(v, "_vsubst", None)
    if h is not None:
        return h(m)
    if isinstance(v, list) and not isinstance(v, SList):
        return [vsubst(x, m) for x in v]
    if callable(v):
        return v
    raise Unsupported("substitution in %s" % type(v))


def vmerge(c, a, b):
    """value that is a when c holds and b otherwise"""
    if a is b:
        return a
    if is_scalar(a) and is_scalar(b):
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return SBool(ite(c, term(a), term(b)))
        ta, tb = term(a), term(b)
        if ta.sort == B:
            ta = iv(ta)
        if tb.sort == B:
            tb = iv(tb)
        py = pyof(a) if pyof(a) == pyof(b) else "float"
        return SNum(ite(c, ta, tb), py)
    if isinstance(a, (SLab, str, type(None))) and isinstance(b, (SLab, str, type(None))):
        return SLab(ite(c, term(a), term(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vmerge(c, x, y) for x, y in zip(a, b))
    h = getattr(a, "_vmerge", None)
    if h is not None:
        r = h(c, b)
        if r is not None:
            return r
    raise Unsupported("cannot merge %s with %s" % (type(a), type(b)))


def veq(a, b):
    """structural equality of values as a term, or None when not comparable"""
    if a is b:
        return TRUE
    if is_scalar(a) and is_scalar(b) or isinstance(a, (SLab, str)) and isinstance(b, (SLab, str)):
        return eq(term(a), term(b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        cs = [veq(x, y) for x, y in zip(a, b)]
        return None if None in cs else and_(*cs)
    return None


# ------------------------------------------------------------------ sequences
def as_dim(x):
    """dimension: python int when concrete, else int term"""
    t = term(x) if not isinstance(x, T) else x
    t = canon(t)
    if t.op == "num":
        return int(t.args[0])
    return t


def dim_val(d):
    """python-visible value of a dimension"""
    return d if isinstance(d, int) else SNum(d, "int")


def same_dim(a, b):
    a, b = as_dim(a), as_dim(b)
    if a is b or a == b:
        return True
    return tm.canon(sub(tt(a), tt(b))) is ZERO or pv.entails(CTX.pc, eq(tt(a), tt(b)))


class Seq(Sym):
    """immutable sequence of possibly symbolic length; optional guard = filter"""
    _vf_seq = True

    def __init__(self, length, at, guard=None, kind="list"):
        self.length = as_dim(length)
        self._at = at
        self.guard = guard
        self.kind = kind
        self._born = next(CTX.clock)

    @property
    def concrete(self):
        return isinstance(self.length, int) and self.guard is None

    def at(self, i):
        return self._at(tt(i))

    def __len__(self):
        if self.concrete:
            return self.length
        raise Unsupported("native len of symbolic sequence")

    def vf_len(self):
        if self.guard is not None:
            return SNum(mksum(self.length, lambda i: iv(self.guard(i))), "int")
        return dim_val(self.length)

    def __iter__(self):
        if self.concrete:
            for i in range(self.length):
                yield self.at(num(i))
            return
        raise Unsupported("native iteration over a symbolic sequence")

    def __getitem__(self, i):
        if isinstance(i, slice):
            return slice_seq(self, i)
        if self.guard is not None:
            raise Unsupported("indexing a filtered sequence")
        return self.at(norm_index(i, self.length, IndexError, "list index out of range"))

    def __eq__(self, o):
        if isinstance(o, (Seq, list, tuple)):
            o = as_seq(o)
            if not same_dim(self.length, o.length):
                return SBool(and_(eq(tt(self.length), tt(o.length)), FALSE)) if False else False
            return SBool(forall(self.length, lambda i: veq(self.at(i), o.at(i))))
        return False

    def __hash__(self):
        return id(self)

    def __contains__(self, x):
        return contains(self, x)

    def index(self, x):
        # first position holding x; ValueError when absent
        loc = locate(self, x)
        if loc is None:
            loc = self._first(x)
        present, pos = loc
        if not CTX.decide(present):
            raise ValueError("%r is not in list" % (x,))
        return SNum(pos, "int")

    def _first(self, x):
        """(present, first position) of a number"""
        if self.guard is not None:
            raise Unsupported("index() in a filtered sequence")
        v = term(x)
        i = ivar(self.length, "ix")
        e = eq(term(self.at(i)), v)
        present = mk("exists", (i, e), B)
        if CTX.decide(present):
            k = var(fresh_name("index"), I, tt(self.length))
            CTX.assume(and_(ge(k, ZERO), lt(k, tt(self.length)), subst(e, {i: k})))
            CTX.assume(forall(k, lambda j: not_(subst(e, {i: j}))))
            return TRUE, k
        return FALSE, ZERO

    def __add__(self, o):
        return concat(self, as_seq(o))

    def __radd__(self, o):
        return concat(as_seq(o), self)

    def __mul__(self, k):
        raise Unsupported("sequence repetition")

    def _py_is(self, c):
        return c is object or c is {"list": list, "tuple": tuple}.get(self.kind) or \
            getattr(c, "__name__", "") in ("Iterable", "Sequence")

    def _vmerge(self, c, o):
        if not isinstance(o, (Seq, SList)):
            return None
        o = as_seq(o)
        if self.guard is not None or o.guard is not None:
            return None
        a, b = self, o
        n = a.length if same_dim(a.length, b.length) else ite(c, tt(a.length), tt(b.length))
        return Seq(n, lambda i: vmerge(c, a.at(i), b.at(i)), None, self.kind)

    def _vsubst(self, m):
        at, g = self._at, self.guard
        return Seq(subst(tt(self.length), m), lambda i: vsubst(at(i), m),
                   (lambda i: subst(g(i), m)) if g else None, self.kind)

    def copy(self):
        return self

    def tolist(self):
        return self

    def __repr__(self):
        return "<seq len=%s>" % (self.length,)


def norm_index(i, n, exc=IndexError, msg="index out of range", check=True):
    """normalise python index i (maybe negative) w.r.t. dimension n -> term"""
    t = canon(term(i))
    if t.sort != I:
        raise Unsupported("non-integer index")
    n_ = tt(n)
    if t.op == "num" and t.args[0] < 0:
        t = canon(add(n_, t))
    elif t.op != "num":
        lo = ge(t, ZERO)
        if bnf(lo) is not TRUE and not pv.entails(CTX.pc, lo):
            if not CTX.decide(lo):
                t = canon(add(n_, t))
    if check:
        ok = and_(ge(t, ZERO), lt(t, n_))
        if bnf(ok) is not TRUE and not pv.entails(CTX.pc, ok):
            if not CTX.decide(ok):
                raise exc(msg)
    return t


def as_seq(x):
    if isinstance(x, Seq):
        return x
    if isinstance(x, SList):
        return x.seq()
    if isinstance(x, (list, tuple)):
        xs = list(x)
        return Seq(len(xs), lambda i: pick(xs, i))
    h = getattr(x, "_as_seq", None)
    if h is not None:
        return h()
    raise Unsupported("not a sequence: %s" % type(x))


def pick(xs, i):
    c = canon(i)
    if c.op == "num":
        return xs[int(c.args[0])]
    if not xs:
        raise Unsupported("symbolic index into empty list")
    r = xs[-1]
    for k in range(len(xs) - 2, -1, -1):
        r = vmerge(eq(c, num(k)), xs[k], r)
    return r


def concat(a, b):
    if a.guard or b.guard:
        raise Unsupported("concatenation of filtered sequences")
    n = add(tt(a.length), tt(b.length))
    la = tt(a.length)
    if a.concrete and b.concrete:
        xs = list(a) + list(b)
        return Seq(len(xs), lambda i: pick(xs, i))

    def at(i):
        c = bnf(lt(i, la))
        if c is TRUE or pv.entails(CTX.pc, c):
            return a.at(i)
        if c is FALSE or pv.entails(CTX.pc, not_(c)):
            return b.at(canon(sub(i, la)))
        return vmerge(c, a.at(i), b.at(canon(sub(i, la))))
    return Seq(n, at)


def slice_bounds(s, n):
    """(start, stop_len, step) of a unit/neg step slice on dimension n, as terms"""
    step = 1 if s.step is None else unwrap_int(s.step)
    n_ = tt(n)

    def clamp(x, default):
        if x is None:
            return default
        t = canon(term(x))
        if t.op == "num" and t.args[0] < 0:
            t = canon(add(n_, t))
            lo = bnf(ge(t, ZERO))
            if lo is not TRUE and not pv.entails(CTX.pc, lo):
                t = tmax(t, ZERO)
            return t
        if bnf(ge(t, ZERO)) is not TRUE and not pv.entails(CTX.pc, ge(t, ZERO)):
            raise Unsupported("possibly negative symbolic slice bound")
        hi = bnf(le(t, n_))
        if hi is TRUE or pv.entails(CTX.pc, hi):
            return t
        return tmin(t, n_)
    if step == 1:
        a, z = clamp(s.start, ZERO), clamp(s.stop, n_)
        ln = canon(sub(z, a))
        nn = bnf(ge(ln, ZERO))
        if nn is not TRUE and not pv.entails(CTX.pc, nn):
            ln = canon(tmax(ln, ZERO))
        return a, ln, 1
    if step == -1 and s.start is None and s.stop is None:
        return canon(sub(n_, ONE)), n_, -1
    if isinstance(n, int):
        a, z, st = slice(*[None if q is None else unwrap_int(q) for q in (s.start, s.stop, s.step)]).indices(n)
        ln = len(range(a, z, st))
        return num(a), num(ln), st
    raise Unsupported("slice step %r" % (s.step,))


def slice_seq(q, s):
    if q.guard:
        raise Unsupported("slicing filtered sequence")
    a, ln, st = slice_bounds(s, q.length)
    return Seq(ln, lambda i: q.at(canon(add(a, mul(st, i)))), kind=q.kind)


def contains(seq, x):
    seq = as_seq(seq)
    if seq.concrete:
        return any(bool(e == x) for e in seq)
    loc = locate(seq, x)
    if loc is not None:
        return SBool(loc[0]).__bool__()
    return SBool(exists(seq.length, lambda i: and_(seq.guard(i) if seq.guard else TRUE,
                                                   term(seq.at(i) == x)))).__bool__()


def locate(seq, x):
    """(present, position) of label x in a symbolic sequence of distinct labels"""
    ax = getattr(seq, "axis", None)
    if ax is not None:
        return ax.locate(x)
    return None


class Grown(Seq):
    """list in an arbitrary loop iteration: unknown earlier elements, then those appended in this one"""

    def __init__(self, base, tail):
        self.base, self.tail = base, tail

        def at(j):
            d = canon(sub(tt(j), base.t))
            if d.op == "num" and 0 <= d.args[0] < len(tail):
                return tail[int(d.args[0])]
            raise Unsupported("read of a list under construction in a loop")
        super().__init__(base + len(tail) if tail else base, at)

    def _havoc_marks(self):
        return {self.base.t}, set()


def if_at(c, a, b):
    """a() where c holds, b() elsewhere"""
    c = bnf(c)
    if c is TRUE or c is not FALSE and CTX.frames and pv.entails(CTX.pc, c):
        return a()
    if c is FALSE or CTX.frames and pv.entails(CTX.pc, not_(c)):
        return b()
    return vmerge(c, a(), b())


class SList(list):
    """python list with journalled mutation and possibly one symbolic body"""
    _vf = True

    def __init__(self, it=(), sym=None):
        super().__init__(it)
        self.sym = sym
        self._born = next(CTX.clock)
        self.owner = None

    def _snap(self):
        return (list.copy(self) if self.sym is None else [], self.sym)

    def _restore(self, s):
        super().clear()
        super().extend(s[0])
        self.sym = s[1]

    def seq(self):
        if self.sym is not None:
            return self.sym
        xs = list(super().__iter__())
        return Seq(len(xs), lambda i: pick(xs, i))

    def _mut(self):
        touch(self)
        if self.owner:
            CTX.events.append(("mutate", self.owner, self))

    def _havoc_elements(self, key):
        q = self.seq()
        k = ivar(q.length, "he")
        e = q.at(k)
        if q.guard is not None or not isinstance(e, (SNum, int, float)) or isinstance(e, bool):
            raise Unsupported("loop modifies a list of %s" % type(e).__name__)
        nm, py = fresh_name("hv:list"), pyof(e)
        return ([], Seq(q.length, lambda j: SNum(app(nm, j, sort=I if py.endswith("int") else R), py)))

    # ---- effect of a loop on the list: elements appended in every iteration
    def _havoc_state(self, key):
        return Grown(SNum(var(fresh_name("hv:len"), I), "int"), [])

    def _enter_havoc(self, st):
        list.clear(self)
        self.sym = st

    def _summarise(self, init, h, effs, i, N, g, marks):
        self._restore(init)
        tails = []
        for c, a in effs:
            q = h if a is None else a[1]
            if not isinstance(q, Grown) or q.base is not h.base:
                raise Unsupported("loop changes a list other than by appending")
            tails.append((c, q.tail))
        counts = {len(t) for _, t in tails}
        if counts == {0}:
            return
        if any(mentions(x, marks) for _, t in tails for x in t):
            raise Unsupported("appended value depends on earlier iterations")
        if counts == {1} and g is None:
            v = merged([(c, t[0]) for c, t in tails])
            new = Seq(N, lambda j: vsubst(v, {i: tt(j)}))
        elif counts <= {0, 1}:
            v = merged([(c, t[0]) for c, t in tails if t])
            gd = or_(*[c for c, t in tails if t])
            if g is not None:
                gd = and_(g(i), gd)
            new = Seq(N, lambda j: vsubst(v, {i: tt(j)}), lambda j: subst(gd, {i: tt(j)}))
        else:
            raise Unsupported("loop appends several elements")
        old = self.seq()
        self.sym = new if old.concrete and old.length == 0 else concat(old, new)
        list.clear(self)

    def append(self, x):
        self._mut()
        if isinstance(self.sym, Grown):
            self.sym = Grown(self.sym.base, self.sym.tail + [x])
        elif self.sym is not None:
            self.sym = concat(self.sym, as_seq([x]))
        else:
            super().append(x)

    def extend(self, xs):
        self._mut()
        s = as_seq(xs) if not isinstance(xs, (list, tuple)) or isinstance(xs, SList) else None
        if self.sym is None and (s is None or s.concrete):
            super().extend(list(xs))
        else:
            self.sym = concat(self.seq(), as_seq(xs))
            super().clear()

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def insert(self, i, x):
        self._mut()
        if self.sym is not None:
            raise Unsupported("insert into symbolic list")
        super().insert(unwrap_int(i), x)

    def pop(self, i=-1):
        self._mut()
        if self.sym is not None:
            raise Unsupported("pop from symbolic list")
        return super().pop(unwrap_int(i))

    def remove(self, x):
        self._mut()
        if self.sym is not None:
            k = self.sym.index(x)
            SList.__delitem__(self, k)
            return
        for k, e in enumerate(list.copy(self)):
            if e is x or bool(e == x):
                super().__delitem__(k)
                return
        raise ValueError("list.remove(x): x not in list")

    def clear(self):
        self._mut()
        self.sym = None
        super().clear()

    def sort(self, key=None, reverse=False):
        self._mut()
        r = vf_sorted(self, key=key, reverse=reverse)
        self._restore(r._snap())

    def reverse(self):
        self._mut()
        if self.sym is not None:
            raise Unsupported("reverse symbolic list")
        super().reverse()

    def __setitem__(self, i, v):
        self._mut()
        if self.sym is not None or isinstance(i, SNum) and canon(i.t).op != "num":
            if isinstance(i, slice):
                raise Unsupported("slice assignment to symbolic list")
            s = self.seq()
            k = norm_index(i, s.length)
            old = s
            self.sym = Seq(s.length, lambda j: vmerge(bnf(eq(j, k)), v, old.at(j))
                           if bnf(eq(j, k)) not in (TRUE, FALSE) else (v if bnf(eq(j, k)) is TRUE else old.at(j)))
            super().clear()
            return
        super().__setitem__(i if isinstance(i, slice) else unwrap_int(i), v)

    def __delitem__(self, i):
        self._mut()
        if self.sym is not None or isinstance(i, SNum) and canon(i.t).op != "num":
            if isinstance(i, slice):
                raise Unsupported("del of a slice of a symbolic list")
            s = self.seq()
            if s.guard is not None:
                raise Unsupported("del in a filtered sequence")
            k = norm_index(i, s.length)
            self.sym = Seq(as_dim(sub(tt(s.length), ONE)), lambda j: if_at(lt(j, k), lambda: s.at(j), lambda: s.at(canon(add(j, ONE)))))
            list.clear(self)
            return
        super().__delitem__(i if isinstance(i, slice) else unwrap_int(i))

    def __getitem__(self, i):
        if self.sym is not None:
            r = self.sym[i]
            return r
        if isinstance(i, slice):
            if any(isinstance(q, SNum) and canon(q.t).op != "num" for q in (i.start, i.stop, i.step)):
                return slice_seq(self.seq(), i)
            return SList(super().__getitem__(slice(*[None if q is None else unwrap_int(q)
                                                     for q in (i.start, i.stop, i.step)])))
        if isinstance(i, SNum) and canon(i.t).op != "num":
            s = self.seq()
            return s.at(norm_index(i, s.length))
        return super().__getitem__(unwrap_int(i))

    def __iter__(self):
        if self.sym is not None:
            return iter(self.sym)
        return super().__iter__()

    def __len__(self):
        if self.sym is not None:
            return len(self.sym)
        return super().__len__()

    def __bool__(self):
        if self.sym is not None:
            return SNum(tt(self.sym.length)).__bool__() if self.sym.guard is None else \
                SBool(exists(self.sym.length, self.sym.guard)).__bool__()
        return super().__len__() > 0

    def vf_len(self):
        if self.sym is not None:
            return self.sym.vf_len()
        return super().__len__()

    def __contains__(self, x):
        return contains(self, x)

    def index(self, x):
        if self.sym is not None:
            return self.sym.index(x)
        for k in range(super().__len__()):
            e = super().__getitem__(k)
            if e is x or bool(e == x):
                return k
        raise ValueError("%r is not in list" % (x,))

    def __add__(self, o):
        if self.sym is None and not (isinstance(o, SList) and o.sym is not None) and isinstance(o, list):
            return SList(list(super().__iter__()) + list(o))
        return SList(sym=concat(self.seq(), as_seq(o)))

    def __radd__(self, o):
        return SList(sym=None, it=list(o) + list(self)) if self.sym is None else SList(sym=concat(as_seq(o), self.sym))

    def __mul__(self, k):
        return repeat_list(self, k)

    __rmul__ = __mul__

    def __eq__(self, o):
        if self.sym is None and isinstance(o, (list, tuple)) and not (isinstance(o, SList) and o.sym is not None):
            return super().__len__() == len(o) and all(bool(a == b) for a, b in zip(super().__iter__(), o))
        return self.seq() == o

    def __ne__(self, o):
        return not bool(self == o)

    def __hash__(self):
        return id(self)

    def copy(self):
        return SList(list.copy(self), self.sym)

    def _vmerge(self, c, o):
        r = self.seq()._vmerge(c, o)
        return None if r is None else SList(sym=r)

    def _vsubst(self, m):
        if self.sym is not None:
            return SList(sym=self.sym._vsubst(m))
        return SList([vsubst(x, m) for x in super().__iter__()])

    def _py_is(self, c):
        return c is list or c is object

    def count(self, x):
        raise Unsupported("list.count")


def repeat_list(lst, k):
    k = as_dim(k) if not isinstance(k, int) else k
    if isinstance(k, int):
        return SList(list(lst) * k)
    if len(lst) != 1:
        raise Unsupported("repeat of a long list")
    x = list(lst)[0]
    return SList(sym=Seq(k, lambda i: x))


# ------------------------------------------------------------------ maps
class Axis:
    """labelled axis: length and label(i); locate(label) -> (present, pos)"""

    def __init__(self, length, label, locate=None, uid=None, kind="labels"):
        self.length = as_dim(length)
        self._label = label
        self._locate = locate
        self.uid = uid if uid is not None else fresh_name("ax")
        self.kind = kind

    def label(self, i):
        r = self._label(tt(i))
        return r

    def locate(self, x):
        if self._locate is not None:
            r = self._locate(x)
            if r is not None:
                return r
        if isinstance(self.length, int):
            pos = num(0)
            present = FALSE
            for k in range(self.length - 1, -1, -1):
                c = term(self.label(num(k)) == x)
                pos = ite(c, num(k), pos)
                present = or_(present, c)
            return present, pos
        raise Unsupported("label lookup on this axis")

    def same(self, o):
        if self is o or self.uid == o.uid:
            return True
        if not same_dim(self.length, o.length):
            return False
        if isinstance(self.length, int):
            if self.length == 0:
                return True
            return all(pv.entails(CTX.pc, term(self.label(num(k)) == o.label(num(k)))) for k in range(self.length))
        i = ivar(self.length)
        return pv.entails(CTX.pc, term(self.label(i) == o.label(i)))

    def seq(self):
        s = Seq(self.length, lambda i: self.label(i))
        s.axis = self
        return s


def range_axis(n):
    n = as_dim(n)

    def locate(x):
        if isinstance(x, (SNum, int)) and not isinstance(x, bool):
            t = term(x)
            return and_(ge(t, ZERO), lt(t, tt(n))), t
        if isinstance(x, (SLab, str)):
            return FALSE, ZERO
        return None
    return Axis(n, lambda i: SNum(i, "int"), locate, uid=("range", tt(n)), kind="range")


def label_axis(name, n, index=None, inverse=None, present=None):
    """axis of distinct labels lab:name(g(i)); g defaults to identity"""
    n = as_dim(n)
    g = index or (lambda i: i)

    def locate(x):
        t = canon(term(x))
        if t.op == "ite":
            a = locate(SLab(t.args[1]))
            b = locate(SLab(t.args[2]))
            return or_(and_(t.args[0], a[0]), and_(not_(t.args[0]), b[0])), ite(t.args[0], a[1], b[1])
        if t.op == "app" and t.args[0] == "lab:" + name:
            j = t.args[1]
            p = inverse(j) if inverse else j
            if present is not None:
                return present(p), p
            return and_(ge(p, ZERO), lt(p, tt(n))), p
        if t.op == "app" and (t.args[0].startswith("lab:") or t.args[0].startswith("lit:")):
            return FALSE, ZERO
        # unknown label: position function with defining properties
        p = app("pos:" + name, t, sort=I)
        return and_(ge(p, ZERO), lt(p, tt(n)), eq(app("lab:" + name, g(p), sort=L), t)), p
    return Axis(n, lambda i: SLab(app("lab:" + name, g(i), sort=L)), locate,
                uid=("lab", name, tt(n), canon(g(var("#probe", I)))))


class SMap(dict, Sym):
    """dict from labels to values over an axis, with optional guard (subset)"""
    _vf = True

    def __init__(self, axis=None, at=None, guard=None, cls=dict, items=None):
        dict.__init__(self)
        self.axis = axis
        self._at = at
        self.guard = guard
        self.cls = cls
        self.over = []            # later writes: (key term-value, value)
        self._born = next(CTX.clock)
        self.owner = None
        if items is not None:
            items = list(items)
            ks = [k for k, _ in items]
            vs = [v for _, v in items]
            self.axis = Axis(len(ks), lambda i: pick(ks, i))
            self._at = lambda i: pick(vs, i)

    def _snap(self):
        return (self.axis, self._at, self.guard, list(self.over))

    def _restore(self, s):
        self.axis, self._at, self.guard, self.over = s[0], s[1], s[2], list(s[3])

    def at(self, i):
        v = self._at(tt(i))
        for k, nv in self.over:
            c = bnf(term(self.axis.label(i) == k))
            v = nv if c is TRUE else v if c is FALSE else vmerge(c, nv, v)
        return v

    def has(self, k):
        if not isinstance(k, (SLab, str, SNum, int)):
            return FALSE, ZERO
        pr, pos = self.axis.locate(k)
        if self.guard is not None:
            pr = and_(pr, self.guard(pos))
        return pr, pos

    def __contains__(self, k):
        return CTX.decide(self.has(k)[0])

    def __getitem__(self, k):
        pr, pos = self.has(k)
        if not CTX.decide(pr):
            raise KeyError(k)
        return self.at(pos)

    def get(self, k, d=None):
        pr, pos = self.has(k)
        pr = bnf(pr)
        if pr is TRUE or pv.entails(CTX.pc, pr):
            return self.at(pos)
        if pr is FALSE:
            return d
        v = self.at(pos)
        try:
            return vmerge(pr, v, d)
        except Unsupported:
            return v if CTX.decide(pr) else d

    def __setitem__(self, k, v):
        touch(self)
        if self.owner:
            CTX.events.append(("mutate", self.owner, self))
        pr, pos = self.has(k)
        if pv.entails(CTX.pc, pr):
            self.over.append((k, v))
            return
        if isinstance(self.axis.length, int) and self.guard is None:
            if CTX.decide(pr):
                self.over.append((k, v))
                return
            ks = [self.axis.label(num(i)) for i in range(self.axis.length)] + [k]
            vs = [self.at(num(i)) for i in range(self.axis.length)] + [v]
            self.axis = Axis(len(ks), lambda i: pick(ks, i))
            self._at = lambda i: pick(vs, i)
            self.over = []
            return
        raise Unsupported("adding a key to a symbolic dict")

    def _item_seq(self, f):
        s = Seq(self.axis.length, f, self.guard)
        return s

    def keys(self):
        s = self._item_seq(lambda i: self.axis.label(i))
        if self.guard is None:
            s.axis = self.axis
        s.of_map = self
        return s

    def values(self):
        return self._item_seq(lambda i: self.at(i))

    def items(self):
        return self._item_seq(lambda i: (self.axis.label(i), self.at(i)))

    def _as_seq(self):
        return self.keys()

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.keys())

    def vf_len(self):
        return self.keys().vf_len()

    def __bool__(self):
        if self.guard is None:
            return CTX.decide(gt(tt(self.axis.length), ZERO))
        return CTX.decide(exists(self.axis.length, self.guard))

    def copy(self):
        m = SMap(self.axis, self._at, self.guard, self.cls)
        m.over = list(self.over)
        return m

    def update(self, o=(), **kw):
        touch(self)
        if self.owner:
            CTX.events.append(("mutate", self.owner, self))
        for k, v in kw.items():
            self[k] = v
        if isinstance(o, SMap):
            u = union_maps(self, o)
            self._restore(u._snap())
        elif isinstance(o, dict):
            for k, v in o.items():
                self[k] = v
        else:
            for k, v in o:
                self[k] = v

    def __eq__(self, o):
        raise Unsupported("dict equality")

    def __hash__(self):
        return id(self)

    def _py_is(self, c):
        import collections
        return c in (dict, object) or (c is collections.OrderedDict and self.cls is c) or \
            getattr(c, "__name__", "") in ("Mapping", "MutableMapping", "Iterable")

    def __reduce__(self):
        raise Unsupported("pickle")

    def pop(self, *a):
        raise Unsupported("dict.pop")

    def setdefault(self, k, d=None):
        pr, pos = self.has(k)
        if CTX.decide(pr):
            return self.at(pos)
        self[k] = d
        return d

    def _vsubst(self, m):
        if self.over:
            raise Unsupported("subst in written map")
        at, g = self._at, self.guard
        return SMap(self.axis, lambda i: vsubst(at(i), m), (lambda i: subst(g(i), m)) if g else None, self.cls)


def union_maps(a, b):
    """dict union on a common axis: b's values win where present"""
    if a.axis.same(b.axis):
        ga = a.guard or (lambda i: TRUE)
        gb = b.guard or (lambda i: TRUE)
        a2, b2 = a.copy(), b.copy()

        def at(i):
            c = bnf(gb(i))
            if c is TRUE:
                return b2.at(i)
            if c is FALSE:
                return a2.at(i)
            return vmerge(c, b2.at(i), a2.at(i))
        return SMap(a.axis, at, lambda i: or_(ga(i), gb(i)), a.cls)
    if isinstance(a.axis.length, int) and isinstance(b.axis.length, int) and a.guard is None and b.guard is None:
        m = a.copy()
        for i in range(b.axis.length):
            m[b.axis.label(num(i))] = b.at(num(i))
        return m
    raise Unsupported("union of maps on different axes")


# ------------------------------------------------------------------ loops
class Ret:
    def __init__(self, value):
        self.value = value


class _Sig:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


BRK, CONT = _Sig("break"), _Sig("continue")


def iter_of(it):
    """iterable -> native iterator or Seq"""
    if isinstance(it, Seq):
        return it
    if isinstance(it, SList):
        return it.sym if it.sym is not None else list.copy(it)
    h = getattr(it, "_as_seq", None)
    if h is not None:
        return h()
    return it


def run_for(it, body, get, set_, names, key=None, see=dict):
    s = iter_of(it)
    if key in CTX.invariants and isinstance(s, Seq) and s.guard is None and not s.concrete:
        return CTX.invariants[key].run(s, None, body, get, set_, names, key, see)
    if isinstance(s, Seq) and (not s.concrete or s.length > 24):
        return symbolic_for(s, body, get, set_, names, key)
    if isinstance(s, Seq):
        s = [s.at(num(i)) for i in range(s.length)]
    if isinstance(s, Sym) and not hasattr(s, "__iter__"):
        raise Unsupported("iteration over %s" % type(s))
    for x in s:
        r = body(x)
        if r is BRK:
            return None
        if isinstance(r, Ret):
            return r
    return None


def _same_val(a, b):
    if a is b:
        return True
    if isinstance(a, (SNum, SBool, SLab)) and type(a) is type(b):
        return canon(a.t) is canon(b.t)
    if type(a) is type(b) and isinstance(a, (int, float, str, bool)):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(_same_val(x, y) for x, y in zip(a, b))
    return False


def havoc_like(v, tag):
    """fresh value of the same shape as v, and its probe (list of havoc markers)"""
    if isinstance(v, bool):
        return SBool(var(fresh_name("hv:" + tag), B))
    if isinstance(v, int):
        return SNum(var(fresh_name("hv:" + tag), I), "int")
    if isinstance(v, float):
        return SNum(var(fresh_name("hv:" + tag), R), "float")
    if isinstance(v, SNum):
        return SNum(var(fresh_name("hv:" + tag), R if not v.py.endswith("int") else I), v.py)
    if isinstance(v, SBool):
        return SBool(var(fresh_name("hv:" + tag), B))
    if type(v) is Poison:
        return v
    h = getattr(v, "_havoc", None)
    if h is not None:
        return h(tag)
    return Poison(tag)


def mentions(v, marks):
    """does value v mention any havoc marker (variable terms / function names)?"""
    if isinstance(v, T):
        if v.fv & marks[0]:
            return True
        if marks[1]:
            return any(x.op == "app" and x.args[0] in marks[1] for x in tm.subterms(v))
        return False
    if isinstance(v, (SNum, SBool, SLab)):
        return mentions(canon(v.t), marks)
    if isinstance(v, tuple):
        return any(mentions(x, marks) for x in v)
    if v is None or isinstance(v, (str, int, float, bool, Unbound)):
        return False
    if isinstance(v, Poison):
        return True
    h = getattr(v, "_probe_terms", None)
    if h is not None:
        return any(mentions(t, marks) for t in h())
    return False


def body_runs(body, x, get, set_, names, extra):
    """run the loop body from the current state on all its paths; state restored.
    returns list of (cond, result, locals, [(obj, before, after)])"""
    loc0 = get()
    res = []

    def once():
        j = Journal()
        CTX.journals.append(j)
        try:
            try:
                r = body(x)
                out = ("ok", r)
            except Exception as e:
                out = ("exc", e)
            loc = get()
            ch = [(obj, before, obj._snap()) for obj, before in j.saved.values()]
            return out, loc, ch
        finally:
            CTX.journals.pop()
            j.restore()
            set_(loc0)
    npc = len(CTX.pc) + len(extra)
    for o in explore(once, extra):
        if o.kind == "exc":
            raise Unsupported("engine exception in loop body: %r" % (o.value,)) from o.value
        out, loc, ch = o.value
        cond = and_(*o.pc[npc:]) if len(o.pc) > npc else TRUE
        res.append((cond, out, loc, ch))
    return res


def symbolic_for(s, body, get, set_, names, key):
    n = tt(s.length)
    i = ivar(s.length, "it")
    base = [ge(i, ZERO), lt(i, n)]
    base = [c for c in base if bnf(c) is not TRUE]
    if s.guard is not None:
        base.append(bnf(s.guard(i)))
    base = pv.flat_and(base)
    x = s.at(i)
    loc0 = get()
    # ---- discovery
    mod_loc, mod_obj = {}, {}

    def absorb(runs, ref):
        grew = False
        for cond, out, loc, ch in runs:
            for k in names:
                if k not in mod_loc and not _same_val(loc.get(k, UNBOUND), ref.get(k, UNBOUND)):
                    mod_loc[k] = True
                    grew = True
            for obj, before, after in ch:
                if id(obj) not in mod_obj:
                    mod_obj[id(obj)] = obj
                    grew = True
        return grew
    try:
        runs = body_runs(body, x, get, set_, names, base)
    except Unsupported:
        raise
    absorb(runs, loc0)
    init_snap = {}
    # ---- generic state
    for _ in range(4):
        hv = {}
        marks_v, marks_f = set(), set()
        loc = dict(loc0)
        for k in mod_loc:
            v0 = loc0.get(k, UNBOUND)
            h = UNBOUND if v0 is UNBOUND else havoc_like(v0, k)
            hv[k] = h
            loc[k] = h
            _marks(h, marks_v, marks_f)
        ohv = {}
        for oid, obj in mod_obj.items():
            init_snap.setdefault(oid, obj._snap())
            st = obj._havoc_state(key)
            ohv[oid] = st
            _marks(st, marks_v, marks_f)
        try:
            set_(loc)
            for oid, obj in mod_obj.items():
                obj._enter_havoc(ohv[oid])
            runs = body_runs(body, x, get, set_, names, base)
        finally:
            set_(loc0)
            for oid, obj in mod_obj.items():
                obj._restore(init_snap[oid])
        if not absorb(runs, loc):
            break
    else:
        raise Unsupported("loop state does not stabilise")
    marks = (frozenset(marks_v), frozenset(marks_f))
    normal, abnormal = [], []
    for cond, out, loc, ch in runs:
        if out[0] == "exc" or out[1] is BRK or isinstance(out[1], Ret):
            abnormal.append((cond, out, loc, ch))
        else:
            normal.append((cond, out, loc, ch))
    if any(mentions(cond, marks) for cond, *_ in runs):
        spec = special_loop(s, i, runs, mod_loc, mod_obj, hv, ohv, loc0, get, set_, marks, base)
        if spec is not None:
            return spec[0]
        # conditions on loop-carried scalars: their closed form after i normal iterations
        pre = {}
        for k in mod_loc:
            if isinstance(hv[k], SNum) and any(hv[k].t in cond.fv for cond, *_ in runs) and len(normal) == 1:
                v = normal[0][2].get(k, UNBOUND)
                try:
                    pre[hv[k].t] = term(summarise(k, hv[k], v, loc0.get(k, UNBOUND), i, i, s.guard, marks))
                except Unsupported:
                    pass
        closed = lambda c: bnf(subst(c, pre))
        for cond, *_ in runs:
            if mentions(closed(cond), marks):
                raise Unsupported("loop-carried branch condition %s" % (cond,))
        normal = [(closed(c), o, l, ch) for c, o, l, ch in normal]
        abnormal = [(closed(c), o, l, ch) for c, o, l, ch in abnormal]
    N = n
    if abnormal:
        cab = or_(*[c for c, *_ in abnormal])
        g = s.guard
        anyab = mk("exists", (i, and_(g(i) if g else TRUE, cab)), B) if cab is not TRUE or g else gt(n, ZERO)
        if CTX.decide(anyab):
            # first abnormal iteration
            k = var(fresh_name("brk"), I, n)
            CTX.assume(and_(ge(k, ZERO), lt(k, n)))
            if g:
                CTX.assume(g(k))
            CTX.assume(subst(cab, {i: k}))
            j = ivar(s.length, "jt")
            if canon(cab) is TRUE and not g:
                CTX.assume(eq(k, ZERO))
            else:
                CTX.assume(mk("forall", (j, or_(ge(j, k), not_(and_(g(j) if g else TRUE, subst(cab, {i: j}))))), B))
            finish(s, i, k, normal, mod_loc, mod_obj, hv, ohv, init_snap, loc0, get, set_, marks)
            r = body(s.at(k))
            if r is BRK or r is None or r is CONT:
                return None
            return r
    finish(s, i, N, normal, mod_loc, mod_obj, hv, ohv, init_snap, loc0, get, set_, marks)
    return None


def _marks(h, mv, mf):
    if isinstance(h, (SNum, SBool, SLab)) and h.t.op == "var":
        mv.add(h.t)
    if type(h) is Poison:
        return
    g = getattr(h, "_havoc_marks", None)
    if g is not None:
        a, b = g()
        mv.update(a)
        mf.update(b)


def merged(runs_vals):
    """merge values over exhaustive path conditions"""
    r = runs_vals[-1][1]
    for c, v in reversed(runs_vals[:-1]):
        r = vmerge(c, v, r)
    return r


def finish(s, i, N, normal, mod_loc, mod_obj, hv, ohv, init_snap, loc0, get, set_, marks):
    g = s.guard
    loc = dict(loc0)
    for k in mod_loc:
        if not normal:
            continue
        vals = [(c, l.get(k, UNBOUND)) for c, o, l, ch in normal]
        if any(v is UNBOUND for _, v in vals):
            loc[k] = UNBOUND if all(v is UNBOUND for _, v in vals) else Poison(k + " maybe unbound after loop")
            continue
        h, v0 = hv[k], loc0.get(k, UNBOUND)
        if all(v is h for _, v in vals):        # no iteration that completes changes it
            loc[k] = v0
            continue
        try:
            v = merged(vals)
            loc[k] = summarise(k, h, v, v0, i, N, g, marks)
        except Unsupported as e:
            loc[k] = Poison("%s after loop: %s" % (k, e))
    for oid, obj in mod_obj.items():
        effs = []
        for c, o, l, ch in normal:
            aft = [a for ob, b, a in ch if id(ob) == oid]
            effs.append((c, aft[0] if aft else None))
        if normal:
            obj._summarise(init_snap[oid], ohv[oid], effs, i, N, g, marks)
    set_(loc)


def summarise(name, h, v, v0, i, N, g, marks):
    """value after N iterations of  h := v(i, h)  starting from v0"""
    def last(v):
        if g is not None:
            raise Unsupported("last value under a filter")
        w = vsubst(v, {i: canon(sub(N, ONE))})
        if v0 is UNBOUND or isinstance(v0, Poison):
            return w
        c = bnf(gt(N, ZERO))
        if c is TRUE or pv.entails(CTX.pc, c):
            return w
        return vmerge(c, w, v0)
    if h is UNBOUND or not mentions(v, marks):
        return last(v)
    if isinstance(v, (SNum, int, float)) and isinstance(h, SNum):
        d = canon(sub(term(v), h.t))
        if not mentions(d, marks):
            body = mul(iv(g(i)), d) if g else d
            return SNum(add(term(v0), _sum_to(i, N, body)), pyof(v))
        q = canon(div(term(v), h.t))
        if not mentions(q, marks):
            body = ite(g(i), q, ONE) if g else q
            return SNum(mul(term(v0), _prod_to(i, N, body)), pyof(v))
    hk = getattr(v, "_summarise_acc", None)
    if hk is not None:
        return hk(h, v0, i, N, g, marks)
    raise Unsupported("loop-carried dependence on %s" % name)


def _sum_to(i, N, body):
    return mksum(N, lambda j: subst(body, {i: j}))


def _prod_to(i, N, body):
    return mkprod(N, lambda j: subst(body, {i: j}))


SPECIAL = []


def special_loop(*a):
    for f in SPECIAL:
        r = f(*a)
        if r is not None:
            return r
    return None


# ------------------------------------------------------------------ while loops
class Frozen:
    """the variables of a loop, by name"""

    def __init__(self, d, changed=(), phase="start", last=False):
        self.__dict__.update(d)
        self.__dict__.update(_d=d, _changed=changed, _phase=phase, _last=last)

    def only(self, test, changed=False):
        """the one variable with this property (contracts do not depend on the names of local variables)"""
        r = [k for k, v in self._d.items() if (not changed or k in self._changed) and test(v)]
        if len(r) != 1:
            raise Unsupported("the loop's variables are not those its contract describes: %s" % (r,))
        return r[0]


class LoopContract:
    """invariant of a loop written in the contract: state(L, i) gives the values an arbitrary iteration starts from (and sets the
    contents of the objects it lists), inv(L, i) the invariant as (name, condition) pairs"""

    def __init__(self, V, state, inv, objs=None):
        self.V, self.state, self.inv, self.objs = V, state, inv, objs or (lambda L: [])

    def run(self, seq, cond, body, get, set_, names, key, see):
        V = self.V
        last = False
        L = lambda ph="start": Frozen({**see(), **{k: v for k, v in get().items() if v is not UNBOUND}}, names, ph, last)
        what = "invariant of the loop in " + key.split("#")[0]
        for n, c in self.inv(L(), ZERO):
            V.ensure("%s: %s holds at the start" % (what, n), c)
        allowed = {id(o) for o in self.objs(L())}
        CTX.note("loop contract", "loop invariants stated in the contracts are checked on entry and for an arbitrary iteration; "
                                  "termination of while loops is not proved")
        last = not CTX.decide(var(fresh_name("arbitrary iteration"), B))
        i = None
        if seq is not None:
            if last:
                i = tt(seq.length)
                if not pv.entails(CTX.pc, ge(i, ZERO)):
                    i = canon(tmax(i, ZERO))
            else:
                i = var(fresh_name("iter"), I, tt(seq.length))
                CTX.assume(and_(ge(i, ZERO), lt(i, tt(seq.length))))
        loc = {}
        for k, v in get().items():
            loc[k] = v if v is UNBOUND else havoc_like(v, k)
        loc.update(self.state(L("any"), i) or {})
        set_(loc)
        for n, c in self.inv(L("any"), i):
            CTX.assume(V.c(c))
        if last:
            if cond is not None and bool(cond()):
                raise Infeasible()
            return None
        j = Journal()
        CTX.journals.append(j)
        try:
            if cond is not None and not bool(cond()):
                raise Infeasible()
            r = body() if seq is None else body(seq.at(i))
        finally:
            CTX.journals.remove(j)
        if any(oid not in allowed for oid in j.saved):
            raise Unsupported("loop %s changes an object its contract does not list" % key)
        if r is BRK:
            return None
        if isinstance(r, Ret):
            return r
        for n, c in self.inv(L("after"), None if i is None else canon(add(i, ONE))):
            V.ensure("%s: %s is preserved" % (what, n), c)
        raise Infeasible()


def run_while(cond, body, get, set_, names, key, see=dict):
    if key in CTX.invariants:
        return CTX.invariants[key].run(None, cond, body, get, set_, names, key, see)
    k = 0
    limit = CTX.unroll or 60
    while True:
        c = cond()
        if isinstance(c, SBool) and bnf(c.t) not in (TRUE, FALSE):
            return while_inv(cond, body, get, set_, names, key, see())
        if not bool(c):
            return None
        r = body()
        if r is BRK:
            return None
        if isinstance(r, Ret):
            return r
        k += 1
        if k > limit:
            raise Unsupported("while loop %s without invariant" % (key,))


def _iterate(step, get, set_, names, key):
    """state modified by a loop: (mod_loc, mod_obj, havoced locals, havoced object states)"""
    loc0 = get()
    mod_loc, mod_obj, init = {}, {}, {}

    def absorb(runs, ref):
        grew = False
        for cond, out, loc, ch in runs:
            for k in names:
                if k not in mod_loc and not _same_val(loc.get(k, UNBOUND), ref.get(k, UNBOUND)):
                    mod_loc[k] = True
                    grew = True
            for obj, before, after in ch:
                if id(obj) not in mod_obj:
                    mod_obj[id(obj)] = obj
                    grew = True
        return grew
    absorb(body_runs(lambda _: step(), None, get, set_, names, []), loc0)
    for _ in range(5):
        loc, ohv = dict(loc0), {}
        for k in mod_loc:
            v0 = loc0.get(k, UNBOUND)
            loc[k] = Poison(k + " set in a loop") if v0 is UNBOUND else havoc_like(v0, k)
        for oid, obj in mod_obj.items():
            init.setdefault(oid, obj._snap())
            ohv[oid] = obj._havoc_elements(key)
        try:
            set_(loc)
            for oid, obj in mod_obj.items():
                obj._restore(ohv[oid])
            runs = body_runs(lambda _: step(), None, get, set_, names, [])
        finally:
            set_(loc0)
            for oid, obj in mod_obj.items():
                obj._restore(init[oid])
        if not absorb(runs, loc):
            return loc0, loc, mod_loc, mod_obj, init, ohv
    raise Unsupported("loop state does not stabilise")


def _numeric_seq(v):
    """(length, element function) of a one-dimensional numeric list or array, or None"""
    if isinstance(v, SList):
        q = v.seq()
        if q.guard is not None or not q.concrete and isinstance(q, Grown):
            return None
        k = ivar(q.length, "nq")
        try:
            e = q.at(k)
        except Unsupported:
            return None
        if isinstance(e, (SNum, int, float)) and not isinstance(e, bool):
            return q.length, lambda j: term(q.at(j))
        return None
    h = getattr(v, "_numeric_seq", None) if isinstance(v, Sym) else None
    return h() if h is not None else None


_inv_cache = {}
_probes = {}


def _probe(n):
    n = canon(tt(n))
    if n not in _probes:
        _probes[n] = ivar(n, "probe")
    return _probes[n]


def _state_key(d):
    out = []
    for k, v in sorted(d.items()):
        if isinstance(v, (bool, str, type(None))):
            t = repr(v)
        elif isinstance(v, (SNum, int, float)):
            t = canon(term(v))
        elif isinstance(v, (SBool, SLab)):
            t = canon(v.t)
        else:
            q = _numeric_seq(v)
            t = type(v).__name__ if q is None else \
                canon(mk("forall", (_probe(q[0]), eq(q[1](_probe(q[0])), var("#state", R))), B))
        out.append((k, t))
    return tuple(out)


def while_inv(cond, body, get, set_, names, key, scope):
    """while loop through an inductive invariant: the conjunction of those template instances (sign, monotonicity,
    conservation, dependence on an index) that hold on entry and are preserved by every path of the body"""
    def step():
        if not bool(cond()):
            return BRK
        return body()
    scope = {k: v for k, v in scope.items() if isinstance(v, (Sym, SList, int, float))}
    CTX.frames[-1].steps += 1
    steps = CTX.frames[-1].steps
    ckey = (key, tuple(f.steps for f in CTX.frames), frozenset(CTX.pc), _state_key({**scope, **get()}))
    hit = _inv_cache.get(ckey)
    if hit is None:
        loc0, lochv, mod_loc, mod_obj, init, ohv = _iterate(step, get, set_, names, key)
    else:       # the same loop in the same state, on another path from here on
        loc0 = get()
        lochv, mod_loc = dict(loc0, **hit[0]), hit[0]
        at = {**scope, **loc0}
        mod_obj, ohv = {}, {}
        for k, st in hit[1].items():
            o = getattr(at[k], "store", at[k])
            mod_obj[id(o)], ohv[id(o)] = o, st
        init = {oid: o._snap() for oid, o in mod_obj.items()}
    cands = []          # (description, entry term, term in the current state)

    def cand(d, f):
        cands.append((d, f))
    scal = [k for k in mod_loc if isinstance(loc0.get(k, UNBOUND), (SNum, int, float)) and not isinstance(loc0.get(k), bool)]
    bounds = []
    for v in [*loc0.values(), *scope.values()]:
        q = v.seq() if isinstance(v, SList) else None
        n = tt(q.length) if q is not None and q.guard is None else tt(v._shape[0]) if isinstance(v, Sym) and getattr(v, "_shape", None) else None
        if n is not None and n not in bounds:
            bounds.append(n)
    for k in scal:
        e = term(loc0[k])
        cand("%s >= 0" % k, lambda k=k: ge(term(get()[k]), ZERO))
        if isinstance(loc0[k], (SNum, int)) and pyof(loc0[k]).endswith("int"):
            for b in bounds:
                cand("%s < %s" % (k, tm.show(b)), lambda k=k, b=b: lt(term(get()[k]), b))
        cand("%s <= its value on entry" % k, lambda k=k, e=e: le(term(get()[k]), e))
        cand("%s >= its value on entry" % k, lambda k=k, e=e: ge(term(get()[k]), e))
        for k2 in scal:
            e2 = term(loc0[k2])
            if k2 != k and canon(e2).op not in ("num", "var") and any(x is canon(e2) for x in tm.subterms(canon(e))):
                cand("%s depends on %s as on entry" % (k, k2),
                     lambda k=k, k2=k2, e=e, e2=e2: eq(term(get()[k]), pv.replace(canon(e), {canon(e2): term(get()[k2])})))
    objs = {}           # local name -> object, for modified lists and arrays and for the others in scope
    for k, v in {**scope, **loc0}.items():
        q = _numeric_seq(v) if not isinstance(v, Unbound) else None
        if q is not None:
            objs[k] = (v, q[0], id(getattr(v, "store", v)) in mod_obj)
    for k, (v, n, m) in objs.items():
        if not m:
            continue
        q0 = _numeric_seq(v)[1]
        cur = lambda j, v=v: _numeric_seq(v)[1](j)
        cand("%s[i] >= 0" % k, lambda n=n, cur=cur: tm.forall(n, lambda j: ge(cur(j), ZERO)))
        cand("%s[i] >= its value on entry" % k, lambda n=n, cur=cur, q0=q0: tm.forall(n, lambda j: ge(cur(j), q0(j))))
        for s in scal:
            for k2, (v2, n2, m2) in objs.items():
                if m2 or not same_dim(n, n2):
                    continue
                p2 = _numeric_seq(v2)[1]
                tot = add(mksum(n, lambda j: mul(q0(j), p2(j))), term(loc0[s]))
                cand("sum %s[i] %s[i] + %s is constant" % (k, k2, s),
                     lambda n=n, cur=cur, p2=p2, s=s, tot=tot: eq(add(mksum(n, lambda j: mul(cur(j), p2(j))), term(get()[s])), tot))
    # entry
    if VERBOSE:
        print("candidates", key, [d for d, _ in cands])
    if hit is not None:
        cands = [(d, f) for d, f in cands if d in hit[2]]
    else:
        cands = [(d, f) for d, f in cands if pv.holds(CTX.pc, f())]

    def enter():
        set_(lochv)
        for oid, obj in mod_obj.items():
            touch(obj)
            obj._restore(ohv[oid])

    def leave():
        set_(loc0)
        for oid, obj in mod_obj.items():
            obj._restore(init[oid])
    npc = len(CTX.pc)
    for _ in range(len(cands) + 1 if hit is None else 0):
        def once():
            j = Journal()
            CTX.journals.append(j)
            try:
                try:
                    r = step()
                except Exception as e:
                    if isinstance(e, (Infeasible, Unsupported)):
                        raise
                    if VERBOSE:
                        print("loop body raises", repr(e))
                    return None
                if r is BRK or isinstance(r, Ret):
                    return None
                return [f() for d, f in cands]
            finally:
                CTX.journals.pop()
                j.restore()
                set_(lochv)
        try:
            enter()
            hyp = pv.flat_and([bnf(f()) for d, f in cands])
            outs = explore(once, hyp)
        finally:
            leave()
        for o in outs:
            if o.kind == "exc":
                raise Unsupported("engine exception in loop body: %r" % (o.value,)) from o.value
        if VERBOSE:
            print("paths of", key, [(None if o.value is None else len(o.value)) for o in outs])
        keep = []
        for n_, (d, f) in enumerate(cands):
            if all(o.value is None or pv.holds(o.pc, o.value[n_]) for o in outs):
                keep.append((d, f))
        done = len(keep) == len(cands)
        cands = keep
        if done:
            break
    if hit is None:
        where = {id(getattr(v, "store", v)): k for k, v in {**scope, **loc0}.items() if not isinstance(v, Unbound)}
        if all(oid in where for oid in mod_obj):
            _inv_cache[ckey] = ({k: lochv[k] for k in mod_loc}, {where[oid]: ohv[oid] for oid in mod_obj},
                                {d for d, _ in cands})
    CTX.note("while", "loop invariants are found among templates and proved inductive; termination of while loops is not proved")
    if VERBOSE:
        print("invariant of", key, [d for d, _ in cands])
    # an arbitrary iteration
    CTX.frames[-1].steps = steps
    enter()
    for d, f in cands:
        CTX.assume(f())
    r = step()
    if r is BRK:
        return None
    if isinstance(r, Ret):
        return r
    raise Infeasible()


import os as _os
VERBOSE = bool(_os.environ.get("VF_INV"))


# ------------------------------------------------------------------ comprehensions
def generic_value(s, f, cond=None):
    """(i, value at i, guard at i) for a comprehension over symbolic Seq s; f, cond python callables"""
    n = tt(s.length)
    i = ivar(s.length, "ct")
    base = pv.flat_and([ge(i, ZERO), lt(i, n)] + ([bnf(s.guard(i))] if s.guard else []))

    def once():
        x = s.at(i)
        if cond is not None:
            c = cond(x)
            c = c if isinstance(c, (SBool, bool)) else bool(c)
        else:
            c = True
        if c is False or isinstance(c, SBool) and c.t is FALSE:
            return (False, None)
        if isinstance(c, SBool) and c.t is not TRUE:
            CTX.assume_local = True
            # evaluate the element only where the filter holds
            if CTX.decide(c.t):
                return (True, f(x))
            return (False, None)
        return (True, f(x))
    npc = len(CTX.pc) + len(base)
    outs = explore(once, base)
    bad = [o for o in outs if o.kind == "exc"]
    if bad:
        cab = or_(*[and_(*o.pc[npc:]) for o in bad])
        g = s.guard
        anyab = mk("exists", (i, and_(g(i) if g else TRUE, cab)), B)
        if CTX.decide(anyab):
            k = var(fresh_name("exc"), I, n)
            CTX.assume(and_(ge(k, ZERO), lt(k, n)))
            if g:
                CTX.assume(g(k))
            CTX.assume(subst(cab, {i: k}))
            f(s.at(k)) if cond is None or bool(cond(s.at(k))) else None
            raise Infeasible()
    outs = [o for o in outs if o.kind == "ret"]
    keep = [(and_(*o.pc[npc:]), o.value[1]) for o in outs if o.value[0]]
    drop = [and_(*o.pc[npc:]) for o in outs if not o.value[0]]
    guard = s.guard(i) if s.guard else TRUE
    if drop:
        guard = and_(guard, not_(or_(*drop)))
    if not keep:
        return i, None, FALSE
    return i, merged(keep), guard


def comp_seq(s, f, cond=None, kind="list"):
    i, v, g = generic_value(s, f, cond)
    if v is None and g is FALSE:
        return Seq(0, lambda j: None)
    gd = None if g is TRUE else (lambda j: subst(g, {i: tt(j)}))
    return Seq(s.length, lambda j: vsubst(v, {i: tt(j)}), gd, kind)


def comp_flat(s, f):
    """[y for x in s for y in f(x)], f giving a fixed number of elements or none"""
    if s.guard is not None:
        raise Unsupported("nested comprehension over a filtered sequence")
    n = tt(s.length)
    i = ivar(s.length, "ct")
    base = pv.flat_and([ge(i, ZERO), lt(i, n)])
    npc = len(CTX.pc) + len(base)
    keep, drop = [], []
    for o in explore(lambda: f(s.at(i)), base):
        if o.kind == "exc":
            raise Unsupported("engine exception in comprehension: %r" % (o.value,)) from o.value
        q = as_seq(o.value)
        if not q.concrete:
            raise Unsupported("nested comprehension of varying length")
        xs = [q.at(num(k)) for k in range(q.length)]
        (keep if xs else drop).append((and_(*o.pc[npc:]), xs))
    ks = {len(xs) for _, xs in keep}
    if not ks:
        return SList([])
    if len(ks) > 1:
        raise Unsupported("nested comprehension of varying length")
    K = ks.pop()
    vals = [merged([(c, xs[k]) for c, xs in keep]) for k in range(K)]
    if drop:
        from . import pdx
        g = or_(*[c for c, _ in keep])
        M, sel, CTX.consts["kept"] = pdx.selection(fresh_name("flat"), s.length, lambda r: subst(g, {i: r}))
        CTX.assume(forall(M, lambda a: forall(a, lambda b: lt(app(sel, b, sort=I), app(sel, a, sort=I)))))
        src = lambda r: app(sel, r, sort=I)
    else:
        M, src = n, lambda r: r

    def at(q):
        d, r = divmod_term(canon(q), K)
        v = [vsubst(x, {i: src(d)}) for x in vals]
        return pick(v, r)
    return SList(sym=Seq(canon(mul(num(K), tt(M))), at))


def comp(kind, it, f, cond=None):
    s = iter_of(it)
    if isinstance(s, Seq) and not s.concrete:
        if kind == "dict":
            q = comp_seq(s, f, cond)
            return map_from_pairs(q, s)
        q = comp_seq(s, f, cond)
        # an element-wise identity over labels keeps its axis
        ax = getattr(s, "axis", None)
        if ax is not None and q.guard is None:
            k = ivar(s.length, "ck")
            e = q.at(k)
            if isinstance(e, (SLab, SNum)) and _same_val(e, s.at(k)):
                q.axis = ax
        if kind == "list":
            return SList(sym=q)
        if kind == "gen":
            return q
        if kind == "set":
            raise Unsupported("set comprehension")
    if isinstance(s, Seq):
        s = [s.at(num(k)) for k in range(s.length)]
    out = []
    for x in s:
        if cond is None or bool(cond(x)):
            out.append(f(x))
    if kind == "list":
        return SList(out)
    if kind == "gen":
        return SList(out)
    if kind == "dict":
        if any(isinstance(k, (SLab, SNum)) for k, _ in out):
            m = SMap(items=[])
            for k, v in out:
                m[k] = v
            return m
        return dict(out)
    if kind == "set":
        return set(out)


def map_from_pairs(q, src=None, cls=dict):
    """SMap from a symbolic sequence of (key, value) pairs with distinct keys"""
    i = ivar(q.length, "mk")
    kk = q.at(i)[0]
    ax = axis_of_keys(kk, i, q.length)
    at = q.at
    return SMap(ax, lambda j: at(j)[1], q.guard, cls)


def axis_of_keys(k, i, n):
    """axis whose label at i is k (a label term in i)"""
    if isinstance(k, SNum):
        if canon(k.t) is i:
            return range_axis(n)
        raise Unsupported("numeric dict keys")
    if not isinstance(k, SLab):
        raise Unsupported("dict keys %s" % type(k))
    t = canon(k.t)
    if t.op == "app" and t.args[0].startswith("lab:") and len(t.args) == 2:
        g = t.args[1]
        if g is i:
            return label_axis(t.args[0][4:], n)
        inv = PERM_INVERSE.get(g.args[0]) if g.op == "app" else None
        if inv is not None and len(g.args) == 2 and g.args[1] is i:
            return label_axis(t.args[0][4:], n, lambda j, f=g.args[0]: app(f, j, sort=I),
                              lambda j, f=inv: app(f, j, sort=I))
        p = tm.nf(g)
    raise Unsupported("dict keys %s" % (t,))


PERM_INVERSE = {}     # injective index function name -> inverse function name


# ------------------------------------------------------------------ builtins
def vf_len(x):
    h = getattr(x, "vf_len", None)
    if h is not None:
        return h()
    return _b.len(x)


def vf_isinstance(x, c):
    if isinstance(c, tuple):
        return any(vf_isinstance(x, d) for d in c)
    h = getattr(type(c), "_vf_isinst", None) or getattr(c, "_vf_isinst", None)
    if h is not None:
        return c._vf_isinst(x)
    h = getattr(x, "_py_is", None)
    if h is not None:
        return h(c)
    if c in FAKE_TYPES:
        return _b.isinstance(x, FAKE_TYPES[c])
    return _b.isinstance(x, c)


def vf_is(a, b):
    """a is b"""
    for x, y in ((a, b), (b, a)):
        if type(x) is Poison:
            x._u()
        if type(x) is SBool and (y is True or y is False):
            raise Unsupported("identity of a symbolic truth value")
    return a is b


def vf_float(x=0):
    if isinstance(x, SNum):
        return SNum(x.t, "float")
    if isinstance(x, SBool):
        return SNum(iv(x.t), "float")
    h = getattr(x, "_scalar_term", None)
    if h is not None:
        return SNum(h(), "float")
    if isinstance(x, str) and x.strip().lower() in ("inf", "-inf", "+inf", "infinity", "-infinity"):
        return SNum(neg(INF) if x.strip().startswith("-") else INF, "float")
    return SNum(tt(_b.float(x)), "float")


def vf_int(x=0, *a):
    if isinstance(x, SNum):
        if canon(x.t).sort != I and pv.entails(CTX.pc, ge(x.t, ZERO)):
            return SNum(floor_term(x.t), "int")
        t = trunc_term(x.t)
        c = canon(t)
        return int(c.args[0]) if c.op == "num" else SNum(c, "int")
    if isinstance(x, SBool):
        return SNum(iv(x.t), "int")
    h = getattr(x, "_scalar_term", None)
    if h is not None:
        return vf_int(SNum(h()))
    return _b.int(x, *a)


class SText(str):
    """the text str(x) (or json) of a symbolic value; remembers the value"""

    def __new__(cls, kind, obj):
        r = str.__new__(cls, "<%s of symbolic value>" % kind)
        r.kind, r.obj = kind, obj
        return r

    def _u(self, *a, **k):
        raise Unsupported("text operation on the text of a symbolic value")
    __add__ = __radd__ = __mod__ = __format__ = __eq__ = __contains__ = __getitem__ = __iter__ = _u
    replace = join = split = encode = strip = format = _u

    def __hash__(self):
        return id(self)


def vf_str(*a, **k):
    if len(a) == 1 and isinstance(a[0], SMap):
        return SText("str", a[0].copy() if a[0].cls is dict else a[0])
    if len(a) == 1 and isinstance(a[0], (Sym, SList)) and not isinstance(a[0], SLab):
        return SText("str", a[0])
    if len(a) == 1 and isinstance(a[0], SLab):
        return a[0]
    return str(*a, **k)


def vf_bool(x=False):
    return _b.bool(x)


def vf_sum(it, start=0):
    s = iter_of(it)
    if isinstance(s, Seq) and not s.concrete:
        i = ivar(s.length, "st")
        e = s.at(i)
        if is_scalar(e):
            b = term(e)
            if b.sort == B:
                b = iv(b)
            if s.guard:
                b = mul(iv(s.guard(i)), b)
            r = add(term(start), _sum_to(i, tt(s.length), b))
            return SNum(r, pyof(e) if is_scalar(e) else "float")
        h = getattr(e, "_seq_sum", None)
        if h is not None:
            return h(s, i, start)
        raise Unsupported("sum over %s" % type(e))
    acc = start
    if isinstance(s, Seq):
        s = list(s)
    for x in s:
        acc = acc + x
    return acc


def vf_any(it):
    s = iter_of(it)
    if isinstance(s, Seq) and not s.concrete:
        return SBool(exists(s.length, lambda i: and_(s.guard(i) if s.guard else TRUE, truth(s.at(i)))))
    for x in (list(s) if isinstance(s, Seq) else s):
        if x:
            return True
    return False


def vf_all(it):
    s = iter_of(it)
    if isinstance(s, Seq) and not s.concrete:
        return SBool(forall(s.length, lambda i: implies(s.guard(i) if s.guard else TRUE, truth(s.at(i)))))
    for x in (list(s) if isinstance(s, Seq) else s):
        if not x:
            return False
    return True


def truth(v):
    if isinstance(v, (SBool, bool)):
        return term(v)
    if isinstance(v, (SNum, int, float)):
        return not_(eq(term(v), ZERO))
    return TRUE if v else FALSE


def _minmax(args, is_max, key=None, default=None):
    if len(args) == 1:
        s = iter_of(args[0])
        if isinstance(s, Seq) and not s.concrete:
            if key is not None or s.guard is not None:
                raise Unsupported("min/max over filtered sequence")
            i = ivar(s.length, "mm")
            e = s.at(i)
            return SNum(mk("amax" if is_max else "amin", (i, term(e)), R), pyof(e))
        xs = list(s)
    else:
        xs = list(args)
    if not xs:
        if default is not None:
            return default
        raise ValueError("min()/max() arg is an empty sequence")
    if key is not None:
        r = xs[0]
        for x in xs[1:]:
            kx, kr = key(x), key(r)
            if (kx > kr) if is_max else (kx < kr):
                r = x
        return r
    r = xs[0]
    for x in xs[1:]:
        if is_scalar(r) and is_scalar(x):
            a, b2 = term(r), term(x)
            py = pyof(r) if pyof(r) == pyof(x) else "float"
            t = tmax(a, b2) if is_max else tmin(a, b2)
            r = SNum(t, py)
        else:
            if (x > r) if is_max else (x < r):
                r = x
    return r


def vf_max(*a, **k):
    return _minmax(a, True, **k)


def vf_min(*a, **k):
    return _minmax(a, False, **k)


def vf_abs(x):
    return _b.abs(x)


def vf_round(x, nd=None):
    if isinstance(x, SNum):
        return x.__round__(nd)
    return _b.round(x, nd)


def vf_range(*a):
    a = [as_dim(x) if isinstance(x, (SNum, T)) else x for x in a]
    if all(isinstance(x, int) for x in a):
        return SList(_b.range(*a))
    st, en, sp = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if sp == 1:
        ln = canon(sub(tt(en), tt(st)))
        nn = bnf(ge(ln, ZERO))
        if nn is not TRUE and not pv.entails(CTX.pc, nn):
            ln = canon(tmax(ln, ZERO))
        s = Seq(ln, lambda i: SNum(canon(add(tt(st), i)), "int"))
        if st == 0:
            s.axis = range_axis(ln)
        return s
    if sp == -1:
        ln = canon(sub(tt(st), tt(en)))
        nn = bnf(ge(ln, ZERO))
        if nn is not TRUE and not pv.entails(CTX.pc, nn):
            ln = canon(tmax(ln, ZERO))
        return Seq(ln, lambda i: SNum(canon(sub(tt(st), i)), "int"))
    if isinstance(sp, int) and sp > 1:
        ln = divmod_term(canon(add(sub(tt(en), tt(st)), num(sp - 1))), sp)[0]
        nn = bnf(ge(ln, ZERO))
        if nn is not TRUE and not pv.entails(CTX.pc, nn):
            ln = canon(tmax(ln, ZERO))
        return Seq(ln, lambda i: SNum(canon(add(tt(st), mul(num(sp), i))), "int"))
    raise Unsupported("range with step")


def vf_enumerate(it, start=0):
    s = iter_of(it)
    if isinstance(s, Seq) and not s.concrete:
        if s.guard is not None:
            raise Unsupported("enumerate of filtered sequence")
        return Seq(s.length, lambda i: (SNum(canon(add(tt(start), i)), "int"), s.at(i)))
    return [(k + start, x) for k, x in _b.enumerate(list(s))]


def vf_zip(*its):
    ss = [iter_of(x) for x in its]
    if any(isinstance(s, Seq) and not s.concrete for s in ss):
        qs = [as_seq(s) for s in ss]
        n = qs[0].length
        g = None
        for q in qs:
            if q.guard is not None:
                if len(qs) == 1 or all(x.guard is not None for x in qs):
                    g = q.guard
                    k = ivar(n, "zg")
                    for x in qs:
                        if canon(x.guard(k)) is not canon(g(k)):
                            raise Unsupported("zip of differently filtered sequences")
                else:
                    raise Unsupported("zip with a filtered sequence")
        for q in qs[1:]:
            if not same_dim(n, q.length):
                c = le(tt(n), tt(q.length))
                n = n if CTX.decide(c) else q.length
        return Seq(n, lambda i: tuple(q.at(i) for q in qs), g)
    return [tuple(x) for x in _b.zip(*[list(s) if isinstance(s, Seq) else s for s in ss])]


def vf_unzip(zip_, x):
    """zip(*x)"""
    if zip_ is not vf_zip:
        return zip_(*x)
    s = iter_of(x)
    if not isinstance(s, Seq) or s.concrete:
        return vf_zip(*s)
    if s.guard is not None:
        raise Unsupported("zip(*) of a filtered sequence")
    if not CTX.decide(gt(tt(s.length), ZERO)):
        return []
    first = s.at(ZERO)
    if not isinstance(first, tuple):
        raise Unsupported("zip(*) of a sequence of " + type(first).__name__)
    return [Seq(s.length, lambda i, k=k: s.at(i)[k]) for k in range(len(first))]


def vf_map(f, *its):
    if len(its) == 1:
        return comp("gen", its[0], lambda x: f(x))
    return comp("gen", vf_zip(*its), lambda x: f(*x))


def vf_filter(f, it):
    return comp("gen", it, lambda x: x, (lambda x: f(x)) if f else (lambda x: x))


def vf_list(it=()):
    s = iter_of(it)
    if isinstance(s, Seq):
        if s.concrete:
            return SList([s.at(num(k)) for k in range(s.length)])
        r = SList(sym=s)
        return r
    return SList(s)


def vf_tuple(it=()):
    s = iter_of(it)
    if isinstance(s, Seq) and not s.concrete:
        return Seq(s.length, s._at, s.guard, "tuple")
    if isinstance(s, Seq):
        return tuple(s.at(num(k)) for k in range(s.length))
    return tuple(s)


def mkdict_cls(cls):
    def mkd(*a, **kw):
        if a:
            src = a[0]
            if isinstance(src, SMap):
                m = src.copy()
                m.cls = cls
            elif hasattr(src, "_as_map"):
                m = src._as_map()
                m.cls = cls
            elif isinstance(src, dict):
                return cls(src, **kw)
            else:
                s = iter_of(src)
                if isinstance(s, Seq) and not s.concrete:
                    m = map_from_pairs(s, cls=cls)
                else:
                    prs = [tuple(p) for p in (list(s))]
                    if any(isinstance(k, (SLab, SNum)) for k, _ in prs):
                        m = SMap(items=[], cls=cls)
                        for k, v in prs:
                            m[k] = v
                    else:
                        return cls(prs, **kw)
            if kw:
                m.update(kw)
            return m
        return cls(**kw)
    mkd.__name__ = cls.__name__
    return mkd


def vf_sorted(it, key=None, reverse=False):
    s = iter_of(it)
    if isinstance(s, Seq) and not s.concrete:
        return sym_sorted(s, key, reverse)
    xs = list(s)
    # insertion sort with symbolic comparisons (stable)
    out = []
    ks = []
    if reverse:
        xs = xs[::-1]
    for x in xs:
        k = key(x) if key else x
        p = len(out)
        while p > 0 and bool(k < ks[p - 1]):
            p -= 1
        out.insert(p, x)
        ks.insert(p, k)
    if reverse:
        out = out[::-1]
    return SList(out)


def sym_sorted(s, key, reverse):
    """sorted sequence = s composed with an opaque permutation (trusted contract of sorted)"""
    if s.guard is not None:
        raise Unsupported("sorting a filtered sequence")
    k = ivar(s.length, "so")
    kv = key(s.at(k)) if key else s.at(k)
    tag = canon(app("sortkey", canon(subst(term(kv), {k: var("#s", I)})), tt(s.length),
                    ONE if reverse else ZERO)).k[:10]
    f, g = "perm:" + tag, "perminv:" + tag
    PERM_INVERSE[f] = g
    PERM_INVERSE[g] = f
    n = tt(s.length)
    tm.PERMS[f], tm.PERMS[g] = (canon(n), g, False), (canon(n), f, True)
    CTX.note("sorted", "sorted()/list.sort() returns a permutation ordered by key")
    j = ivar(s.length, "sj")
    CTX.assume(mk("forall", (j, and_(ge(app(f, j, sort=I), ZERO), lt(app(f, j, sort=I), n))), B))
    j = ivar(s.length, "sj")
    CTX.assume(mk("forall", (j, and_(ge(app(g, j, sort=I), ZERO), lt(app(g, j, sort=I), n))), B))
    if isinstance(kv, (SNum, int, float)):
        kf = lambda i: subst(term(kv), {k: app(f, i, sort=I)})
        j = ivar(s.length, "sj")
        a, b = kf(j), kf(add(j, ONE))
        CTX.assume(mk("forall", (j, or_(ge(add(j, ONE), n), le(a, b) if not reverse else ge(a, b))), B))
        # every key lies between the keys of the first and the last element
        own = lambda i: subst(term(kv), {k: i})
        first, last = kf(ZERO), kf(sub(n, ONE))
        j = ivar(s.length, "sj")
        CTX.assume(mk("forall", (j, le(own(j), last) if not reverse else ge(own(j), last)), B))
        j = ivar(s.length, "sj")
        CTX.assume(mk("forall", (j, le(first, own(j)) if not reverse else ge(first, own(j))), B))
    q = Seq(s.length, lambda i: s.at(app(f, i, sort=I)))
    q.sorted_from = (s, f, g)
    CTX.consts["order"] = (f, g, (lambda i: subst(term(kv), {k: i})), reverse, n)
    return SList(sym=q)


def perm_rewrite(f, args):
    """perm(perminv(x)) = x"""
    inv = PERM_INVERSE.get(f)
    if inv is not None and len(args) == 1 and args[0].op == "app" and args[0].args[0] == inv:
        return args[0].args[1]
    return None


tm.APP_HOOKS.append(lambda f, args, t: perm_rewrite(f, args))


def vf_set(it=()):
    s = iter_of(it)
    if isinstance(s, Seq) and not s.concrete:
        return SSet(s)
    xs = []
    for x in s:
        if not any(x is y or bool(x == y) for y in xs):
            xs.append(x)
    if any(isinstance(x, Sym) for x in xs):
        return SSet(Seq(len(xs), lambda i: pick(xs, i)))
    return set(xs)


class SSet(Sym):
    def __init__(self, seq):
        self.s = seq

    def __contains__(self, x):
        return contains(self.s, x)

    def vf_len(self):
        return self.s.vf_len()

    def __sub__(self, o):
        """the elements of a set of distinct ones that are not in the other, in any order"""
        from . import pdx
        if not isinstance(o, SSet) or getattr(self.s, "axis", None) is None or self.s.guard is not None:
            raise Unsupported("set difference")
        i = ivar(self.s.length, "sd")
        x = self.s.at(i)
        if o.s.concrete:
            inside = or_(*[term(e == x) if not isinstance(e == x, bool) else (TRUE if e == x else FALSE) for e in o.s])
        else:
            loc = locate(o.s, x)
            if loc is None:
                raise Unsupported("set difference")
            inside = loc[0]
        CTX.note("set", "a - b enumerates, in some order, each element of a that is not in b once")
        M, sel, inv = pdx.selection(fresh_name("diff"), self.s.length, lambda r: subst(not_(inside), {i: r}))
        tm.SELS[sel] = (canon(tt(M)), tt(self.s.length), lambda r: subst(not_(inside), {i: r}), inv)
        CTX.assume(eq(M, mksum(self.s.length, lambda r: iv(subst(not_(inside), {i: r})))))
        src = self.s
        ax = src.axis

        def find(x):
            p, q = ax.locate(x)
            return and_(p, subst(not_(inside), {i: q})), app(inv, q, sort=I)
        return SSet(Axis(M, lambda q: src.at(app(sel, q, sort=I)), find).seq())

    def _as_seq(self):
        return self.s

    def __iter__(self):
        return iter(self.s)

    def _py_is(self, c):
        return c is set or c is object

    def __eq__(self, o):
        raise Unsupported("set equality")

    def __hash__(self):
        return id(self)


def vf_print(*a, **k):
    CTX.events.append(("print",))


def vf_hasattr(o, n):
    try:
        vf_getattr(o, n)
        return True
    except AttributeError:
        return False


def vf_getattr(o, n, *d):
    return _b.getattr(o, n, *d)


FAKE_TYPES = {}


class Dispatcher:
    """stand-in for a builtin class usable both as constructor and in isinstance"""


BUILTINS = {}


def make_builtins():
    d = dict(vars(_b))
    d.update(len=vf_len, isinstance=vf_isinstance, sum=vf_sum, any=vf_any, all=vf_all, max=vf_max, min=vf_min,
             round=vf_round, range=vf_range, enumerate=vf_enumerate, zip=vf_zip, map=vf_map, filter=vf_filter,
             sorted=vf_sorted, print=vf_print, iter=lambda x: _b.iter(x))
    # constructors that are also types
    for name, real, mkf in (("float", float, vf_float), ("int", int, vf_int), ("list", list, vf_list),
                            ("tuple", tuple, vf_tuple), ("dict", dict, mkdict_cls(dict)), ("set", set, vf_set),
                            ("bool", bool, vf_bool), ("str", str, vf_str)):
        d[name] = TypeShim(name, real, mkf)
    return d


class TypeShim:
    def __init__(self, name, real, mkf):
        self.__name__ = name
        self.real, self.mkf = real, mkf

    def __call__(self, *a, **k):
        return self.mkf(*a, **k)

    def _vf_isinst(self, x):
        h = getattr(x, "_py_is", None)
        if h is not None:
            return h(self.real)
        return _b.isinstance(x, self.real)

    def __eq__(self, o):
        return o is self or o is self.real

    def __hash__(self):
        return hash(self.real)

    def __getattr__(self, k):
        return getattr(self.real, k)

    def __or__(self, o):
        return (self, o)

    def __getitem__(self, k):
        return self
