"""Term language of the verifier.

Hash-consed first-order terms over mathematical reals / integers / booleans /
labels with finite sums as binders, and a canonicalising normal form
(`nf`) for the commutative ring with finite sums, Iverson brackets and
Kronecker deltas.  Everything here is pure mathematics: no Python semantics.
"""
from fractions import Fraction
import hashlib
import itertools
import sys

sys.setrecursionlimit(20000)

R, I, B, L, O = "R", "I", "B", "L", "O"


class Budget(Exception):
    """the normal form grew past its budget"""


_table = {}
_digest_cache = {}


class T:
    __slots__ = ("op", "args", "sort", "k", "fv", "_nf", "_bnf", "_cn", "_sk", "lvl", "h", "__weakref__")

    def __repr__(self):
        return show(self)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return self.h


def _dig(x):
    if isinstance(x, T):
        return x.k
    if isinstance(x, tuple):
        return "(" + ",".join(_dig(y) for y in x) + ")"
    return repr(x)


def _rfv(v):
    """free variables of the range of an index variable"""
    return v.args[1].fv if len(v.args) > 1 and isinstance(v.args[1], T) else frozenset()


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.sort = op, args, sort
    t.k = hashlib.md5(("%s|%s|%s" % (op, sort, _dig(args))).encode()).hexdigest()[:20]
    t.h = hash(t.k)
    fv = frozenset()
    lvl = 0
    if op == "var":
        fv = frozenset([t])
    else:
        st = list(args)
        while st:
            a = st.pop()
            if isinstance(a, T):
                fv = fv | a.fv
                lvl = max(lvl, a.lvl)
            elif isinstance(a, tuple):
                st.extend(a)
        if op in BINDERS:
            fv = (fv | _rfv(args[0])) - {args[0]}
            lvl += 1
        elif op == "msum":
            for v in args[0]:
                fv = fv | _rfv(v)
            fv = fv - frozenset(args[0])
            lvl += 1
    t.fv = fv
    t.lvl = lvl
    t._nf = t._bnf = t._cn = t._sk = None
    _table[key] = t
    return t


BINDERS = {"sum", "prod", "forall", "exists", "argmax", "argmin", "amax", "amin", "lam"}

TRUE = mk("true", (), B)
FALSE = mk("false", (), B)


def num(c, sort=None):
    c = Fraction(c)
    if sort is None:
        sort = I if c.denominator == 1 else R
    return mk("num", (c,), sort)


ZERO, ONE = num(0), num(1)


def tt(x):
    """coerce python numbers to terms"""
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, Fraction)):
        return num(x)
    if isinstance(x, float):
        if x == float("inf"):
            return INF
        if x == float("-inf"):
            return neg(INF)
        if x != x:
            return NAN
        return num(Fraction(repr(x)))
    raise TypeError("not a term: %r" % (x,))


_fresh = itertools.count()


def reset_fresh():
    global _fresh
    _fresh = itertools.count()


def fresh_name(base):
    return "%s!%d" % (base, next(_fresh))


def var(name, sort=R, rng=None):
    return mk("var", (name, rng) if rng is not None else (name,), sort)


def rng_of(v):
    return v.args[1] if v.op == "var" and len(v.args) > 1 else None


def ivar(n, base="i"):
    """fresh index variable ranging over 0..n-1"""
    return var(fresh_name(base), I, tt(n))


SYMMETRIC = set()      # function names f with f(i,j)=f(j,i)


def app(f, *args, sort=R):
    args = tuple(tt(a) for a in args)
    return mk("app", (f,) + args, sort)


INF = mk("app", ("INF",), R)
NAN = mk("app", ("NAN",), R)


def _num_sort(ts):
    for t in ts:
        if t.sort != I:
            return R
    return I


def numval(t):
    return t.args[0] if t.op == "num" else None


def add(*ts):
    out = []
    c = Fraction(0)
    for t in ts:
        t = tt(t)
        if t.sort == B:
            t = iv(t)
        if t.op == "num":
            c += t.args[0]
        elif t.op == "add":
            for u in t.args:
                if u.op == "num":
                    c += u.args[0]
                else:
                    out.append(u)
        else:
            out.append(t)
    if c != 0:
        out.append(num(c))
    if not out:
        return num(c)
    if len(out) == 1:
        return out[0]
    return mk("add", tuple(out), _num_sort(out))


def mul(*ts):
    out = []
    c = Fraction(1)
    for t in ts:
        t = tt(t)
        if t.sort == B:
            t = iv(t)
        if t.op == "num":
            c *= t.args[0]
        elif t.op == "mul":
            for u in t.args:
                if u.op == "num":
                    c *= u.args[0]
                else:
                    out.append(u)
        else:
            out.append(t)
    if c == 0:
        return ZERO
    if c != 1:
        out.insert(0, num(c))
    if not out:
        return num(c)
    if len(out) == 1:
        return out[0]
    return mk("mul", tuple(out), _num_sort(out))


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(tt(b)))


def power(t, e):
    t = tt(t)
    if t.sort == B:
        t = iv(t)
    e = int(e)
    if e == 0:
        return ONE
    if e == 1:
        return t
    if t.op == "num":
        if t.args[0] == 0 and e < 0:
            return mk("pow", (t, e), R)
        return num(t.args[0] ** e)
    if t.op == "pow":
        return power(t.args[0], t.args[1] * e)
    return mk("pow", (t, e), t.sort if e > 0 else R)


def div(a, b):
    return mul(a, power(b, -1))


def tsum(v, body):
    """sum over index variable v (range inside v)"""
    body = tt(body)
    if body.sort == B:
        body = iv(body)
    if body.op == "num" and body.args[0] == 0:
        return ZERO
    return mk("sum", (v, body), body.sort)


def mksum(n, fn, base="i"):
    """sum_{0<=i<n} fn(i), expanded when n is a concrete number"""
    if isinstance(n, T) and n.op == "num":
        n = int(n.args[0])
    if isinstance(n, int):
        return add(*[fn(num(i)) for i in range(n)]) if n > 0 else ZERO
    v = ivar(n, base)
    return tsum(v, fn(v))


def mkbind(kind, n, fn, base="i"):
    v = ivar(n, base)
    b = tt(fn(v))
    return mk(kind, (v, b), B if kind in ("forall", "exists") else (I if kind.startswith("arg") else b.sort))


def forall(n, fn, base="i"):
    if isinstance(n, T) and n.op == "num":
        n = int(n.args[0])
    if isinstance(n, int):
        return and_(*[fn(num(i)) for i in range(n)])
    v = ivar(n, base)
    b = tt(fn(v))
    if v not in b.fv:
        return or_(not_(gt(n, ZERO)), b)
    return forall_v(v, b)


def forall_v(v, b):
    b = tt(b)
    if b in (TRUE,) or (v not in b.fv and b is FALSE and False):
        return b
    return mk("forall", (v, b), B)


def exists(n, fn, base="i"):
    if isinstance(n, T) and n.op == "num":
        n = int(n.args[0])
    if isinstance(n, int):
        return or_(*[fn(num(i)) for i in range(n)])
    v = ivar(n, base)
    b = tt(fn(v))
    if v not in b.fv:
        return and_(gt(n, ZERO), b)
    return mk("exists", (v, b), B)


def mkprod(n, fn, base="i"):
    if isinstance(n, T) and n.op == "num":
        n = int(n.args[0])
    if isinstance(n, int):
        return mul(*[fn(num(i)) for i in range(n)]) if n > 0 else ONE
    v = ivar(n, base)
    return mk("prod", (v, tt(fn(v))), R)


def iv(c):
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    return mk("iv", (c,), I)


def not_(c):
    c = tt(c)
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    return mk("not", (c,), B)


def and_(*cs):
    out = []
    for c in cs:
        c = tt(c)
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        if c.op == "and":
            for d in c.args:
                if d not in out:
                    out.append(d)
        elif c not in out:
            out.append(c)
    for c in out:
        if not_(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), B)


def or_(*cs):
    out = []
    for c in cs:
        c = tt(c)
        if c is FALSE:
            continue
        if c is TRUE:
            return TRUE
        if c.op == "or":
            for d in c.args:
                if d not in out:
                    out.append(d)
        elif c not in out:
            out.append(c)
    for c in out:
        if not_(c) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(out), B)


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    a, b = tt(a), tt(b)
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    return and_(implies(a, b), implies(b, a))


def _has_special(t):
    """does t contain NAN/INF as a possible value (through ite)?"""
    if t.op == "app" and t.args[0] in ("NAN", "INF"):
        return True
    if t.op == "ite":
        return _has_special(t.args[1]) or _has_special(t.args[2])
    if t.op == "mul" and len(t.args) == 2 and t.args[0].op == "num":
        return _has_special(t.args[1])
    return False


def _special_eq(a, b):
    """equality where NAN/INF constants may occur"""
    for x, y in ((a, b), (b, a)):
        if x.op == "ite":
            return or_(and_(x.args[0], eq(x.args[1], y)), and_(not_(x.args[0]), eq(x.args[2], y)))
    if a is b:
        return TRUE
    # distinct special constants, or special vs ordinary real
    return FALSE


def eq(a, b):
    a, b = tt(a), tt(b)
    if a is b:
        return TRUE
    if a.sort == B or b.sort == B:
        if a.sort == B and b.sort == B:
            return iff(a, b)
    if a.sort in (L, O) or b.sort in (L, O):
        if a.sort != b.sort:
            return FALSE
        for x, y in ((a, b), (b, a)):
            if x.op == "ite":
                return or_(and_(x.args[0], eq(x.args[1], y)), and_(not_(x.args[0]), eq(x.args[2], y)))
        # constructor-like labels: app("lab:X", i) is injective in i; lit labels distinct
        if a.op == "app" and b.op == "app":
            fa, fb = a.args[0], b.args[0]
            if fa.startswith("lab:") and fa == fb:
                return and_(*[eq(x, y) for x, y in zip(a.args[1:], b.args[1:])])
            if fa.startswith("lit:") and fb.startswith("lit:"):
                return FALSE
            if (fa.startswith("lit:") and fb.startswith("lab:")) or (fb.startswith("lit:") and fa.startswith("lab:")):
                return FALSE
        if b.k < a.k:
            a, b = b, a
        return mk("eqx", (a, b), B)
    if _has_special(a) or _has_special(b):
        return _special_eq(a, b)
    d = sub(a, b)
    if d.op == "num":
        return TRUE if d.args[0] == 0 else FALSE
    return mk("eq", (d,), B)


def gt(a, b=0):
    a, b = tt(a), tt(b)
    if a is INF and b is not INF:
        return TRUE
    for x in (a, b):
        if x.op == "ite" and _has_special(x):
            c = x.args[0]
            if x is a:
                return or_(and_(c, gt(x.args[1], b)), and_(not_(c), gt(x.args[2], b)))
            return or_(and_(c, gt(a, x.args[1])), and_(not_(c), gt(a, x.args[2])))
    if a is NAN or b is NAN:
        return FALSE
    ninf = neg(INF)
    if a is INF:
        return FALSE if b is INF else TRUE
    if b is ninf:
        return FALSE if a is ninf else TRUE
    if b is INF or a is ninf:
        return FALSE
    d = sub(a, b)
    if d.op == "num":
        return TRUE if d.args[0] > 0 else FALSE
    return mk("gt", (d,), B)


def lt(a, b):
    return gt(b, a)


def ge(a, b):
    a, b = tt(a), tt(b)
    if _has_special(a) or _has_special(b):
        if a.op == "ite":
            return or_(and_(a.args[0], ge(a.args[1], b)), and_(not_(a.args[0]), ge(a.args[2], b)))
        if b.op == "ite":
            return or_(and_(b.args[0], ge(a, b.args[1])), and_(not_(b.args[0]), ge(a, b.args[2])))
        if a is NAN or b is NAN:
            return FALSE
        return or_(gt(a, b), eq(a, b))
    if a.sort == I and b.sort == I:
        return gt(add(a, 1), b)
    return not_(gt(b, a))


def le(a, b):
    return ge(b, a)


def ite(c, a, b):
    c = tt(c)
    a, b = tt(a), tt(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == B and b.sort == B:
        return or_(and_(c, a), and_(not_(c), b))
    s = a.sort if a.sort == b.sort else (R if {a.sort, b.sort} <= {R, I} else a.sort)
    return mk("ite", (c, a, b), s)


CLIPS = {}      # result of clipping to numeric bounds: (lower, upper, value)


def _clip(lo, hi, x):
    """x clipped to [lo, hi], in the same form whichever bound is applied first"""
    r = ite(gt(x, hi), hi, ite(gt(lo, x), lo, x))
    CLIPS[r] = (lo, hi, x)
    return r


def _clipped(a, b, top):
    """max (top) or min of a number and something already clipped, or None"""
    for c, x in ((a, b), (b, a)):
        if c.op == "num" and x.op != "num":
            lo, hi, v = CLIPS.get(x, (None, None, x))
            n = lambda t: t.args[0]
            if top:
                if hi is not None and n(c) >= n(hi):
                    return c
                lo = c if lo is None or n(c) > n(lo) else lo
            else:
                if lo is not None and n(c) <= n(lo):
                    return c
                hi = c if hi is None or n(c) < n(hi) else hi
            if lo is not None and hi is not None:
                return _clip(lo, hi, v)
            r = (ite(gt(b, a), b, a) if top else ite(gt(a, b), b, a)) if v is x else None
            if r is not None:
                CLIPS[r] = (lo, hi, v)
            return r
    return None


def tmax(a, b):
    a, b = tt(a), tt(b)
    r = _clipped(a, b, True)
    return ite(gt(b, a), b, a) if r is None else r


def tmin(a, b):
    a, b = tt(a), tt(b)
    r = _clipped(a, b, False)
    return ite(gt(a, b), b, a) if r is None else r


def tabs(a):
    a = tt(a)
    if a.op == "num":
        return num(abs(a.args[0]))
    return ite(gt(ZERO, a), neg(a), a)


def sqrt(a):
    a = tt(a)
    if a.op == "num":
        from math import isqrt
        f = a.args[0]
        if f >= 0:
            p, q = isqrt(f.numerator), isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return num(Fraction(p, q))
    return app("sqrt", a)


def rpow(a, b):
    a, b = tt(a), tt(b)
    if b.op == "num":
        e = b.args[0]
        if e.denominator == 1 and abs(e) <= 8:
            return power(a, int(e))
        if e == Fraction(1, 2):
            return sqrt(a)
        if e == Fraction(-1, 2):
            return power(sqrt(a), -1)
    return app("rpow", a, b)


# ---------------------------------------------------------------- substitution
def subst(t, m):
    """simultaneous substitution of variables (dict T->T); capture avoiding"""
    memo = {}
    keys = frozenset(m)

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if not (x.fv & keys):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "var":
            r = m.get(x, x)
        elif x.op in BINDERS:
            v, b = x.args[0], x.args[1]
            if v in m or _rfv(v) & keys or any(v in r_.fv for r_ in m.values()):
                v2 = ivar(subst(rng_of(v), m)) if rng_of(v) is not None else ivar(rng_of(v))
                b2 = subst(subst(b, {v: v2}), {a: c for a, c in m.items() if a is not v})
                r = mk(x.op, (v2, b2) + tuple(x.args[2:]), x.sort)
            else:
                r = mk(x.op, (v, go(b)) + tuple(x.args[2:]), x.sort)
        elif x.op == "msum":
            vs, mono = x.args
            clash = [v for v in vs if v in m or _rfv(v) & keys or any(v in r_.fv for r_ in m.values())]
            if clash:
                ren = {v: ivar(subst(rng_of(v), m)) for v in vs}
                mono = tuple((subst(a, ren), e) for a, e in mono)
                vs = tuple(ren[v] for v in vs)
                mono = tuple((subst(a, m), e) for a, e in mono)
            else:
                mono = tuple((go(a), e) for a, e in mono)
            body = mul(*[power(a, e) for a, e in mono])
            r = body
            for v in vs:
                r = tsum(v, r)
        else:
            r = rebuild(x.op, tuple(go(a) for a in x.args), x.sort)
        memo[x] = r
        return r
    return go(t)


def replace_atom(t, a, b):
    """t with every occurrence of the subterm a replaced by the closed term b"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x is a:
            return b
        r = memo.get(x)
        if r is None:
            if not _inside(a, x):
                r = x
            elif x.op == "msum":
                vs, mono = x.args
                r = mul(*[power(go(y), e) for y, e in mono])
                for v in vs:
                    r = tsum(v, r)
            else:
                r = rebuild(x.op, tuple(go(y) for y in x.args), x.sort)
            memo[x] = r
        return r
    return go(t)


def rebuild(op, args, sort):
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "pow":
        return power(*args)
    if op == "iv":
        return iv(args[0])
    if op == "not":
        return not_(args[0])
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "eq":
        return eq(args[0], ZERO)
    if op == "eqx":
        return eq(*args)
    if op == "gt":
        return gt(args[0], ZERO)
    if op == "ite":
        return ite(*args)
    if op == "app":
        if args[0] == "sqrt":
            return sqrt(args[1])
        if args[0] == "rpow":
            return rpow(*args[1:])
    return mk(op, args, sort)


# ---------------------------------------------------------------- polynomials
MAXMONO = 6000


def padd(p, q, c=1):
    r = dict(p)
    for m, a in q.items():
        s = r.get(m, 0) + a * c
        if s == 0:
            r.pop(m, None)
        else:
            r[m] = s
    if len(r) > MAXMONO:
        raise Budget()
    return r


def pscale(p, c):
    return {m: a * c for m, a in p.items()} if c != 0 else {}


def _merge(m1, m2):
    """merge two monomials (sorted tuples of (atom, exp)); returns list"""
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    out = []
    for a, e in d.items():
        if a.op == "iv" and e > 1:
            e = 1
        if e != 0:
            out.append((a, e))
    out.sort(key=lambda x: x[0].k)
    return tuple(out)


APP_HOOKS = []      # f(name, canonical args, term) -> replacement term or None
RULES = []          # registered rewrite rules on monomials: f(mono, boundvars) -> poly or None


def _needs_fix(m):
    niv = 0
    for a, e in m:
        if a.op == "app" and a.args[0] == "sqrt" and (e >= 2 or e <= -2):
            return True
        if a.op == "iv":
            c = a.args[0]
            if c.op == "eq":
                return True
            niv += 1
        if a.op == "inv":
            if e < 0:
                return True
            q = _linv(a)
            if q is not None and any(b is q[0] for b, _ in m):
                return True
    return niv >= 2


_LINV = {}


def _linv(a):
    """(v, c0, c1) when the atom a is 1 / (c0 + c1 v) for a variable v"""
    r = _LINV.get(a, 0)
    if r == 0:
        r = None
        p = nf(a.args[0])
        if len(p) == 2 and () in p:
            (m, c1), = [(m, c) for m, c in p.items() if m]
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var":
                r = (m[0][0], p[()], c1)
        _LINV[a] = r
    return r


def _fix(m):
    """apply monomial simplifications; returns poly"""
    if not _needs_fix(m):
        return {m: Fraction(1)}
    # sqrt^2
    for idx, (a, e) in enumerate(m):
        if a.op == "app" and a.args[0] == "sqrt" and abs(e) >= 2:
            h = abs(e) // 2
            rest = m[:idx] + (((a, (abs(e) % 2) * (1 if e > 0 else -1)),) if e % 2 else ()) + m[idx + 1:]
            inner = nf(a.args[1])
            p = ppow(inner, h if e > 0 else -h)
            return pmul(_fix(rest), p)
    # partial fractions in a variable:  v/(c0 + c1 v)  and  1/(v (c0 + c1 v))
    for idx, (a, e) in enumerate(m):
        if a.op != "inv":
            continue
        if e < 0:
            return pmul(_fix(m[:idx] + m[idx + 1:]), ppow(nf(a.args[0]), -e))
        q = _linv(a)
        if q is None:
            continue
        v, c0, c1 = q
        ev = [x for b, x in m if b is v]
        if not ev:
            continue
        rest = {tuple((b, x) for b, x in m if b is not v and b is not a): Fraction(1)}
        ia, iv_ = {((a, 1),): Fraction(1)}, {((v, 1),): Fraction(1)}
        if ev[0] > 0:
            r = padd(pscale({(): Fraction(1)}, 1 / c1), pscale(ia, -c0 / c1))
            left = (v, ev[0] - 1)
        else:
            r = padd(pscale({((v, -1),): Fraction(1)}, 1 / c0), pscale(ia, -c1 / c0))
            left = (v, ev[0] + 1)
        if left[1]:
            r = pmul(r, {(left,): Fraction(1)})
        if e > 1:
            r = pmul(r, {((a, e - 1),): Fraction(1)})
        return pmul(rest, r)
    ivs = [a for a, e in m if a.op == "iv"]
    # contradictions
    if len(ivs) >= 2:
        conds = [a.args[0] for a in ivs]
        gts = {}
        for c in conds:
            if c.op == "gt":
                gts[c.args[0]] = c
        eqs = [c for c in conds if c.op == "eq"]
        for c in eqs:
            if c.args[0] in gts:
                return {}
            ng = canon(neg(c.args[0]))
            if ng in gts:
                return {}
        for p in list(gts):
            if canon(neg(p)) in gts:
                return {}
            # integer strict chains: p>0 and 1-p>0 impossible
            if p.sort == I and canon(sub(ONE, p)) in gts:
                return {}
    # deltas: substitute
    for a, e in m:
        if a.op == "iv" and a.args[0].op == "eq":
            p = nf(a.args[0].args[0])
            best = None
            for mm, c in p.items():
                if len(mm) == 1 and mm[0][1] == 1 and mm[0][0].op == "var":
                    v = mm[0][0]
                    if any(v in x.fv for m3 in p for x, _ in m3 if m3 is not mm):
                        continue
                    if v.sort == I and abs(c) != 1:
                        continue
                    if best is None or v.k > best[0].k:
                        best = (v, c, mm)
            if best is None:
                # whole-atom replacement  [atom = rest] * atom^e, in one fixed direction
                cand = None
                for mm, c in p.items():
                    if len(mm) == 1 and mm[0][1] == 1 and mm[0][0].op != "num":
                        at = mm[0][0]
                        if (cand is None or at.k > cand[0].k) and \
                                not any(_inside(at, x) for m3 in p for x, _ in m3 if m3 is not mm):
                            cand = (at, c, mm)
                if cand is not None:
                    at, c, mm = cand
                    hit = [(b, eb) for b, eb in m if b is at]
                    if hit and hit[0][1] > 0:
                        rest_p = {x: y for x, y in p.items() if x is not mm}
                        val = pscale(rest_p, Fraction(-1) / c)
                        rest = tuple((b, eb) for b, eb in m if b is not at)
                        return pmul({rest: Fraction(1)}, ppow(val, hit[0][1]))
                    rest_p = {x: y for x, y in p.items() if x is not mm}
                    if not rest_p or list(rest_p) == [()]:
                        # [atom = number]: the atom is that number inside every other factor
                        inn = [(b, eb) for b, eb in m if b is not a and b.op in ("iv", "inv") and _inside(at, b)]
                        if inn:
                            val = num(-rest_p.get((), Fraction(0)) / c)
                            keep = tuple((b, eb) for b, eb in m if not any(b is x for x, _ in inn))
                            r = {keep: Fraction(1)}
                            for b, eb in inn:
                                r = pmul(r, ppow(nf(replace_atom(b, at, val)), eb))
                            return r
                continue
            v, c, mm = best
            others = [(b, eb) for b, eb in m if b is not a and v in b.fv]
            if not others:
                continue
            rest_p = {x: y for x, y in p.items() if x is not mm}
            val = pterm(pscale(rest_p, Fraction(-1) / c))
            keep = tuple((b, eb) for b, eb in m if not (b is not a and v in b.fv))
            r = {keep: Fraction(1)}
            for b, eb in others:
                r = pmul(r, ppow(nf(subst(b, {v: val})), eb))
            return r
    return {m: Fraction(1)}


_INSIDE = {}


def _flat(args):
    for x in args:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _flat(x)


def _inside(a, t):
    """a occurs in t"""
    if a is t:
        return True
    r = _INSIDE.get((a, t))
    if r is None:
        r = any(_inside(a, x) for x in _flat(t.args))
        _INSIDE[(a, t)] = r
    return r


def pmul(p, q):
    if len(p) * len(q) > MAXMONO * 4:
        raise Budget()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _merge(m1, m2)
            c = c1 * c2
            if _needs_fix(m):
                for mm, cc in _fix(m).items():
                    s = r.get(mm, 0) + c * cc
                    if s == 0:
                        r.pop(mm, None)
                    else:
                        r[mm] = s
            else:
                s = r.get(m, 0) + c
                if s == 0:
                    r.pop(m, None)
                else:
                    r[m] = s
    if len(r) > MAXMONO:
        raise Budget()
    return r


def ppow(p, e):
    if e == 0:
        return {(): Fraction(1)}
    if e < 0:
        if not p:
            return {((mk("pow", (ZERO, -1), R), 1),): Fraction(1)}
        if len(p) == 1:
            (m, c), = p.items()
            mm = tuple((a, -x) for a, x in m)
            q = {mm: 1 / c}
            return ppow(q, -e) if e != -1 else q
        # pull out content so that the inverse is canonical
        m0 = min(p, key=_mkey)
        c = p[m0]
        # common atom factors
        common = None
        for m in p:
            d = dict(m)
            if common is None:
                common = dict(d)
            else:
                for k in list(common):
                    common[k] = min(common[k], d.get(k, 0))
                for k, x in d.items():
                    if k not in common and x < 0:
                        common[k] = x
        common = {k: x for k, x in common.items() if x}
        cm = tuple(sorted(common.items(), key=lambda x: x[0].k)) if common else ()
        cinv = tuple((a, -x) for a, x in cm)
        prim = {}
        for m, a in p.items():
            for m2, a2 in pmul({m: a / c}, {cinv: Fraction(1)}).items():
                prim[m2] = prim.get(m2, 0) + a2
        prim = {m: a for m, a in prim.items() if a}
        at = mk("inv", (pterm(prim),), R)
        q = {_merge(cinv, ((at, 1),)): 1 / c}
        r = q
        for _ in range(-e - 1):
            r = pmul(r, q)
        return r
    r = p
    for _ in range(e - 1):
        r = pmul(r, p)
    return r


def _mkey(m):
    return tuple((a.k, e) for a, e in m)


def pterm(p):
    """canonical term of a polynomial"""
    ts = []
    for m in sorted(p, key=_mkey):
        c = p[m]
        fs = [power(a, e) for a, e in m]
        ts.append(mul(num(c), *fs))
    if not ts:
        return ZERO
    if len(ts) == 1:
        t = ts[0]
    else:
        t = mk("add", tuple(ts), _num_sort(ts))
    if t._nf is None:
        t._nf = p
    t._cn = t
    return t


def canon(t):
    """canonical form of any term"""
    if t._cn is not None:
        return t._cn
    if t.sort == B:
        r = bnf(t)
    elif t.sort in (L, O):
        if t.op == "app":
            r = mk("app", (t.args[0],) + tuple(canon(a) for a in t.args[1:]), t.sort)
            for hk in APP_HOOKS:
                r2 = hk(r.args[0], r.args[1:], r)
                if r2 is not None:
                    r = r2 if r2._cn is r2 else canon(r2)
                    break
        elif t.op == "ite":
            r = ite(bnf(t.args[0]), canon(t.args[1]), canon(t.args[2]))
        else:
            r = t
    elif _has_special(t):
        if t.op == "ite":
            r = ite(bnf(t.args[0]), canon(t.args[1]), canon(t.args[2]))
        else:
            r = t
    else:
        r = pterm(nf(t))
    t._cn = r
    r._cn = r
    return r


def is_int_poly(p):
    for m, c in p.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if a.sort != I or e < 0:
                return False
    return True


def nf(t):
    r = t._nf
    if r is not None:
        return r
    r = _nf(t)
    t._nf = r
    return r


def _nf(t):
    op = t.op
    if op == "num":
        c = t.args[0]
        return {(): c} if c != 0 else {}
    if op == "var":
        return {((t, 1),): Fraction(1)}
    if op == "add":
        r = {}
        for a in t.args:
            r = padd(r, nf(a))
        return r
    if op == "mul":
        r = {(): Fraction(1)}
        for a in sorted(t.args, key=lambda a: len(nf(a))):
            r = pmul(r, nf(a))
            if not r:
                return r
        return r
    if op == "pow":
        return ppow(nf(t.args[0]), t.args[1])
    if op == "app":
        f = t.args[0]
        if f in ("INF", "NAN"):
            return {((t, 1),): Fraction(1)}
        args = tuple(canon(a) for a in t.args[1:])
        if f in SYMMETRIC and len(args) == 2 and args[1].k < args[0].k:
            args = (args[1], args[0])
        if f == "sqrt":
            return _nf_sqrt(args[0])
        for hk in APP_HOOKS:
            r2 = hk(f, args, t)
            if r2 is not None:
                return nf(r2)
        if f == "floor":
            p = nf(args[0])
            if is_int_poly(p):
                return p
        if f == "abs":
            return nf(tabs(args[0]))
        if f == "rpow":
            t2 = rpow(*args)
            if t2.op != "app":
                return nf(t2)
        if f == "log" and args[0].op == "num" and args[0].args[0] == 1:
            return {}
        if f == "log" and args[0].op == "app" and args[0].args[0] == "exp":
            return nf(args[0].args[1])
        if f == "exp":
            p = nf(args[0])
            if not p:
                return {(): Fraction(1)}
            if args[0].op == "app" and args[0].args[0] == "log":
                return nf(args[0].args[1])
        at = mk("app", (f,) + args, t.sort)
        at._nf = {((at, 1),): Fraction(1)}
        return at._nf
    if op == "iv":
        return _ivnf(bnf(t.args[0]))
    if op == "ite":
        c = bnf(t.args[0])
        if c is TRUE:
            return nf(t.args[1])
        if c is FALSE:
            return nf(t.args[2])
        pc = _ivnf(c)
        a, b = nf(t.args[1]), nf(t.args[2])
        return padd(b, pmul(pc, padd(a, b, -1)))
    if op == "sum":
        return _sumnf([t.args[0]], nf(t.args[1]))
    if op == "msum":
        vs, mono = t.args
        ren = {v: ivar(rng_of(v)) for v in vs}
        p = {(): Fraction(1)}
        for a, e in mono:
            p = pmul(p, ppow(nf(subst(a, ren)), e))
        return _sumnf(list(ren.values()), p)
    if op == "inv":
        return ppow(nf(t.args[0]), -1)
    if op == "prod":
        return _prodnf(t)
    if op in ("argmax", "argmin", "amax", "amin", "lam"):
        v, b = t.args[:2]
        cb = canon(b)
        if op in ("amax", "amin") and v not in cb.fv:
            return nf(cb)
        return _atom(_rename_binder(op, v, cb, t.args[2:], t.sort))
    if t.sort == B:
        return _ivnf(bnf(t))
    raise ValueError("nf: %s" % op)


def _nf_sqrt(a):
    p = nf(a)
    if not p:
        return {}
    if len(p) == 1:
        (m, c), = p.items()
        s = sqrt(num(c))
        # only pull out numeric squares (signs of atoms are unknown)
        if not m:
            if s.op == "num":
                return {(): s.args[0]}
        elif s.op == "num" and s.args[0] != 1:
            at = mk("app", ("sqrt", pterm({m: Fraction(1)})), R)
            return {((at, 1),): s.args[0]}
    else:
        m0 = min(p, key=_mkey)
        c = abs(p[m0])
        s = sqrt(num(c))
        if s.op == "num" and s.args[0] != 1:
            at = mk("app", ("sqrt", pterm(pscale(p, 1 / c))), R)
            return {((at, 1),): s.args[0]}
    at = mk("app", ("sqrt", a), R)
    return {((at, 1),): Fraction(1)}


def _atom(t):
    return {((t, 1),): Fraction(1)}


def _cvar(level, idx, rng):
    return var("%%%d_%d" % (level, idx), I, rng)


def _rename_binder(op, v, b, extra, sort):
    v2 = _cvar(b.lvl + 1, 0, canon(rng_of(v)))
    b2 = subst(b, {v: v2})
    b2 = canon(b2)
    return mk(op, (v2, b2) + tuple(extra), sort)


def _prodnf(t):
    v, b = t.args
    # prod_{s < q+1} b(s) = b(q) * prod_{s < q} b(s)   (q >= 0)
    r = nf(tt(rng_of(v)))
    if _const_decide(r) is not None:
        k = _const_decide(r)
        if k <= 8:
            out = {(): Fraction(1)}
            for j in range(max(0, int(k))):
                out = pmul(out, nf(subst(b, {v: num(j)})))
            return out
    c = r.get((), 0)
    if c >= 1 and len(r) > 1 and c == int(c) and c <= 4:
        q = padd(r, {(): Fraction(-1)})
        lo, _ = _index_decide(q)
        if lo is not None and lo >= 0:
            qt = pterm(q)
            w = ivar(qt)
            return pmul(nf(subst(b, {v: qt})), nf(mk("prod", (w, subst(b, {v: w})), R)))
    p = nf(b)
    if not p:
        p = {}
    if len(p) == 1:
        # product of a monomial: split into factors
        (m, c), = p.items()
        out = {(): Fraction(1)}
        if c != 1:
            out = pmul(out, _atom(mk("app", ("rpow", num(c), canon(rng_of(v))), R)))
        for a, e in m:
            if v in a.fv:
                at = _rename_binder("prod", v, canon(a), (), R)
                out = pmul(out, {((at, e),): Fraction(1)})
            else:
                out = pmul(out, _atom(mk("app", ("rpow", power(a, e), canon(rng_of(v))), R)))
        return out
    return _atom(_rename_binder("prod", v, pterm(p), (), R))


def _ivnf(c):
    """0/1 polynomial of a canonical boolean"""
    if c is TRUE:
        return {(): Fraction(1)}
    if c is FALSE:
        return {}
    op = c.op
    if op == "not":
        return padd({(): Fraction(1)}, _ivnf(c.args[0]), -1)
    if op == "and":
        r = {(): Fraction(1)}
        for d in c.args:
            r = pmul(r, _ivnf(d))
        return r
    if op == "or":
        r = {(): Fraction(1)}
        for d in c.args:
            r = pmul(r, padd({(): Fraction(1)}, _ivnf(d), -1))
        return padd({(): Fraction(1)}, r, -1)
    if op == "gt":
        p = nf(c.args[0])
        if _lead(p) < 0:
            if is_int_poly(p):
                q = padd({(): Fraction(1)}, p, -1)
                return padd({(): Fraction(1)}, _ivnf(bnf(gt(pterm(q)))), -1)
            q = pscale(p, Fraction(-1))
            r = padd({(): Fraction(1)}, _ivnf(bnf(gt(pterm(q)))), -1)
            return padd(r, _ivnf(bnf(eq(pterm(q), ZERO))), -1)
    at = mk("iv", (c,), I)
    return {((at, 1),): Fraction(1)}


def _shape(x):
    """digest that does not depend on the names of index variables"""
    if not isinstance(x, T):
        return "(" + ",".join(_shape(y) for y in x) + ")" if isinstance(x, tuple) else repr(x)
    r = x._sk
    if r is None:
        if x.op == "var":
            r = "ix" if rng_of(x) is not None else x.k
        else:
            a = x.args
            if x.op in ("add", "mul", "and", "or"):
                d = ",".join(sorted(_shape(y) for y in a))
            elif x.op == "msum":
                d = "%d;" % len(a[0]) + ",".join(sorted(_shape(y) for y in a[1]))
            else:
                d = ",".join(_shape(y) for y in a)
            r = hashlib.md5(("%s|%s|%s" % (x.op, x.sort, d)).encode()).hexdigest()[:20]
        x._sk = r
    return r


def _lead(p):
    """leading coefficient: decides the orientation of comparisons, so it must survive renaming of indices"""
    ms = [m for m in p if m]
    if not ms:
        return p.get((), 0)
    if len(ms) == 1:
        return p[ms[0]]
    return p[min(ms, key=lambda m: (sorted((_shape(a), e) for a, e in m), _mkey(m)))]


# ---------------------------------------------------------------- booleans
def bnf(t):
    r = t._bnf
    if r is not None:
        return r
    r = _bnf(t)
    t._bnf = r
    r._bnf = r
    return r


def _const_decide(p):
    if not p:
        return Fraction(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


def _range_sign(p):
    """sign information on an integer polynomial from index ranges: returns
    (lo_known_ge, hi_known_le) constants if p is  +-v + c  or v - n + c etc."""
    return None


def _bnf(t):
    op = t.op
    if op in ("true", "false"):
        return t
    if op == "not":
        return not_(bnf(t.args[0]))
    if op == "and":
        cs = [bnf(c) for c in t.args]
        r = and_(*cs)
        if r.op == "and":
            r = mk("and", tuple(sorted(r.args, key=lambda x: x.k)), B)
        return r
    if op == "or":
        r = or_(*[bnf(c) for c in t.args])
        if r.op == "or":
            r = mk("or", tuple(sorted(r.args, key=lambda x: x.k)), B)
        return r
    if op == "eqx":
        return eq(canon(t.args[0]), canon(t.args[1])) if t.args[0]._cn is None or t.args[1]._cn is None \
            or t.args[0]._cn is not t.args[0] or t.args[1]._cn is not t.args[1] else t
    if op == "eq":
        p = nf(t.args[0])
        c = _const_decide(p)
        if c is not None:
            return TRUE if c == 0 else FALSE
        # common factor iv's or scaling
        l = _lead(p)
        p = pscale(p, 1 / l)
        if is_int_poly(pscale(p, _denlcm(p))) and all(a.sort == I for m in p for a, _ in m):
            d = _denlcm(p)
            q = pscale(p, d)
            g = _content(q)
            c0 = q.get((), Fraction(0))
            if g and c0 % g != 0:
                return FALSE
            p = pscale(q, Fraction(1, g)) if g else q
            s = _index_decide(p)
            if s is not None and (s[0] is not None and s[0] > 0 or s[1] is not None and s[1] < 0):
                return FALSE
        return mk("eq", (pterm(p),), B)
    if op == "gt":
        p = nf(t.args[0])
        c = _const_decide(p)
        if c is not None:
            return TRUE if c > 0 else FALSE
        if all(a.sort == I and e > 0 for m in p for a, e in m):
            d = _denlcm(p)
            q = pscale(p, d)
            g = _content(q)
            c0 = q.get((), Fraction(0))
            # g*X + c0 > 0  <=>  X > -c0/g  <=> X >= floor(-c0/g)+1 <=> X - floor(-c0/g) > 0
            q = {m: a / g for m, a in q.items() if m}
            fl = (-c0 / g).__floor__()
            if fl:
                q[()] = Fraction(-fl)
            s = _index_decide(q)
            if s is not None:
                if s[0] is not None and s[0] > 0:
                    return TRUE
                if s[1] is not None and s[1] <= 0:
                    return FALSE
            return mk("gt", (pterm(q),), B)
        l = abs(_lead(p))
        return mk("gt", (pterm(pscale(p, 1 / l)),), B)
    if op == "ite":
        return bnf(or_(and_(t.args[0], t.args[1]), and_(not_(t.args[0]), t.args[2])))
    if op == "app":
        return mk("app", (t.args[0],) + tuple(canon(a) for a in t.args[1:]), B)
    if op in ("forall", "exists"):
        v, b = t.args
        b = bnf(b)
        if b is TRUE or b is FALSE:
            if op == "forall" and b is TRUE:
                return TRUE
            if op == "exists" and b is FALSE:
                return FALSE
        # split
        if op == "forall" and b.op == "and":
            return bnf(and_(*[mk("forall", (v, c), B) for c in b.args]))
        if op == "exists" and b.op == "or":
            return bnf(or_(*[mk("exists", (v, c), B) for c in b.args]))
        if v not in b.fv and op == "forall" and False:
            return b
        return _rename_binder(op, v, b, (), B)
    if op == "var":
        return t
    raise ValueError("bnf " + op)


def _denlcm(p):
    from math import lcm
    d = 1
    for c in p.values():
        d = lcm(d, c.denominator)
    return d


def _content(p):
    from math import gcd
    g = 0
    for m, c in p.items():
        if m:
            g = gcd(g, int(c))
    return g


MINDIM = {}     # dimension variable -> known minimum


def _index_decide(p):
    """bounds (lo, hi) for integer polynomial p from index ranges 0<=v<n and
    dimension minima; either may be None.  Linear only."""
    lo = hi = Fraction(0)
    # replace index vars by extremes: v in [0, n-1]
    plo, phi = {}, {}
    for m, c in p.items():
        if not m:
            plo = padd(plo, {(): c})
            phi = padd(phi, {(): c})
            continue
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var" and rng_of(m[0][0]) is not None:
            n1 = padd(nf(rng_of(m[0][0])), {(): Fraction(-1)})
            if c > 0:
                phi = padd(phi, n1, c)
            else:
                plo = padd(plo, n1, c)
        else:
            plo = padd(plo, {m: c})
            phi = padd(phi, {m: c})

    def bound(q, want_lo):
        s = Fraction(0)
        for m, c in q.items():
            if not m:
                s += c
                continue
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in MINDIM:
                mn = MINDIM[m[0][0]]
                if (c > 0) == want_lo:
                    s += c * mn
                else:
                    return None
            else:
                return None
        return s
    return bound(plo, True), bound(phi, False)


# ---------------------------------------------------------------- sums
def _sumnf(vs, p):
    """sum over index variables vs of polynomial p"""
    r = {}
    for m, c in p.items():
        r = padd(r, _summono(list(vs), m), c)
    return r


CONTRACTIONS = []     # functions (vs, mono) -> list[(coef, vs', mono')] or None
CENTRED = {}          # function name -> canonical range of its first index, over which it sums to zero


def _centred(vs, m):
    if not CENTRED:
        return None
    for a, e in m:
        if e == 1 and a.op == "app" and a.args[0] in CENTRED:
            v = a.args[1]
            if v in vs and canon(rng_of(v)) is CENTRED[a.args[0]] and not any(v in w.fv for w in a.args[2:]) and \
                    all(b is a or v not in b.fv for b, _ in m) and not any(v in _rfv(w) for w in vs):
                return []
    return None


CONTRACTIONS.append(_centred)

PERMS = {}            # permutation of 0..n-1 (function name) -> (canonical n, inverse, prefer to sum over the image)


def _permuted(vs, m):
    """sum_j F(j, f(j)) = sum_i F(f^-1(i), i) for a permutation f of the summation range"""
    if not PERMS:
        return None
    for v in vs:
        if any(v in _rfv(w) for w in vs):
            continue
        names = set()
        for a, e in m:
            if v in a.fv:
                for x in subterms(a):
                    if x.op == "app" and x.args[0] in PERMS and len(x.args) == 2 and x.args[1] is v:
                        names.add(x.args[0])
        for f in sorted(names):
            n, g, turn = PERMS[f]
            if canon(rng_of(v)) is not n:
                continue
            u = ivar(rng_of(v))
            p = {(): Fraction(1)}
            for a, e in m:
                p = pmul(p, ppow(nf(subst(a, {v: app(g, u, sort=I)})), e) if v in a.fv else {((a, e),): Fraction(1)})
            left = any(x.op == "app" and x.args[0] == g and x.args[1] is u for mm in p for a, _ in mm for x in subterms(a))
            if not left or turn:
                return [(Fraction(1), [u if w is v else w for w in vs], p)]
    return None


CONTRACTIONS.append(_permuted)


SELS = {}             # enumeration of a subset of 0..n-1 (function name) -> (canonical count, n, membership, position)


def _selected(vs, m):
    """sum_j F(j, f(j)) = sum_i [i in the image] F(pos(i), i) for an enumeration f of a subset"""
    if not SELS:
        return None
    for v in vs:
        if any(v in _rfv(w) for w in vs):
            continue
        names = {x.args[0] for a, e in m if v in a.fv for x in subterms(a)
                 if x.op == "app" and x.args[0] in SELS and len(x.args) == 2 and x.args[1] is v}
        for f in sorted(names):
            M, n, keep, g = SELS[f]
            if canon(rng_of(v)) is not M:
                continue
            u = ivar(n)
            p = nf(iv(keep(u)))
            for a, e in m:
                if v in a.fv:
                    b = subst(_prove().replace(a, {app(f, v, sort=I): u}), {v: app(g, u, sort=I)})
                    p = pmul(p, ppow(nf(b), e))
                else:
                    p = pmul(p, {((a, e),): Fraction(1)})
            return [(Fraction(1), [u if w is v else w for w in vs], p)]
    return None


def _prove():
    from . import prove
    return prove


CONTRACTIONS.append(_selected)


def _summono(vs, m):
    # open nested sums that mention a summation variable
    vset = set(vs)
    todo = None
    for idx, (a, e) in enumerate(m):
        if a.op == "msum" and e > 0 and (a.fv & vset) and not any(_rfv(w) & vset for w in a.args[0]):
            todo = (idx, a, e)
            break
    if todo:
        idx, a, e = todo
        ws, mono = a.args
        ren = {w: ivar(rng_of(w)) for w in ws}
        rest = m[:idx] + (((a, e - 1),) if e > 1 else ()) + m[idx + 1:]
        p = {rest: Fraction(1)}
        for b, eb in mono:
            p = pmul(p, ppow(nf(subst(b, ren)), eb))
        return _sumnf(vs + list(ren.values()), p)
    # delta elimination
    for a, e in m:
        if a.op == "iv" and a.args[0].op == "eq":
            p = nf(a.args[0].args[0])
            for mm, c in p.items():
                if len(mm) == 1 and mm[0][1] == 1 and mm[0][0] in vset and abs(c) == 1:
                    v = mm[0][0]
                    rest_p = {x: y for x, y in p.items() if x is not mm}
                    if any(v in x.fv for m3 in rest_p for x, _ in m3):
                        continue
                    if not is_int_poly(rest_p):
                        continue
                    val = pterm(pscale(rest_p, Fraction(-1) / c))
                    n = rng_of(v)
                    inr = and_(ge(val, ZERO), lt(val, n))
                    q = _ivnf(bnf(inr))
                    for b, eb in m:
                        if b is a:
                            continue
                        q = pmul(q, ppow(nf(subst(b, {v: val})), eb) if v in b.fv else {((b, eb),): Fraction(1)})
                        if not q:
                            return {}
                    return _sumnf([x for x in vs if x is not v], q)
    for rule in CONTRACTIONS:
        r = rule(vs, m)
        if r is not None:
            out = {}
            for c, vs2, p2 in r:
                out = padd(out, _sumnf(vs2, p2), c)
            return out
    # split into connected components
    free = []
    groups = []      # list of (set vars, list atoms)
    for a, e in m:
        s = a.fv & vset
        if not s:
            free.append((a, e))
            continue
        s = set(s)
        atoms = [(a, e)]
        ng = []
        for gs, ga in groups:
            if gs & s:
                s |= gs
                atoms = ga + atoms
            else:
                ng.append((gs, ga))
        ng.append((s, atoms))
        groups = ng
    used = set()
    for gs, _ in groups:
        used |= gs
    res = {tuple(sorted(free, key=lambda x: x[0].k)): Fraction(1)}
    for v in vs:
        if v not in used:
            res = pmul(res, nf(rng_of(v)))
    for gs, ga in groups:
        res = pmul(res, _component(sorted(gs, key=lambda v: v.k), ga))
    return res


def _component(vs, atoms):
    """canonical atom for a connected sum component"""
    lvl = max(a.lvl for a, _ in atoms) + 1
    rngs = {v: canon(rng_of(v)) for v in vs}
    if len(vs) == 1:
        order = [vs]
    else:
        star = var("*", I)
        other = var("?", I)
        sig = {}
        for v in vs:
            s = []
            for a, e in atoms:
                if v in a.fv:
                    mp = {w: (star if w is v else other) for w in vs if w in a.fv}
                    s.append((_skel(a, mp), e))
            s.sort()
            sig[v] = (rngs[v].k, tuple(s))
        # one refinement round
        for _ in range(2):
            ns = {}
            for v in vs:
                s = []
                for a, e in atoms:
                    if v in a.fv:
                        nb = tuple(sorted(str(hash_str(sig[w])) for w in vs if w in a.fv and w is not v))
                        mp = {w: (star if w is v else other) for w in vs if w in a.fv}
                        s.append((_skel(a, mp), e, nb))
                s.sort()
                ns[v] = (sig[v], tuple(s))
            sig = {v: hash_str(ns[v]) for v in vs}
            sig = {v: (rngs[v].k, sig[v]) for v in vs}
        buckets = {}
        for v in vs:
            buckets.setdefault(sig[v], []).append(v)
        keys = sorted(buckets)
        tot = 1
        for k in keys:
            for x in range(2, len(buckets[k]) + 1):
                tot *= x
        if tot > 800:
            raise Budget()
        order = [list(itertools.chain(*pp)) for pp in
                 itertools.product(*[list(itertools.permutations(buckets[k])) for k in keys])]
    best = None
    for od in order:
        mp = {v: _cvar(lvl, i, rngs[v]) for i, v in enumerate(od)}
        mono = []
        ok = True
        for a, e in atoms:
            b = canon(subst(a, mp))
            mono.append((b, e))
        mono.sort(key=lambda x: (x[0].k, x[1]))
        key = tuple((x.k, e) for x, e in mono)
        if best is None or key < best[0]:
            best = (key, tuple(mp[v] for v in od), mono)
    _, cvs, mono = best
    d = {}
    coef = Fraction(1)
    for a, e in mono:
        if a.op in ("num", "add", "mul", "pow"):
            # canonicalisation under the renaming changed shape: renormalise
            pass
    shape_ok = all(a.op not in ("num", "add", "mul", "pow") for a, _ in mono)
    if not shape_ok:
        ren = {v: ivar(rng_of(v)) for v in cvs}
        p = {(): Fraction(1)}
        for a, e in mono:
            p = pmul(p, ppow(nf(subst(a, ren)), e))
        if len(p) == 1 and list(p)[0] and all(any(v in a.fv for a, _ in list(p)[0]) for v in ren.values()):
            (m2, c2), = p.items()
            if all(a.op not in ("num", "add", "mul", "pow") for a, _ in m2):
                return pscale(_component(list(ren.values()), list(m2)), c2)
        return _sumnf(list(ren.values()), p)
    for a, e in mono:
        d[a] = d.get(a, 0) + e
    mono = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].k))
    at = mk("msum", (cvs, mono), _num_sort([a for a, e in mono]) if all(e > 0 for _, e in mono) else R)
    r = {((at, 1),): coef}
    at._nf = r
    return r


def hash_str(x):
    return hashlib.md5(repr(x).encode()).hexdigest()[:16]


def _skel(a, mp):
    return canon(subst(a, mp)).k


# ---------------------------------------------------------------- misc
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    op, a = t.op, t.args
    if op == "num":
        return str(a[0])
    if op == "var":
        return a[0]
    if op == "add":
        return "(" + " + ".join(show(x) for x in a) + ")"
    if op == "mul":
        return "*".join(show(x) for x in a)
    if op == "pow":
        return "%s^%d" % (show(a[0]), a[1])
    if op == "app":
        return "%s(%s)" % (a[0], ",".join(show(x) for x in a[1:])) if len(a) > 1 else a[0]
    if op in BINDERS:
        return "%s{%s<%s}(%s)" % (op, show(a[0]), show(rng_of(a[0])), show(a[1]))
    if op == "msum":
        return "S{%s}(%s)" % (",".join("%s<%s" % (show(v), show(rng_of(v))) for v in a[0]),
                              "*".join(show(x) + ("" if e == 1 else "^%d" % e) for x, e in a[1]))
    if op == "iv":
        return "[%s]" % show(a[0])
    if op == "gt":
        return "%s>0" % show(a[0])
    if op == "eq":
        return "%s=0" % show(a[0])
    if op == "eqx":
        return "%s==%s" % (show(a[0]), show(a[1]))
    if op in ("and", "or"):
        return "(" + (" & " if op == "and" else " | ").join(show(x) for x in a) + ")"
    if op == "not":
        return "~" + show(a[0])
    if op == "ite":
        return "if(%s,%s,%s)" % tuple(show(x) for x in a)
    return "%s(%s)" % (op, ",".join(show(x) for x in a))


def subterms(t):
    """all subterms, in order of appearance"""
    seen = {}
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(reversed(x))
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen[x] = True
        st.extend(reversed(x.args))
    return seen


def reset_caches():
    """forget normal forms (needed when rewrite hooks change)"""
    _LINV.clear()
    for t in list(_table.values()):
        t._nf = t._bnf = t._cn = t._sk = None
    for t in (TRUE, FALSE):
        t._bnf = t
