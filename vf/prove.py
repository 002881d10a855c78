"""Obligation discharge: normal form + z3 (and optionally cvc5 as a second opinion).

prove(hyps, goal) -> Result(ok, how, model)
The normal form decides identities of polynomials with finite sums of unbounded
length; z3 decides what remains after sums have been abstracted to opaque terms.
"""
import contextlib
import time
import z3
from . import term as tm
from .term import *

STATS = {"nf": 0, "z3": 0, "z3_time": 0.0, "nf_time": 0.0, "trivial": 0, "failed": 0}
TIMEOUT = 6000
SEED = 1


@contextlib.contextmanager
def patient():
    global TIMEOUT, SEED
    old = TIMEOUT, SEED
    TIMEOUT, SEED = 4 * TIMEOUT, 7
    try:
        yield
    finally:
        TIMEOUT, SEED = old


class Result:
    def __init__(self, ok, how, model=None, reason=""):
        self.ok, self.how, self.model, self.reason = ok, how, model, reason

    def __bool__(self):
        return self.ok


# ------------------------------------------------------------------ z3 translation
class Z:
    def __init__(self, deep=True):
        self.memo = {}
        self.axioms = []
        self.fns = {}
        self.names = {}       # z3 decl name -> term
        self.sums = []
        self.deep = deep
        self.LS = z3.DeclareSort("Lab")
        self.OS = z3.DeclareSort("Obj")
        self.labs = []

    def sort(self, s):
        return {R: z3.RealSort(), I: z3.IntSort(), B: z3.BoolSort(), L: self.LS, O: self.OS}[s]

    def fn(self, name, sorts, rs):
        key = (name, tuple(sorts), rs)
        f = self.fns.get(key)
        if f is None:
            if sorts:
                f = z3.Function(name, *[self.sort(s) for s in sorts], self.sort(rs))
            else:
                f = z3.Const(name, self.sort(rs))
            self.fns[key] = f
        return f

    def call(self, name, args, rs):
        f = self.fn(name, [a.sort for a in args], rs)
        if not args:
            return f
        return f(*[self.z(a) for a in args])

    def num(self, t):
        """z3 arithmetic value, promoting Ints to Real when t is real"""
        r = self.z(t)
        if z3.is_bool(r):
            r = z3.If(r, z3.IntVal(1), z3.IntVal(0))
        return r

    def real(self, t):
        r = self.num(t)
        if z3.is_int(r):
            r = z3.ToReal(r)
        return r

    def z(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._z(t)
            self.memo[t] = r
        return r

    def _z(self, t):
        op, a = t.op, t.args
        if op == "num":
            if a[0].denominator == 1 and t.sort == I:
                return z3.IntVal(int(a[0]))
            return z3.RealVal(str(a[0]))
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "var":
            v = self.fn("v:" + a[0], (), t.sort)
            rg = rng_of(t)
            if rg is not None:
                pass
            return v
        if op in ("add", "mul"):
            if t.sort == I:
                xs = [self.num(x) for x in a]
            else:
                xs = [self.real(x) for x in a]
            r = xs[0]
            for x in xs[1:]:
                r = r + x if op == "add" else r * x
            return r
        if op == "pow":
            b, e = a
            if e > 0:
                x = self.num(b) if t.sort == I else self.real(b)
                r = x
                for _ in range(e - 1):
                    r = r * x
                return r
            x = self.real(b)
            inv = self.inverse(b, x)
            r = inv
            for _ in range(-e - 1):
                r = r * inv
            return r
        if op == "inv":
            return self.inverse(a[0], self.real(a[0]))
        if op == "iv":
            return z3.If(self.z(a[0]), z3.IntVal(1), z3.IntVal(0))
        if op == "not":
            return z3.Not(self.z(a[0]))
        if op == "and":
            return z3.And(*[self.z(x) for x in a])
        if op == "or":
            return z3.Or(*[self.z(x) for x in a])
        if op == "gt":
            x = self.num(a[0])
            return x > 0
        if op == "eq":
            x = self.num(a[0])
            return x == 0
        if op == "eqx":
            return self.z(a[0]) == self.z(a[1])
        if op == "ite":
            c = self.z(a[0])
            if t.sort == R:
                return z3.If(c, self.real(a[1]), self.real(a[2]))
            return z3.If(c, self.z(a[1]), self.z(a[2]))
        if op == "app":
            f, args = a[0], a[1:]
            if f == "sqrt":
                x = self.real(args[0])
                s = self.call("sqrt", [_asreal(args[0])], R) if False else self._uf_real("sqrt", [x])
                self.axioms.append(z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)))
                self.axioms.append(z3.Implies(x > 0, s > 0))
                return s
            if f == "exp":
                s = self._uf_real("exp", [self.real(args[0])])
                self.axioms.append(s > 0)
                return s
            if f == "floor":
                return z3.ToInt(self.real(args[0]))
            if f == "tdiv":     # integer floor division
                return self.num(args[0]) / self.num(args[1])
            if f == "mod":
                return self.num(args[0]) % self.num(args[1])
            r = self.call("f:" + f, args, t.sort)
            if f == "rint":
                d = z3.ToReal(r) - self.real(args[0])
                self.axioms.append(z3.And(2 * d <= 1, -2 * d <= 1))
            if f in tm.PERMS and len(args) == 1:
                self.axioms.append(self.fn("f:" + tm.PERMS[f][1], [I], I)(r) == self.num(args[0]))
            if f.startswith("lab:") and t.sort == L:
                self.labs.append((f, args, r))
            return r
        if op in ("forall", "exists"):
            v, b = a
            x = self.fn("v:" + v.args[0], (), I)
            rg = self.z(rng_of(v))
            body = self.z(b)
            if op == "forall":
                return z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < rg), body))
            return z3.Exists([x], z3.And(x >= 0, x < rg, body))
        if op in ("sum", "msum", "prod", "argmax", "argmin", "amax", "amin", "lam"):
            c = canon(t)
            if c.op not in ("sum", "msum", "prod", "argmax", "argmin", "amax", "amin", "lam"):
                return self.z(c)
            fvs = sorted(c.fv, key=lambda v: v.args[0])
            # bound canonical variables do not occur free
            key = subst(c, {v: var("#%d" % i, v.sort, rng_of(v)) for i, v in enumerate(fvs)}) if fvs else c
            nm = "%s@%s" % (op if op != "sum" else "msum", canon(key).k[:12])
            rs = I if c.op in ("argmax", "argmin") or c.op == "msum" and c.sort == I else R
            r = self.call(nm, fvs, rs)
            self.sums.append((c, r))
            return r
        raise ValueError("z3: " + op)

    def _uf_real(self, name, zs):
        key = (name, len(zs), "real")
        f = self.fns.get(key)
        if f is None:
            f = z3.Function(name, *([z3.RealSort()] * (len(zs) + 1)))
            self.fns[key] = f
        return f(*zs)

    def inverse(self, t, x):
        key = ("inv", t)
        r = self.memo.get(key)
        if r is None:
            r = self._uf_real("inv", [x])
            self.axioms.append(z3.Implies(x != 0, r * x == 1))
            self.memo[key] = r
        return r


def _asreal(t):
    return t


def _range_facts(terms):
    """range facts 0<=v<n for every free ranged variable, dimension minima"""
    fs = []
    seen = set()
    for t in terms:
        for v in t.fv:
            if v in seen:
                continue
            seen.add(v)
            rg = rng_of(v)
            if rg is not None:
                fs.append(ge(v, ZERO))
                fs.append(lt(v, rg))
                for u in rg.fv:
                    if u in tm.MINDIM and u not in seen:
                        seen.add(u)
                        fs.append(ge(u, num(tm.MINDIM[u])))
            if v in tm.MINDIM:
                fs.append(ge(v, num(tm.MINDIM[v])))
    return fs


LABEL_INJ = True


def _lab_axioms(Zt):
    ax = []
    labs = Zt.labs
    for i in range(len(labs)):
        for j in range(i):
            f, a, x = labs[i]
            g, b, y = labs[j]
            if x.eq(y):
                continue
            if f == g and a:
                ax.append(z3.Implies(x == y, z3.And(*[Zt.num(p) == Zt.num(q) for p, q in zip(a, b)])))
    return ax


def index_terms(ts):
    """integer index terms that occur as arguments of applications"""
    out = []
    for t in tm.subterms(mk("and", tuple(ts), B)) if ts else ():
        if t.op == "app":
            for x in t.args[1:]:
                if x.sort == I and x not in out:
                    out.append(x)
        if t.op == "var" and rng_of(t) is not None and not t.args[0].startswith("%") and t not in out:
            out.append(t)
    return out


def _free_only(t, bound=("%", "i!")):
    return all(not v.args[0].startswith("%") for v in t.fv)


MATCH = [False]


def _apps(t):
    return [x for x in tm.subterms(t) if x.op == "app"]


def ematch(hyps, goals, rounds=4, cap=260):
    """instances of universally quantified hypotheses, found by matching their applications with those of the other formulas"""
    qs = [h for h in hyps if h.op == "forall"]
    out, ground, seen = [], {}, set()
    inst_of = set()

    def more(t):
        for x in _apps(t):
            if x not in seen and _free_only(x):
                seen.add(x)
                ground.setdefault((x.args[0], len(x.args)), []).append(x)

    for t in list(goals) + [h for h in hyps if h.op != "forall"]:
        more(t)
    for q in qs:
        for x in _apps(q):
            if _free_only(x):
                more(x)
    pats = {}

    def patterns(q):
        r = pats.get(q)
        if r is None:
            v, b = q.args
            r = [(x, k) for x in _apps(b) for k, a in enumerate(x.args) if k and (a is v or (v in a.fv and a.sort == I))]
            pats[q] = r
        return r
    for _ in range(rounds):
        new, fresh = [], []
        for q in qs:
            v, b = q.args
            n = rng_of(v)
            cs = []
            for x, k in patterns(q):
                for g in ground.get((x.args[0], len(x.args)), ()):
                    if all(j == k or not j or a is g.args[j] or not _free_only(a) or v in a.fv for j, a in enumerate(x.args)):
                        c = g.args[k] if x.args[k] is v else canon(add(v, tm.sub(g.args[k], x.args[k])))
                        if v not in c.fv and _free_only(c) and c not in cs:
                            cs.append(c)
            for c in cs:
                if (q, c) in inst_of:
                    continue
                inst_of.add((q, c))
                i = bnf(implies(and_(ge(c, ZERO), lt(c, n)), subst(b, {v: c})))
                if i is TRUE:
                    continue
                if i.op == "forall":
                    new.append(i)
                elif i.op == "or" and any(d.op == "forall" for d in i.args):
                    # guard => forall: move the guard inside
                    d = next(d for d in i.args if d.op == "forall")
                    rest = [e for e in i.args if e is not d]
                    new.append(mk("forall", (d.args[0], or_(*rest, d.args[1])), B))
                elif i.op == "and":
                    for d in i.args:
                        (new if d.op == "forall" else fresh).append(d)
                else:
                    fresh.append(i)
        fresh = [f for f in dict.fromkeys(fresh) if f not in out]
        out.extend(fresh)
        for f in fresh:
            more(f)
        qs = list(dict.fromkeys(qs + new))
        for q in new:
            for x in _apps(q):
                if _free_only(x):
                    more(x)
        if not fresh and not new or len(out) > cap:
            break
    return [f for f in out if not _hasq(f)][:cap]


def instantiate(hyps, goals, extra=()):
    """instances of universally quantified hypotheses at index terms of the goal"""
    qs = [h for h in hyps if h.op == "forall"]
    if not qs:
        return []
    if MATCH[0]:
        return ematch(hyps, goals)
    cands = []
    goals = list(goals)
    for g in list(goals):
        try:
            c = canon(g)
            if c is not g:
                goals.append(c)
        except Budget:
            pass
    free = frozenset().union(*[t.fv for t in goals], *[t.fv for t in hyps])
    for t in list(extra) + index_terms(goals) + index_terms([h for h in hyps if h.op != "forall"]):
        if _free_only(t) and t not in cands and len(cands) < 14 and t.fv <= free:
            # only terms whose variables are really free in hyps/goals
            cands.append(t)
    out = []
    for _ in range(2):
        new = []
        for q in qs:
            v, b = q.args
            n = rng_of(v)
            for c in cands:
                inst = implies(and_(ge(c, ZERO), lt(c, n)), subst(b, {v: c}))
                inst = bnf(inst)
                if inst.op == "forall" and inst not in qs:
                    new.append(inst)
                if inst is not TRUE and inst not in out:
                    out.append(inst)
                for d in (inst.args if inst.op in ("or", "and") else ()):
                    if d.op == "forall" and inst.op == "and" and d not in qs:
                        new.append(d)
        if not new or len(out) > 300:
            break
        qs = new
    return out[:400]


def solve(hyps, goal, timeout=None, quant=True, want_model=False):
    """z3: is (hyps => goal) valid?  returns (status, model, translator)"""
    t0 = time.time()
    Zt = Z()
    allts = list(hyps) + [goal]
    facts = _range_facts(allts)
    s = z3.Solver()
    s.set("timeout", timeout or TIMEOUT)
    s.set("random_seed", SEED)
    zs = []
    for h in list(hyps) + facts:
        if h.op == "forall" and not quant:
            continue
        zs.append(Zt.z(h))
    zg = Zt.z(goal)
    for x in zs:
        s.add(x)
    s.add(z3.Not(zg))
    done = 0
    ax = Zt.axioms
    for x in ax:
        s.add(x)
    for x in _lab_axioms(Zt):
        s.add(x)
    r = s.check()
    STATS["z3_time"] += time.time() - t0
    if r == z3.unsat:
        return "unsat", None, Zt
    m = None
    if r == z3.sat and want_model:
        m = s.model()
    return str(r), m, Zt


_feas_cache = {}


_extreme = {}


def _extremes(t):
    """closed amax/amin/argmax/argmin subterms"""
    r = _extreme.get(t)
    if r is None:
        r = tuple(x for x in tm.subterms(t) if x.op in ("amax", "amin", "argmax", "argmin") and _free_only(x)
                  and not any(v.args[0].startswith("i!") for v in x.fv))
        _extreme[t] = r
    return r


def _skolem(t, out):
    if t.op == "and":
        for x in t.args:
            _skolem(x, out)
    elif t.op == "not" and t.args[0].op == "or":
        for x in t.args[0].args:
            _skolem(not_(x), out)
    elif t.op == "exists" and _free_only(t):
        v, b = t.args
        n = rng_of(v)
        sk = var("ex!" + canon(t).k[:10], I, n)
        out.append(ge(sk, ZERO))
        out.append(lt(sk, n))
        _skolem(bnf(subst(b, {v: sk})), out)
    elif t.op == "not" and t.args[0].op == "exists":
        out.append(mk("forall", (t.args[0].args[0], bnf(not_(t.args[0].args[1]))), B))
    elif t is not TRUE:
        out.append(t)


def prep(hyps, goals=()):
    """hypotheses with existentials opened and the defining facts of max/min terms added"""
    from . import npx
    out = []
    for h in hyps:
        _skolem(h, out)
    seen = set()
    for t in list(out) + list(goals):
        for x in _extremes(t):
            x = canon(x)
            if x in seen or x.op not in ("amax", "amin", "argmax", "argmin"):
                continue
            seen.add(x)
            n = rng_of(x.args[0])
            out.append(bnf(gt(n, ZERO)) if False else implies(gt(n, ZERO), tm.and_(*[
                f for f in npx.extreme_facts(x) if f.op != "forall"])))
            out.extend(canon(f) for f in npx.extreme_facts(x) if f.op == "forall")
    return list(dict.fromkeys(out))


def feasible(pc, c=None, timeout=1500):
    """quick satisfiability of the path condition (unknown counts as feasible)"""
    hs = list(pc) + ([c] if c is not None else [])
    key = frozenset(hs)
    r = _feas_cache.get(key)
    if r is not None:
        return r
    hs = prep(hs)
    # only the part connected to quantifier-free facts is used
    st, _, _ = solve([h for h in hs if not _hasq(h)] +
                     instantiate(hs, [h for h in hs if h.op != "forall"])[:60 if not MATCH[0] else 300], FALSE, timeout, quant=False)
    r = st != "unsat"
    _feas_cache[key] = r
    if r and any(not _hasq(h) and _prefix_sum(h) for h in hs) and refuted_by_sums(hs):
        r = _feas_cache[key] = False
    return r


def _hasq(t):
    return any(x.op in ("forall", "exists") for x in tm.subterms(t))


_ent_cache = {}


def entails(hyps, c, timeout=1500):
    c = bnf(c)
    if c is TRUE:
        return True
    if c in hyps:
        return True
    if c is FALSE:
        return not feasible(hyps, None, timeout)
    key = (frozenset(hyps), c)
    r = _ent_cache.get(key)
    if r is None:
        hyps2 = prep(hyps, [c])
        hs = [h for h in hyps2 if not _hasq(h)] + instantiate(hyps2, [c])[:60 if not MATCH[0] else 300]
        st, _, _ = solve(hs, c, timeout, quant=False)
        r = st == "unsat"
        _ent_cache[key] = r
    return r


# ------------------------------------------------------------------ simplification under hypotheses
def _iv_conds(t):
    out = []
    for x in tm.subterms(t):
        c = None
        if x.op == "iv":
            c = x.args[0]
        elif x.op == "ite":
            c = x.args[0]
        if c is not None and c not in out:
            if all(not v.args[0].startswith("%") for v in c.fv):
                out.append(c)
    return out


def replace(t, mp):
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x in mp:
            r = mp[x]
        elif x.op in ("num", "var", "true", "false"):
            r = x
        elif x.op in tm.BINDERS:
            r = mk(x.op, (x.args[0], go(x.args[1])) + tuple(go(a) for a in x.args[2:]), x.sort)
        elif x.op == "msum":
            vs, mono = x.args
            r = mul(*[power(go(a), e) for a, e in mono])
            for v in vs:
                r = tsum(v, r)
        elif x.op == "inv":
            r = power(go(x.args[0]), -1)
        else:
            r = tm.rebuild(x.op, tuple(go(a) for a in x.args), x.sort)
        memo[x] = r
        return r
    return go(t)


def simp_under(hyps, t, rounds=3):
    """resolve Iverson/ite conditions entailed or refuted by hyps"""
    for _ in range(rounds):
        t = canon(t)
        mp = {}
        for c in _iv_conds(t):
            if entails(hyps, c):
                mp[c] = TRUE
            elif entails(hyps, not_(c)):
                mp[c] = FALSE
        # conditions under sums: bound canonical variables get range facts automatically
        for x in tm.subterms(t):
            if x.op == "iv" and x.args[0] not in mp and any(v.args[0].startswith("%") for v in x.args[0].fv):
                c = x.args[0]
                if len(mp) < 40:
                    if entails(hyps, c):
                        mp[c] = TRUE
                    elif entails(hyps, not_(c)):
                        mp[c] = FALSE
        if not mp:
            return t
        t2 = canon(replace(t, mp))
        if t2 is t:
            return t
        t = t2
    return t


def _inv_atoms(p):
    out = []
    for m in p:
        for a, e in m:
            if a.op == "inv" and a not in out and e > 0:
                out.append(a)
    return out


def clear_denoms(p, limit=8):
    """multiply polynomial through by denominators (assumed non-zero)"""
    for _ in range(limit):
        ivs = _inv_atoms(p)
        if not ivs:
            # negative exponents of plain atoms
            neg_ = {}
            for m in p:
                for a, e in m:
                    if e < 0:
                        neg_[a] = min(neg_.get(a, 0), e)
            if neg_:
                mm = tuple(sorted(((a, -e) for a, e in neg_.items()), key=lambda x: x[0].k))
                p = tm.pmul(p, {mm: tm.Fraction(1)})
                # sqrt^2 may reappear; loop again
                if any(e < 0 for m in p for a, e in m):
                    continue
            return p
        a = max(ivs, key=lambda x: (x.lvl, x.k))
        mx = max(e for m in p for b, e in m if b is a)
        P = tm.nf(a.args[0])
        r = {}
        for m, c in p.items():
            e = dict(m).get(a, 0)
            rest = tuple((b, eb) for b, eb in m if b is not a)
            q = tm.pmul({rest: c}, tm.ppow(P, mx - e)) if mx - e else {rest: c}
            r = tm.padd(r, q)
        p = r
    return p


# ------------------------------------------------------------------ proving
def _solved_var(c):
    """(v, value) if the condition c fixes a free index variable"""
    if c.op != "eq":
        return None
    p = tm.nf(c.args[0])
    for m, k in p.items():
        if len(m) == 1 and m[0][1] == 1 and abs(k) == 1 and m[0][0].op == "var" and rng_of(m[0][0]) is not None:
            v = m[0][0]
            rest = {x: y for x, y in p.items() if x is not m}
            if tm.is_int_poly(rest) and not any(v in a.fv for mm in rest for a, _ in mm):
                return v, tm.pterm(tm.pscale(rest, tm.Fraction(-1) / k))
    return None


def _ineq(h):
    """polynomial terms X with h => X >= 0 (strictly where flagged)"""
    if h.op == "gt":
        return [(h.args[0], True)]
    if h.op == "not" and h.args[0].op == "gt":
        return [(neg(h.args[0].args[0]), False)]
    if h.op == "eq":
        return [(h.args[0], False), (neg(h.args[0]), False)]
    return []


def _sum_atom(m):
    """(position, sum) if the monomial has one single-variable sum as a factor"""
    at = [(i, a) for i, (a, e) in enumerate(m) if a.op == "msum"]
    if len(at) == 1 and m[at[0][0]][1] == 1 and len(at[0][1].args[0]) == 1:
        return at[0]
    return None


def _split_sums(p, n=None):
    """polynomial -> (constant part, [(range, function of the index)]) or None"""
    const, sums = {}, []
    for m, c in p.items():
        if not any(a.op == "msum" for a, _ in m):
            const[m] = c
            continue
        s = _sum_atom(m)
        if s is None:
            return None
        i, a = s
        v, mono = a.args[0][0], a.args[1]
        rest = tm.pterm({m[:i] + m[i + 1:]: c})
        body = mul(*([rest] + [power(x, e) for x, e in mono]))
        sums.append((canon(rng_of(v)), lambda j, b=body, v=v: subst(b, {v: j})))
    return const, sums


def dominate(hyps, X, budget=8.0):
    """X >= 0 for X = a + sum_{j<n} .. + sum_{j<k} .. + terms in k, termwise against one hypothesis on a sum"""
    p = tm.nf(X)
    sp = _split_sums(p)
    if sp is None or not sp[1]:
        return False
    const, sums = sp
    rs = {r for r, _ in sums}
    pre = [r for r in rs if r.op == "var" and rng_of(r) is not None]
    if len(pre) > 1:
        return False
    k = pre[0] if pre else None
    n = canon(rng_of(k)) if k is not None else list(rs)[0]
    if rs - {n, k}:
        return False
    single = {m: c for m, c in const.items() if k is not None and any(k in a.fv for a, _ in m)}
    const = {m: c for m, c in const.items() if m not in single}
    cands = [({}, [])]
    for h in hyps:
        for Y, _ in _ineq(h):
            try:
                s2 = _split_sums(tm.nf(Y))
            except Budget:
                continue
            if s2 is None or len(s2[1]) == 0 or any(r is not n for r, _ in s2[1]) or len(s2[0]) != 1:
                continue
            (m0, c0), = s2[0].items()
            if m0 == () and c0 > 0:
                cands.append((s2[0], s2[1]))
    perms = []
    if k is not None:
        j = ivar(n, "dj")
        for r, f in sums:
            for x in tm.subterms(canon(f(j))):
                if x.op == "app" and x.args[0] in tm.PERMS and len(x.args) == 2 and x.args[1] is j:
                    perms.append(x.args[0])
    for hc, hs_ in cands:
        if not hc:
            mu = ZERO
            if not const or not entails(hyps, ge(tm.pterm(const), ZERO)):
                if const:
                    continue
        else:
            (m0, c0), = hc.items()
            mu = tm.pterm(tm.pscale(const, tm.Fraction(1) / c0)) if const else ZERO
            if mu is ZERO or not entails(hyps, ge(mu, ZERO)):
                continue
        for f in (list(dict.fromkeys(perms)) or [None]):
            def full(j):
                i = tm.app(f, j, sort=I) if f else j
                own = [g(j) for r, g in sums if r is n]
                return tm.add(*([ZERO] + own + [neg(mul(mu, g(i))) for _, g in hs_]))

            def ok(extra, t):
                return Prover(budget).prove(flat_and(prep(list(hyps) + extra, [])), canon(ge(t, ZERO)))
            j = var(fresh_name("dom"), I, n)
            base = [ge(j, ZERO), lt(j, n)]
            if k is None:
                if ok(base, full(j)):
                    return True
                continue
            if ok(base + [lt(j, k)], tm.add(full(j), *[g(j) for r, g in sums if r is k])) and \
                    ok([], tm.add(full(k), tm.pterm(single))) and ok(base + [gt(j, k)], full(j)):
                return True
    return False


_dom_cache = {}


def refuted_by_sums(hyps):
    """some hypothesis X > 0 contradicts -X >= 0, shown termwise"""
    for h in hyps:
        if h.op == "gt" and any(x.op == "msum" for x in tm.subterms(canon(h))):
            key = (frozenset(hyps), h)
            if key not in _dom_cache:
                _dom_cache[key] = False         # also cuts recursion
                try:
                    _dom_cache[key] = dominate([x for x in hyps if x is not h], canon(neg(h.args[0])))
                except Budget:
                    pass
            if _dom_cache[key]:
                return True
    return False


def _prefix_sum(t):
    return any(x.op == "msum" and any(rng_of(v).op == "var" and rng_of(rng_of(v)) is not None for v in x.args[0])
               for x in tm.subterms(canon(t)))


class Prover:
    def __init__(self, budget=40.0, quick=None):
        self.quick = quick
        self.deadline = time.time() + budget
        self.log = []
        self.failed = None
        self.parts = 0

    def prove(self, hyps, goal, depth=0):
        hyps = list(dict.fromkeys(h for h in hyps if h is not TRUE))
        if time.time() > self.deadline:
            return self.fail(hyps, goal, "time budget")
        try:
            return self._prove(hyps, goal, depth)
        except Budget:
            return self._smt(hyps, goal, note="normal form budget")

    def fail(self, hyps, goal, reason, model=None):
        if self.failed is None:
            self.failed = (hyps, goal, reason, model)
        return False

    def _prove(self, hyps, goal, depth):
        g = goal
        if g is TRUE:
            STATS["trivial"] += 1
            return True
        if g in hyps:
            return True
        op = g.op
        if op == "and":
            return all(self.prove(hyps, c, depth) for c in g.args)
        if op == "forall":
            v, b = g.args
            sk = var(fresh_name("sk"), I, rng_of(v))
            b2 = subst(b, {v: sk})
            n = rng_of(v)
            return self.prove(hyps + [ge(sk, ZERO), lt(sk, n)], b2, depth)
        if op == "or":
            # choose the positive part as goal; assume the negations of the others
            pos = [c for c in g.args if c.op in ("eq", "eqx", "forall", "and", "exists")]
            pick = pos[-1] if pos else g.args[-1]
            rest = [not_(c) for c in g.args if c is not pick]
            if pick.op in ("forall", "and") and len(pos) <= 1:
                return self.prove(hyps + flat_and(rest), pick, depth)
            if len(pos) == 1:
                return self.prove(hyps + flat_and(rest), pick, depth)
            if depth < 3 and len(pos) <= 4 and all(c.op == "eq" for c in pos):
                for pick in reversed(pos):
                    q = Prover(max(1, min(8, (self.deadline - time.time()) / 3)), quick=800)
                    if q.prove(hyps + flat_and([not_(c) for c in g.args if c is not pick]), pick, depth + 1):
                        return True
            return self._smt(hyps, g)
        if op == "not" and g.args[0].op == "or":
            return all(self.prove(hyps, not_(c), depth) for c in g.args[0].args)
        if op == "not" and g.args[0].op == "and":
            return self.prove(hyps, or_(*[not_(c) for c in g.args[0].args]), depth)
        if op == "not" and g.args[0].op == "exists":
            v, b = g.args[0].args
            return self.prove(hyps, mk("forall", (v, not_(b)), B), depth)
        if op == "eq":
            return self._eq(hyps, g, depth)
        if op == "exists" and depth < 3:
            v, b = g.args
            n = canon(rng_of(v))
            # witnesses of the right range first
            ws = [c for c in index_terms([g] + [h for h in hyps if h.op != "forall"]) if _free_only(c)]
            ws.sort(key=lambda c: not (rng_of(c) is not None and canon(rng_of(c)) is n))
            for c in ws[:5]:
                q = Prover(max(1, min(8, (self.deadline - time.time()) / 3)), quick=800)
                if q.prove(hyps, bnf(and_(ge(c, ZERO), lt(c, n), subst(b, {v: c}))), depth + 1):
                    return True
        return self._smt(hyps, g)

    def _eq(self, hyps, g, depth):
        t0 = time.time()
        d = g.args[0]
        p = tm.nf(d)
        STATS["nf_time"] += time.time() - t0
        if not p:
            STATS["nf"] += 1
            self.parts += 1
            return True
        t = simp_under(hyps, tm.pterm(p))
        p = tm.nf(t)
        if not p:
            STATS["nf"] += 1
            self.parts += 1
            return True
        try:
            q = clear_denoms(p)
            if not q:
                STATS["nf"] += 1
                self.parts += 1
                return True
            q2 = tm.nf(simp_under(hyps, tm.pterm(q)))
            if not q2:
                STATS["nf"] += 1
                self.parts += 1
                return True
        except Budget:
            q2 = p
        # congruence on sums: sum over same binders, prove bodies equal pointwise
        ms = [m for m in q2]
        if len(ms) == 2 and q2[ms[0]] == -q2[ms[1]] and len(ms[0]) == 1 and len(ms[1]) == 1:
            a, b = ms[0][0][0], ms[1][0][0]
            if a.op == "msum" and b.op == "msum" and depth < 4 and ms[0][0][1] == ms[1][0][1] == 1:
                va, vb = a.args[0], b.args[0]
                if len(va) == len(vb) and all(rng_of(x) is rng_of(y) for x, y in zip(va, vb)):
                    sk = [var(fresh_name("sk"), I, rng_of(x)) for x in va]
                    ba = mul(*[power(x, e) for x, e in a.args[1]])
                    bb = mul(*[power(x, e) for x, e in b.args[1]])
                    ga = subst(ba, dict(zip(va, sk)))
                    gb = subst(bb, dict(zip(vb, sk)))
                    hs = hyps + [f for s_ in sk for f in (ge(s_, ZERO), lt(s_, rng_of(s_)))]
                    sub_ = Prover(max(1, self.deadline - time.time()))
                    if sub_.prove(hs, eq(ga, gb), depth + 1):
                        return True
        # case split on a remaining condition
        if depth < 6:
            for c in _iv_conds(tm.pterm(q2)):
                a = Prover(max(1, self.deadline - time.time()))
                sv = _solved_var(c)
                if sv is None:
                    ok = a.prove(hyps + flat_and([c]), g, depth + 1)
                else:
                    mp = {sv[0]: sv[1]}
                    ok = a.prove([bnf(subst(h, mp)) for h in hyps if bnf(subst(h, mp)) is not TRUE], subst(g, mp), depth + 1)
                ok = ok and a.prove(hyps + flat_and([not_(c)]), g, depth + 1)
                if ok:
                    return True
                return self._smt(hyps, eq(tm.pterm(q2), ZERO) if not _inv_atoms(q2) else g, first=a.failed)
        return self._smt(hyps, g)

    def _sum_facts(self, hyps, goal):
        """sign facts for opaque sums in goal and hyps, proved pointwise"""
        out = []
        seen = set()
        members = []
        for t in [goal] + list(hyps):
            for v in t.fv:
                if v.args[0].startswith(("ex!", "sk!")) and rng_of(v) is not None and v not in members and len(members) < 4:
                    members.append(v)
        for X, _ in _ineq(canon(not_(goal))):
            # the sums of the goal taken together
            sp = _split_sums(tm.nf(X))
            if sp is None or len(sp[1]) < 2 or len({r for r, _ in sp[1]}) != 1:
                continue
            r = sp[1][0][0]
            v = var(fresh_name("sk"), I, r)
            total = lambda j: tm.add(*[f(j) for _, f in sp[1]])
            rest = tm.add(X, neg(tm.pterm(sp[0])))
            hs = hyps + [ge(v, ZERO), lt(v, r)]
            for cmp in (ge, le):
                if entails(hs, cmp(total(v), ZERO)):
                    out.append(cmp(rest, ZERO))
                    out.extend(cmp(rest, total(e)) for e in members if canon(rng_of(e)) is r)
        for t in [goal] + list(hyps):
            if t.op == "forall":
                continue
            for x in tm.subterms(canon(t)):
                if x.op == "msum" and x not in seen and len(seen) < 12:
                    seen.add(x)
                    if any(v.args[0].startswith("%") for v in x.fv):
                        continue
                    vs, mono = x.args
                    sk = {v: var(fresh_name("sk"), I, rng_of(v)) for v in vs}
                    body = subst(mul(*[power(a, e) for a, e in mono]), sk)
                    hs = hyps + [f for s_ in sk.values() for f in (ge(s_, ZERO), lt(s_, rng_of(s_)))]
                    if all(a.op == "iv" or e % 2 == 0 for a, e in mono) or entails(hs, ge(body, ZERO)):
                        out.append(ge(x, ZERO))
                        if len(vs) == 1:      # a sum of non-negative terms is at least each of them
                            for e in members:
                                if canon(rng_of(e)) is canon(rng_of(vs[0])):
                                    out.append(ge(x, subst(body, {sk[vs[0]]: e})))
                        if entails(hs, gt(body, ZERO)):
                            out.append(or_(gt(x, ZERO), *[not_(gt(rng_of(v), ZERO)) for v in vs]))
                    elif entails(hs, le(body, ZERO)):
                        out.append(le(x, ZERO))
                        if len(vs) == 1:
                            for e in members:
                                if canon(rng_of(e)) is canon(rng_of(vs[0])):
                                    out.append(le(x, subst(body, {sk[vs[0]]: e})))
        return out

    def _smt(self, hyps, goal, note="", first=None):
        left = max(0.3, self.deadline - time.time())
        ms = int(min(TIMEOUT, left * 1000, self.quick or TIMEOUT))
        inst = instantiate(hyps, [goal])
        hs = [h for h in hyps if not _hasq(h)] + inst
        cg = goal
        try:
            cg = canon(goal)
            hs2 = [canon(h) for h in hs]
            hs2 = [h for h in hs2 if h is not TRUE]
        except Budget:
            hs2 = hs
        self.parts += 1
        st, m, Zt = solve(hs2, cg, ms, quant=False, want_model=True)
        if st == "unsat":
            STATS["z3"] += 1
            return True
        try:
            sf = self._sum_facts(hyps, cg)
        except Budget:
            sf = []
        if sf:
            st, m, Zt = solve(hs2 + sf, cg, ms, quant=False, want_model=True)
            if st == "unsat":
                STATS["z3"] += 1
                return True
        if not self.quick and (any(_hasq(h) for h in hyps) or _hasq(goal)):
            try:
                hq = [canon(h) for h in hyps] + sf
            except Budget:
                hq = list(hyps) + sf
            st2, m2, Zt2 = solve(hq + inst, cg, min(ms, 3000), quant=True, want_model=True)
            if st2 == "unsat":
                STATS["z3"] += 1
                return True
        for X, strict in _ineq(cg):
            if cg.op == "eq" or strict:
                break
            try:
                if any(x.op == "msum" for x in tm.subterms(X)) and dominate(hyps, canon(X), max(1, self.deadline - time.time())):
                    STATS["z3"] += 1
                    return True
            except Budget:
                pass
        STATS["failed"] += 1
        return self.fail(hyps, goal, "z3: %s %s" % (st, note), (m, Zt) if m is not None else None)


def flat_and(cs):
    out = []
    for c in cs:
        if c.op == "and":
            out.extend(flat_and(c.args))
        elif c.op == "not" and c.args[0].op == "or":
            out.extend(flat_and([not_(x) for x in c.args[0].args]))
        else:
            out.append(c)
    return out


def holds(hyps, goal, budget=6.0):
    """goal follows from hyps (quiet)"""
    g = bnf(goal)
    if g is TRUE:
        return True
    return bool(Prover(budget, quick=600).prove(flat_and(prep(hyps, [g])), g))


def prove(hyps, goal, budget=40.0):
    p = Prover(budget)
    ok = p.prove(flat_and(prep(hyps, [goal])), goal)
    return p if not ok else p, ok
