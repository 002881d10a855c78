"""C06: EfficientSemivariance solves the documented downside-deviation programme.

Semivariance of w below the benchmark b:  sum_t min(r_t'w - b, 0)^2 / T  (times frequency when annualised)."""
from vf.contract import unit
from .common import *
from .c02_meanvar import neutral_box, result
from . import c04_cvar as c4

M = "efficient_frontier.efficient_semivariance.EfficientSemivariance."
EF = "efficient_frontier.efficient_frontier.EfficientFrontier."
FU = [M + "__init__", EF + "_validate_returns", EF + "_make_weight_sum_constraint",
      "base_optimizer.BaseConvexOptimizer._solve_cvxpy_opt_problem"]


def setup(V, cls="EfficientSemivariance", none_mu=False, forms=("frame", "array"), bench=True):
    n = V.dim("n", lo=1)
    T = V.dim("T", lo=2)
    mu = V.vec("mu", n, gen=lambda r, n: [r.uniform(0.01, 0.2) for _ in range(n)])
    R = V.mat("R", T, n, gen=grets, owner="returns")
    L = V.vec("lower", n, hi=0, gen=lambda r, n: [r.choice([0, 0, -0.6]) for _ in range(n)])
    U = V.vec("upper", n, lo=0, gen=lambda r, n: [1 for _ in range(n)])
    b = V.real("benchmark", gen=lambda r: r.choice([0.0, 0.001, -0.002, 0.01]))
    f = V.int("frequency", lo=1, hi=400, gen=lambda r: r.choice([252, 12, 1]))
    form = V.choice("inputs", list(forms))
    labels = V.labels("tick", n)
    if form == "frame":
        m, Rf = V.series(mu, labels), V.frame(R, V.datelabels(T), labels)
    else:
        m, Rf, labels = mu, R, V.range_labels(n)
    r = V.call(V.mod("efficient_frontier").EfficientSemivariance, None if none_mu else m, Rf, frequency=f,
               benchmark=b, weight_bounds=(L, U))
    V.ensure("constructor accepts the inputs", r.ok)
    if not r.ok:
        return None
    return r.value, n, T, mu, R, L, U, labels, b, f


def split_ok(V, n, T, R, x, b, p, q, sign=1):
    """p - q is the deviation from the benchmark (scaled by 1/sqrt(T)), both non-negative"""
    rt = V.sqrt(T)
    dev = lambda t: V.sum(n, lambda i: V.el(R, t, i) * V.el(x, i)) - b
    return V.and_(V.forall(T, lambda t: V.ge(V.el(p, t), 0)), V.forall(T, lambda t: V.ge(V.el(q, t), 0)),
                  V.forall(T, lambda t: V.eq(dev(t) / rt - V.el(p, t) + V.el(q, t), 0)))


def downside(V, T, q):
    return V.sum(T, lambda t: V.el(q, t) * V.el(q, t))


def points(V, n, T, R, x, b):
    if V.sym:
        return V.point("p", T), V.point("q", T)
    rng = V.rng
    p, q = [], []
    for t in range(T):
        d = (sum(float(R[t, i]) * float(x[i]) for i in range(n)) - float(b)) / T ** 0.5
        e = rng.choice([0, 0, 0.004])
        p.append(max(d, 0) + e)
        q.append(max(-d, 0) + e)
    k = rng.random()
    if k < 0.1:
        j = rng.randrange(T)
        p[j] -= 0.02
        q[j] -= 0.02
    elif k < 0.25:
        q[rng.randrange(T)] += 0.01
    return V.np.array(p), V.np.array(q)


def order(V, rec, ef, n, T, R, b, tot, L, U):
    """(p, q): which of the two auxiliary variables is the upside, which the downside"""
    vs = rec.var_of_shape(T, exclude=(ef._w,))
    V.ensure("one upside and one downside variable per period", len(vs) == 2)
    if len(vs) != 2:
        return None
    # the downside variable enters objective or constraints with a square: identified by trying both orders
    for p, q in ((vs[0], vs[1]), (vs[1], vs[0])):
        if V.sym:
            x = V.point("x", n)
            a, c = V.point("p", T), V.point("q", T)
            g = V.implies(rec.feasible([(ef._w, x), (p, a), (q, c)]), split_ok(V, n, T, R, x, b, a, c))
            if V.known(g):
                return p, q
        else:
            x = V.np.array([V.rng.uniform(0.5, 1.5) for _ in range(n)])
            rt = T ** 0.5
            d = [(sum(float(R[t, i]) * float(x[i]) for i in range(n)) - float(b)) / rt for t in range(T)]
            if max(abs(v) for v in d) < 1e-5:
                continue
            pos, neg = V.np.array([max(v, 0) for v in d]), V.np.array([max(-v, 0) for v in d])
            if rec.total_violation([(ef._w, x), (p, pos), (q, neg)]) <= rec.total_violation([(ef._w, x), (p, neg), (q, pos)]):
                return p, q
    return vs[0], vs[1]


def check(V, rec, ef, n, T, R, b, obj, feas, tot, L, U):
    pq = order(V, rec, ef, n, T, R, b, tot, L, U)
    if pq is None:
        return
    pv, qv = pq
    for _ in V.samples(40):
        x = V.point("x", n, total=tot, lo=L, hi=U)
        p, q = points(V, n, T, R, x, b)
        at = [(ef._w, x), (pv, p), (qv, q)]
        V.scalar("objective", rec.obj(at), obj(x, q))
        V.ensure("feasible set", V.iff(rec.feasible(at), V.and_(split_ok(V, n, T, R, x, b, p, q), feas(x, q))))


def common(V, run, obj, feas):
    s = setup(V)
    if s is None:
        return
    ef, n, T, mu, R, L, U, labels, b, f = s
    neutral = V.bool("market_neutral")
    V.solve_modes("optimal", "infeasible")
    r = run(ef, neutral)
    ss = V.solves()
    V.ensure("exactly one problem is solved", len(ss) == 1)
    if len(ss) != 1:
        return
    box = neutral_box(V, n, L, U, neutral)
    check(V, ss[0], ef, n, T, R, b, lambda x, q: obj(x, q, n, T, mu, f),
          lambda x, q: V.and_(feas(x, q, n, T, mu, f), box(x)), 0 if neutral else 1, L, U)
    result(V, r, ss[0], ef, labels, n)
    V.ensure("inputs unchanged", len(V.mutated()) == 0)


@unit("C06", funcs=FU + [M + "min_semivariance"], weight=2)
def min_semivariance(V):
    common(V, lambda ef, ne: V.call(ef.min_semivariance, market_neutral=ne),
           lambda x, q, n, T, mu, f: downside(V, T, q), lambda *a: True)


@unit("C06", funcs=FU + [M + "efficient_return"], weight=2)
def efficient_return(V):
    t = V.real("target_return", lo=0, gen=lambda r: r.uniform(0.0, 0.05))
    s = setup(V)
    if s is None:
        return
    ef, n, T, mu, R, L, U, labels, b, f = s
    neutral = V.bool("market_neutral")
    V.solve_modes("optimal", "infeasible")
    r = V.call(ef.efficient_return, t, market_neutral=neutral)
    ss = V.solves()
    if len(ss) == 0:
        expect_raises(V, "refused with ValueError", r, "ValueError")
        V.ensure("only when the target exceeds every |expected return|",
                 V.forall(n, lambda i: V.lt(V.abs(V.el(mu, i)), t)))
        return
    V.ensure("exactly one problem is solved", len(ss) == 1)
    box = neutral_box(V, n, L, U, neutral)
    check(V, ss[0], ef, n, T, R, b, lambda x, q: downside(V, T, q),
          lambda x, q: V.and_(V.ge(dot(V, n, x, mu), t), box(x)), 0 if neutral else 1, L, U)
    result(V, r, ss[0], ef, labels, n)


@unit("C06", funcs=FU + [M + "efficient_risk"], weight=2)
def efficient_risk(V):
    t = V.real("target_semideviation", lo=0, gen=lambda r: r.uniform(0.01, 0.3))
    common(V, lambda ef, ne: V.call(ef.efficient_risk, t, market_neutral=ne),
           lambda x, q, n, T, mu, f: -dot(V, n, x, mu),
           lambda x, q, n, T, mu, f: V.le(f * downside(V, T, q), t * t))


@unit("C06", funcs=FU + [M + "max_quadratic_utility"], weight=2)
def max_quadratic_utility(V):
    d = V.real("risk_aversion", lo=0.01, hi=100)
    common(V, lambda ef, ne: V.call(ef.max_quadratic_utility, risk_aversion=d, market_neutral=ne),
           lambda x, q, n, T, mu, f: d / 2 * downside(V, T, q) - dot(V, n, x, mu) / f, lambda *a: True)


@unit("C06", funcs=FU + [M + "min_semivariance"])
def auxiliary_variables_are_exact(V):
    """the true downside deviations are feasible and attain the semivariance; every feasible choice dominates them"""
    s = setup(V, forms=("frame",))
    if s is None:
        return
    ef, n, T, mu, R, L, U, labels, b, f = s
    V.solve_modes("optimal")
    V.call(ef.min_semivariance)
    ss = V.solves()
    V.ensure("exactly one problem is solved", len(ss) == 1)
    if len(ss) != 1:
        return
    rec = ss[0]
    pq = order(V, rec, ef, n, T, R, b, 1, L, U)
    if pq is None:
        return
    pv, qv = pq
    for _ in V.samples(10):
        x = V.point("x", n, total=1, lo=L, hi=U)
        if not V.suppose(V.and_(V.eq(total(V, n, x), 1), boxed(V, n, x, L, U))):
            continue
        rt = V.sqrt(T)
        dev = lambda t: V.sum(n, lambda i: V.el(R, t, i) * V.el(x, i)) - b
        p0 = V.arr(T, lambda t: V.max(dev(t), 0) / rt)
        q0 = V.arr(T, lambda t: V.max(-dev(t), 0) / rt)
        at = [(ef._w, x), (pv, p0), (qv, q0)]
        V.ensure("true deviations are feasible", rec.feasible(at))
        V.scalar("and attain the semivariance", rec.obj(at),
                 V.sum(T, lambda t: V.max(-dev(t), 0) * V.max(-dev(t), 0)) / T)
        p, q = points(V, n, T, R, x, b)
        if V.suppose(rec.feasible([(ef._w, x), (pv, p), (qv, q)])):
            V.ensure("every feasible downside dominates the true one", V.forall(T, lambda t: V.and_(
                V.ge(V.el(q, t), 0), V.ge(V.el(q, t), -dev(t) / rt - (0 if V.sym else 1e-7)))))


@unit("C06", funcs=[M + "max_quadratic_utility", M + "efficient_return", M + "min_volatility", M + "max_sharpe"])
def domains(V):
    s = setup(V, forms=("frame",))
    if s is None:
        return
    ef = s[0]
    d = V.real("risk_aversion", hi=0)
    expect_raises(V, "non-positive risk aversion raises ValueError", V.call(ef.max_quadratic_utility, risk_aversion=d),
                  "ValueError")
    t = V.real("target_return", gen=lambda r: -r.uniform(0.01, 1))
    V.require(V.lt(t, 0))
    expect_raises(V, "negative target return raises ValueError", V.call(ef.efficient_return, t), "ValueError")
    expect_raises(V, "min_volatility is refused", V.call(ef.min_volatility), "NotImplementedError")
    expect_raises(V, "max_sharpe is refused", V.call(ef.max_sharpe), "NotImplementedError")
    V.ensure("nothing is solved", len(V.solves()) == 0)
