"""C02: the mean-variance methods hand the solver exactly the documented optimisation problem,
and return the solver's point as an ordered ticker -> weight mapping."""
from vf.contract import unit
from .common import *

E = "efficient_frontier.efficient_frontier.EfficientFrontier."
BO = "base_optimizer.BaseConvexOptimizer."
FU = [E + "__init__", E + "_validate_expected_returns", E + "_validate_cov_matrix", E + "_make_weight_sum_constraint",
      BO + "_solve_cvxpy_opt_problem", "base_optimizer.BaseOptimizer._make_output_weights"]


def setup(V, lo_hi=None, none_mu=False):
    """an optimiser in one of the documented input forms; returns (ef, n, mu, S, L, U, labels)"""
    n = V.dim("n", lo=1)
    mu = V.vec("mu", n, gen=gmu, owner="expected_returns")
    S = V.symmat("S", n, gen=gcov, owner="cov_matrix")
    L = V.vec("lower", n, hi=0, gen=lambda r, n: [r.choice([0, -0.1, -0.6]) for _ in range(n)])
    U = V.vec("upper", n, lo=0, gen=lambda r, n: [r.choice([1, 0.8, 0.6]) for _ in range(n)])
    form = V.choice("inputs", ["arrays", "pandas", "cov frame"])
    labels = V.labels("tick", n)
    if form == "arrays":
        a, b, labels = mu, S, V.range_labels(n)
    elif form == "pandas":
        a, b = V.series(mu, labels), V.frame(S, labels, labels)
    else:
        a, b = mu, V.frame(S, labels, labels)
    EF = V.mod("efficient_frontier").EfficientFrontier
    ef = EF(None if none_mu else a, b, weight_bounds=(L, U))
    return ef, n, mu, S, L, U, labels


def result(V, r, rec, ef, labels, n):
    """outcome of a method given the solver's status"""
    if rec.status in ("optimal", "optimal_inaccurate"):
        V.ensure("returns when the solver reports a solution", r.ok)
        if r.ok:
            sol = rec.value(ef._w)
            V.wdict("weights are the solver's point, labelled in input order", r.value, labels,
                    lambda i: V.el(sol, i), tol=1e-9)
            V.ensure("an OrderedDict", V.is_odict(r.value))
            V.vector("ef.weights is the solver's point", ef.weights, n, lambda i: V.el(sol, i), tol=1e-9)
    elif rec.status is not None:
        V.ensure("OptimizationError unless solved", (not r.ok) and r.raised("OptimizationError"))


def problem(V, rec, ef, n, obj, feas, total=1, lo=None, hi=None, name="", k=25):
    for _ in V.samples(k):
        x = V.point("x", n, total=total, lo=lo, hi=hi, base=None)
        V.scalar(name + "objective", rec.obj([(ef._w, x)]), obj(x))
        V.ensure(name + "feasible set", V.iff(rec.feasible([(ef._w, x)]), feas(x)))


@unit("C02", funcs=FU + [E + "min_volatility"])
def min_volatility(V):
    ef, n, mu, S, L, U, labels = setup(V)
    V.solve_modes("optimal", "optimal_inaccurate", "infeasible", "unbounded")
    r = V.call(ef.min_volatility)
    ss = V.solves()
    V.ensure("exactly one problem is solved", len(ss) == 1)
    if len(ss) != 1:
        return
    problem(V, ss[0], ef, n, lambda x: quad(V, n, x, S),
            lambda x: V.and_(V.eq(total(V, n, x), 1), boxed(V, n, x, L, U)), lo=L, hi=U)
    result(V, r, ss[0], ef, labels, n)
    V.ensure("inputs unchanged", len(V.mutated()) == 0)


@unit("C02", funcs=FU + [E + "min_volatility"])
def min_volatility_without_returns(V):
    ef, n, mu, S, L, U, labels = setup(V, none_mu=True)
    V.solve_modes("optimal")
    r = V.call(ef.min_volatility)
    ss = V.solves()
    V.ensure("exactly one problem is solved", len(ss) == 1)
    if len(ss) != 1:
        return
    problem(V, ss[0], ef, n, lambda x: quad(V, n, x, S),
            lambda x: V.and_(V.eq(total(V, n, x), 1), boxed(V, n, x, L, U)), lo=L, hi=U)
    result(V, r, ss[0], ef, labels, n)


def neutral_box(V, n, L, U, neutral):
    """budget and bounds: market-neutral with long-only bounds amends the bounds to (-1, 1)"""
    shorts = V.exists(n, lambda i: V.lt(V.el(L, i), 0))

    def f(x):
        if not neutral:
            return V.and_(V.eq(total(V, n, x), 1), boxed(V, n, x, L, U))
        return V.and_(V.eq(total(V, n, x), 0),
                      V.ite(shorts, lambda: boxed(V, n, x, L, U),
                            lambda: V.and_(V.forall(n, lambda i: V.ge(V.el(x, i), -1)),
                                           V.forall(n, lambda i: V.le(V.el(x, i), 1)))))
    return f


@unit("C02", funcs=FU + [E + "max_quadratic_utility"])
def max_quadratic_utility(V):
    ef, n, mu, S, L, U, labels = setup(V)
    neutral = V.bool("market_neutral")
    d = V.real("risk_aversion", lo=0.001, hi=100)
    V.solve_modes("optimal", "infeasible")
    r = V.call(ef.max_quadratic_utility, risk_aversion=d, market_neutral=neutral)
    ss = V.solves()
    V.ensure("exactly one problem is solved", len(ss) == 1)
    if len(ss) != 1:
        return
    box = neutral_box(V, n, L, U, neutral)
    problem(V, ss[0], ef, n, lambda x: d / 2 * quad(V, n, x, S) - dot(V, n, x, mu), box,
            total=0 if neutral else 1, lo=L, hi=U)
    result(V, r, ss[0], ef, labels, n)


@unit("C02", funcs=FU + [E + "max_quadratic_utility"])
def quadratic_utility_domain(V):
    ef, n, mu, S, L, U, labels = setup(V)
    d = V.real("risk_aversion", hi=0)
    r = V.call(ef.max_quadratic_utility, risk_aversion=d)
    expect_raises(V, "non-positive risk aversion raises ValueError", r, "ValueError")
    V.ensure("and nothing is solved", len(V.solves()) == 0)


@unit("C02", funcs=FU + [E + "efficient_risk"], weight=3)
def efficient_risk(V):
    ef, n, mu, S, L, U, labels = setup(V)
    neutral = V.bool("market_neutral")
    sig = V.real("target_volatility", lo=0, gen=lambda r: r.uniform(0.05, 0.6))
    V.solve_modes("optimal", "infeasible")
    r = V.call(ef.efficient_risk, sig, market_neutral=neutral)
    ss = V.solves()
    if len(ss) == 0:
        expect_raises(V, "refused with ValueError", r, "ValueError")
        return
    V.ensure("exactly one problem is solved", len(ss) == 1)
    box = neutral_box(V, n, L, U, neutral)
    problem(V, ss[0], ef, n, lambda x: -dot(V, n, x, mu),
            lambda x: V.and_(V.le(quad(V, n, x, S), sig * sig), box(x)),
            total=0 if neutral else 1, lo=L, hi=U)
    result(V, r, ss[0], ef, labels, n)


@unit("C02", funcs=FU + [E + "efficient_risk"])
def efficient_risk_domain(V):
    """negative targets are refused; targets below the global minimum volatility are refused"""
    ef, n, mu, S, L, U, labels = setup(V)
    sig = V.real("target_volatility", gen=lambda r: r.choice([-0.3, -0.01, 0.01, 0.1]))
    r = V.call(ef.efficient_risk, sig)
    if V.split(V.lt(sig, 0)):
        expect_raises(V, "a negative target raises ValueError", r, "ValueError")
        V.ensure("and nothing is solved", len(V.solves()) == 0)
    else:
        P = V.np.linalg.pinv(S)
        gmin = V.sqrt(1 / V.sum(n, lambda i: V.sum(n, lambda j: V.el(P, i, j))))
        if V.split(V.lt(sig, gmin)):
            expect_raises(V, "a target below the global minimum volatility raises ValueError", r, "ValueError")
            V.ensure("and nothing is solved ", len(V.solves()) == 0)
        else:
            V.ensure("otherwise the problem is solved", len(V.solves()) == 1)


@unit("C02", funcs=FU + [E + "efficient_return", E + "_max_return", BO + "deepcopy"], weight=3)
def efficient_return(V):
    ef, n, mu, S, L, U, labels = setup(V)
    neutral = V.bool("market_neutral")
    t = V.real("target_return", gen=lambda r: r.uniform(-0.05, 0.15))
    V.solve_modes("optimal", "infeasible")
    r = V.call(ef.efficient_return, t, market_neutral=neutral)
    ss = V.solves()
    V.ensure("at most two problems are solved", len(ss) in (1, 2))
    # first: the largest achievable return, which bounds the admissible targets
    problem(V, ss[0], ef, n, lambda x: -dot(V, n, x, mu),
            lambda x: V.and_(V.eq(total(V, n, x), 1), boxed(V, n, x, L, U)), lo=L, hi=U, name="largest return: ")
    if len(ss) == 1:
        V.ensure("refused", not r.ok)
        if ss[0].status == "optimal":
            top = dot(V, n, ss[0].value(ef._w), mu) if V.sym else -ss[0].problem.value
            V.ensure("only when the target exceeds the largest return", V.gt(t, top))
            expect_raises(V, "with ValueError", r, "ValueError")
        return
    box = neutral_box(V, n, L, U, neutral)
    problem(V, ss[1], ef, n, lambda x: quad(V, n, x, S),
            lambda x: V.and_(V.ge(dot(V, n, x, mu), t), box(x)), total=0 if neutral else 1, lo=L, hi=U)
    result(V, r, ss[1], ef, labels, n)


@unit("C02", funcs=[E + "__init__", E + "_validate_expected_returns", E + "_validate_cov_matrix"])
def inputs_validated(V):
    n = V.dim("n", lo=2)
    m = V.dim("m", lo=2)
    mu = V.vec("mu", n, gen=gmu)
    S = V.symmat("S", m, gen=gcov)
    EF = V.mod("efficient_frontier").EfficientFrontier
    r = V.call(EF, mu, S)
    if V.split(V.eq(n, m)):
        V.ensure("matching sizes are accepted", r.ok)
    else:
        expect_raises(V, "a covariance matrix of another size raises ValueError", r, "ValueError")
    expect_raises(V, "no covariance matrix raises ValueError", V.call(EF, mu, None), "ValueError")
    expect_raises(V, "returns of another type raise TypeError", V.call(EF, "abc", S), "TypeError")
    expect_raises(V, "covariance of another type raises TypeError", V.call(EF, mu, "abc"), "TypeError")
