"""C09: objective functions: numeric value == symbolic expression == documented formula."""
from vf.contract import unit

F = "objective_functions."


def both(V, name, f, w, formula, n, extra=()):
    """call f on a weight vector and on a cvxpy variable"""
    r = V.call(f, w)
    V.ensure(name + "(array) returns", r.ok)
    if r.ok:
        V.scalar(name + "(array) == formula", r.value, formula(w))
    x = V.cp.Variable(n)
    e = V.call(f, x)
    V.ensure(name + "(variable) returns", e.ok)
    if e.ok:
        for _ in V.samples(3):
            p = V.point("x_" + name, n)
            x.value = p
            V.scalar(name + "(variable) == formula", e.value.value, formula(p))


def mean(V, n, w, mu):
    return V.sum(n, lambda i: V.el(w, i) * V.el(mu, i))


def quad(V, n, w, S):
    return V.sum(n, lambda i: V.sum(n, lambda j: V.el(w, i) * V.el(S, i, j) * V.el(w, j)))


@unit("C09", funcs=[F + "portfolio_variance", F + "_objective_value"])
def portfolio_variance(V):
    n = V.dim("n")
    S = V.symmat("S", n, owner="cov_matrix")
    w = V.vec("w", n, owner="w")
    of = V.mod("objective_functions")
    both(V, "portfolio_variance", lambda x: of.portfolio_variance(x, S), w, lambda x: quad(V, n, x, S), n)


@unit("C09", funcs=[F + "portfolio_return"])
def portfolio_return(V):
    n = V.dim("n")
    mu = V.vec("mu", n)
    w = V.vec("w", n)
    neg = V.bool("negative")
    of = V.mod("objective_functions")
    sg = -1 if neg else 1
    both(V, "portfolio_return", lambda x: of.portfolio_return(x, mu, negative=neg), w,
         lambda x: sg * mean(V, n, x, mu), n)
    if neg:
        r = V.call(of.portfolio_return, w, mu)
        V.ensure("default returns", r.ok)
        if r.ok:
            V.scalar("default is the negative", r.value, -mean(V, n, w, mu))


@unit("C09", funcs=[F + "sharpe_ratio"])
def sharpe_ratio(V):
    n = V.dim("n")
    mu = V.vec("mu", n)
    S = V.symmat("S", n)
    w = V.vec("w", n)
    rf = V.real("rf", gen=lambda r: r.choice([0.0, 0.02, 0.3]))
    neg = V.bool("negative")
    V.require(V.gt(quad(V, n, w, S), 0))
    of = V.mod("objective_functions")
    sg = -1 if neg else 1
    r = V.call(of.sharpe_ratio, w, mu, S, risk_free_rate=rf, negative=neg)
    V.ensure("returns", r.ok)
    if r.ok:
        V.scalar("sharpe == (mean - rf)/sqrt(variance)", r.value,
                 sg * (mean(V, n, w, mu) - rf) / V.sqrt(quad(V, n, w, S)))
    r = V.call(of.sharpe_ratio, w, mu, S)
    V.ensure("returns with defaults", r.ok)
    if r.ok:
        V.scalar("defaults: negative, risk-free rate 0", r.value, -mean(V, n, w, mu) / V.sqrt(quad(V, n, w, S)))


@unit("C09", funcs=[F + "L2_reg"])
def L2_reg(V):
    n = V.dim("n")
    w = V.vec("w", n)
    g = V.real("gamma", lo=0)
    of = V.mod("objective_functions")
    both(V, "L2_reg", lambda x: of.L2_reg(x, gamma=g), w, lambda x: g * V.sum(n, lambda i: V.el(x, i) * V.el(x, i)), n)
    r = V.call(of.L2_reg, w)
    V.ensure("default returns", r.ok)
    if r.ok:
        V.scalar("default gamma is 1", r.value, V.sum(n, lambda i: V.el(w, i) * V.el(w, i)))


@unit("C09", funcs=[F + "quadratic_utility"])
def quadratic_utility(V):
    n = V.dim("n")
    w = V.vec("w", n)
    mu = V.vec("mu", n)
    S = V.symmat("S", n)
    d = V.real("risk_aversion", lo=0.001)
    neg = V.bool("negative")
    sg = -1 if neg else 1
    of = V.mod("objective_functions")
    both(V, "quadratic_utility", lambda x: of.quadratic_utility(x, mu, S, risk_aversion=d, negative=neg), w,
         lambda x: sg * (mean(V, n, x, mu) - d / 2 * quad(V, n, x, S)), n)


@unit("C09", funcs=[F + "transaction_cost"])
def transaction_cost(V):
    n = V.dim("n")
    w = V.vec("w", n)
    wp = V.vec("w_prev", n)
    k = V.real("k", lo=0)
    of = V.mod("objective_functions")
    both(V, "transaction_cost", lambda x: of.transaction_cost(x, wp, k=k), w,
         lambda x: k * V.sum(n, lambda i: V.abs(V.el(x, i) - V.el(wp, i))), n)
    r = V.call(of.transaction_cost, w, wp)
    V.ensure("default returns", r.ok)
    if r.ok:
        V.scalar("default k is 0.001", 1000 * r.value, V.sum(n, lambda i: V.abs(V.el(w, i) - V.el(wp, i))))


@unit("C09", funcs=[F + "ex_ante_tracking_error"])
def ex_ante_tracking_error(V):
    n = V.dim("n")
    w = V.vec("w", n)
    b = V.vec("benchmark_weights", n)
    S = V.symmat("S", n)
    of = V.mod("objective_functions")
    both(V, "ex_ante_tracking_error", lambda x: of.ex_ante_tracking_error(x, S, b), w,
         lambda x: V.sum(n, lambda i: V.sum(n, lambda j: (V.el(x, i) - V.el(b, i)) * V.el(S, i, j) *
                                            (V.el(x, j) - V.el(b, j)))), n)


@unit("C09", funcs=[F + "ex_post_tracking_error"])
def ex_post_tracking_error(V):
    n = V.dim("n")
    T = V.dim("T")
    w = V.vec("w", n)
    R = V.mat("returns", T, n)
    b = V.vec("benchmark_returns", T)
    as_frame = V.bool("frame")
    R_ = V.frame(R, V.datelabels(T), V.labels("tick", n)) if as_frame else R
    of = V.mod("objective_functions")

    def formula(x):
        d = lambda t: V.sum(n, lambda i: V.el(R, t, i) * V.el(x, i)) - V.el(b, t)
        m = V.sum(T, d) / T
        return V.sum(T, lambda t: (d(t) - m) * (d(t) - m))
    both(V, "ex_post_tracking_error", lambda x: of.ex_post_tracking_error(x, R_.values if as_frame else R, b), w,
         formula, n)
