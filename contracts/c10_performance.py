"""C10: reported performance is computed from the weights that are reported."""
from vf.contract import unit
from .common import *

BO = "base_optimizer."
EFF = "efficient_frontier.efficient_frontier.EfficientFrontier."
PP = [BO + "portfolio_performance", "objective_functions.portfolio_variance", "objective_functions.portfolio_return",
      "objective_functions.sharpe_ratio"]


def figures(V, r, n, w, mu, S, rf, name=""):
    """(mu'w, sqrt(w'Sw), (mu'w - rf) / sqrt(w'Sw))"""
    V.ensure(name + "returns", r.ok)
    if not r.ok:
        return
    V.ensure(name + "three figures", len(r.value) == 3)
    if len(r.value) != 3:
        return
    sd = V.sqrt(quad(V, n, w, S))
    if mu is None:
        V.ensure(name + "no return and Sharpe without expected returns", r.value[0] is None and r.value[2] is None)
        V.scalar(name + "volatility", r.value[1], sd)
        return
    m = dot(V, n, w, mu)
    V.scalar(name + "expected return", r.value[0], m)
    V.scalar(name + "volatility", r.value[1], sd)
    V.scalar(name + "Sharpe ratio", r.value[2], (m - rf) / sd, tol=1e-7)


def gw(r, n):
    return [r.choice([0.0, r.uniform(-0.5, 1), r.uniform(0, 1)]) for _ in range(n)]


@unit("C10", funcs=PP)
def explicit_weights(V):
    """list or array of weights: matched by position, whatever the forms of the other inputs"""
    n = V.dim("n")
    mu, S, w = V.vec("mu", n, gen=gmu), V.symmat("S", n, gen=gcov), V.vec("w", n, gen=gw)
    V.assume(V.gt(quad(V, n, w, S), 0))
    rf = V.real("rf", gen=lambda r: r.choice([0.0, 0.02, -0.01]))
    labels = V.labels("tick", n)
    m = V.choice("returns", ["array", "series", "none"])
    s = V.choice("cov", ["array", "frame"])
    a = {"array": mu, "series": V.series(mu, labels), "none": None}[m]
    b = S if s == "array" else V.frame(S, labels, labels)
    W = V.aslist(w) if V.bool("as list") else w
    f = V.mod("base_optimizer").portfolio_performance
    given = V.bool("rate given")
    r = V.call(f, W, a, b, risk_free_rate=rf) if given else V.call(f, W, a, b)
    figures(V, r, n, w, None if m == "none" else mu, S, rf if given else 0)


@unit("C10", funcs=PP)
def named_weights(V):
    """dictionary weights in another order than the inputs, possibly not naming every asset: matched by name"""
    n = V.dim("n")
    mu, S, w = V.vec("mu", n, gen=gmu), V.symmat("S", n, gen=gcov), V.vec("w", n, gen=gw)
    labels = V.labels("tick", n)
    m = V.choice("returns", ["array", "series", "none"])
    s = V.choice("cov", ["array", "frame"])
    if m != "series" and s == "array":
        if m == "none":
            return          # no names at all
        labels = V.range_labels(n)
    a = {"array": mu, "series": V.series(mu, labels), "none": None}[m]
    b = S if s == "array" else V.frame(S, labels, labels)
    rf = V.real("rf", gen=lambda r: r.choice([0.0, 0.02]))
    W = V.mapping(labels, w)
    r = V.call(V.mod("base_optimizer").portfolio_performance, W, a, b, risk_free_rate=rf)
    if r.ok:
        V.assume(V.gt(quad(V, n, w, S), 0))
        figures(V, r, n, w, None if m == "none" else mu, S, rf)
    else:
        V.ensure("refused only when the weights add to zero", V.and_(V.eq(total(V, n, w), 0, tol=1e-9), r.raised("ValueError")))


@unit("C10", funcs=PP)
def no_weights(V):
    n = V.dim("n")
    mu, S = V.vec("mu", n, gen=gmu), V.symmat("S", n, gen=gcov)
    f = V.mod("base_optimizer").portfolio_performance
    expect_raises(V, "performance without weights raises ValueError", V.call(f, None, mu, S), "ValueError")
    ef = V.mod("efficient_frontier").EfficientFrontier(mu, S)
    expect_raises(V, "before optimising raises ValueError", V.call(ef.portfolio_performance), "ValueError")


@unit("C10", funcs=PP + [EFF + "portfolio_performance"])
def mean_variance(V):
    """after an optimisation, after set_weights, and after a second optimisation"""
    n = V.dim("n")
    mu, S = V.vec("mu", n, gen=gmu), V.symmat("S", n, gen=gcov)
    labels = V.labels("tick", n)
    ef = V.mod("efficient_frontier").EfficientFrontier(V.series(mu, labels), V.frame(S, labels, labels))
    rf = V.real("rf", gen=lambda r: r.choice([0.0, 0.02]))
    V.solve_modes("optimal")
    r0 = V.call(ef.max_quadratic_utility)
    ss = V.solves()
    V.ensure("solved", len(ss) == 1)
    if len(ss) != 1 or not r0.ok:
        return
    sol = ss[0].value(ef._w)
    V.assume(V.gt(quad(V, n, sol, S), 0))
    figures(V, V.call(ef.portfolio_performance, risk_free_rate=rf), n, sol, mu, S, rf, "after solving: ")
    w = V.vec("w", n, gen=gw)
    V.assume(V.gt(quad(V, n, w, S), 0))
    V.call(ef.set_weights, V.mapping(labels, w))
    figures(V, V.call(ef.portfolio_performance, verbose=True, risk_free_rate=rf), n, w, mu, S, rf, "after set_weights: ")
    V.ensure("no warning", not V.warned("UserWarning"))


@unit("C10", funcs=PP + [EFF + "portfolio_performance", EFF + "max_sharpe"])
def remembered_rate(V):
    """after max_sharpe its own risk-free rate is used, with a warning if another one is passed"""
    n = V.dim("n", lo=1)
    mu = V.vec("mu", n, gen=lambda r, n: [r.uniform(0.05, 0.2) for _ in range(n)])
    S = V.symmat("S", n, gen=gcov)
    ef = V.mod("efficient_frontier").EfficientFrontier(mu, S)
    rf = V.real("rf", gen=lambda r: r.choice([0.02, 0.0, 0.03]))
    other = V.real("other", gen=lambda r: r.choice([0.02, 0.0, 0.05]))
    V.assume(V.exists(n, lambda i: V.gt(V.el(mu, i), rf)))
    V.solve_modes("optimal")
    r0 = V.call(ef.max_sharpe, risk_free_rate=rf)
    if not r0.ok:
        return
    w = ef.weights
    V.assume(V.gt(quad(V, n, w, S), 0))
    r = V.call(ef.portfolio_performance, risk_free_rate=other)
    figures(V, r, n, w, mu, S, rf)
    V.ensure("warns exactly when the rates differ", V.iff(V.warned("UserWarning"), V.not_(V.eq(rf, other, tol=0))))


SV = "efficient_frontier.efficient_semivariance.EfficientSemivariance."


@unit("C10", funcs=[SV + "portfolio_performance", SV + "min_semivariance"])
def semivariance(V):
    n, T = V.dim("n"), V.dim("T", lo=2)
    mu, R = V.vec("mu", n, gen=gmu), V.mat("R", T, n, gen=grets)
    b = V.real("benchmark", gen=lambda r: r.choice([0.0, 0.003, -0.002]))
    f = V.int("frequency", lo=1, gen=lambda r: r.choice([252, 12, 1]))
    rf = V.real("rf", gen=lambda r: r.choice([0.0, 0.02]))
    labels = V.labels("tick", n)
    ef = V.mod("efficient_frontier").EfficientSemivariance(V.series(mu, labels), V.frame(R, V.datelabels(T), labels),
                                                           frequency=f, benchmark=b)
    if V.bool("set by hand"):
        w = V.vec("w", n, gen=gw)
        V.call(ef.set_weights, V.mapping(labels, w))
    else:
        V.solve_modes("optimal")
        r0 = V.call(ef.min_semivariance)
        ss = V.solves()
        V.ensure("solved", len(ss) == 1)
        if len(ss) != 1 or not r0.ok:
            return
        w = ss[0].value(ef._w)
    drop = lambda t: V.min(V.sum(n, lambda i: V.el(R, t, i) * V.el(w, i)) - b, 0)
    semi = V.sum(T, lambda t: drop(t) * drop(t)) / T * f
    V.assume(V.gt(semi, 1e-12 if V.conc else 0))
    r = V.call(ef.portfolio_performance, verbose=V.bool("verbose"), risk_free_rate=rf)
    V.ensure("returns", r.ok)
    if r.ok:
        V.ensure("three figures", len(r.value) == 3)
        m = dot(V, n, w, mu)
        V.scalar("expected return", r.value[0], m)
        V.scalar("semideviation", r.value[1], V.sqrt(semi))
        V.scalar("Sortino ratio", r.value[2], (m - rf) / V.sqrt(semi), tol=1e-6)


def closs(V, n, T, R, w):
    """losses"""
    return lambda t: -V.sum(n, lambda i: V.el(R, t, i) * V.el(w, i)), None


def cdraw(V, n, T, R, w):
    """uncompounded drawdowns: d_0 = 0, d_{t+1} = max(d_t - r_t'w, 0)"""
    d = V.ghost("drawdown", T + 1, 0, lambda t, g: V.max(g - V.sum(n, lambda i: V.el(R, t, i) * V.el(w, i)), 0))
    return lambda t: V.el(d, t + 1), d


def tail(cls, mod, method, arg, worst, name):
    """The reported figure is the solver's a + sum(excess) / (T (1 - beta)); when the programme minimises it, it is
    <= a + sum(max(loss - a, 0)) / (T (1 - beta)) for every a and >= the same at the solver's own a, hence the minimum over
    a, which is the CVaR / CDaR of the weights. Uses only that the solver's point is feasible and no worse than another
    feasible point with the same weights."""
    def f(V):
        n, T = V.dim("n"), V.dim("T", lo=2)
        mu, R = V.vec("mu", n, gen=lambda r, n: [r.uniform(0.05, 0.2) for _ in range(n)]), V.mat("R", T, n, gen=grets)
        beta = V.real("beta", lo=0.3, hi=0.99, gen=lambda r: r.choice([0.9, 0.75, 0.5, 0.95]))
        labels = V.labels("tick", n)
        ef = getattr(V.mod("efficient_frontier"), cls)(V.series(mu, labels), V.frame(R, V.datelabels(T), labels), beta=beta)
        V.solve_modes("optimal")
        V.feasible_solutions()
        a = () if arg is None else (V.real("target", lo=0.001, gen=lambda r: r.uniform(0.01, arg)),)
        r0 = V.call(getattr(ef, method), *a)
        ss = V.solves()
        V.ensure("one problem", len(ss) == 1)
        if len(ss) != 1 or not r0.ok:
            return
        rec = ss[0]
        w = rec.value(ef._w)
        r = V.call(ef.portfolio_performance, verbose=V.bool("verbose"))
        V.ensure("returns two figures", r.ok and len(r.value) == 2)
        if not r.ok:
            return
        rep = r.value[1]
        V.scalar("expected return", r.value[0], dot(V, n, w, mu))
        loss, path = worst(V, n, T, R, w)
        scale = V.one() / (T * (1 - beta)) if V.sym else 1 / (T * (1 - beta))

        def F(a):
            return a + scale * V.sum(T, lambda t: V.max(loss(t) - a, 0))
        if V.conc:
            best = min([F(loss(t)) for t in range(T)] + [F(0.0)])
            V.ensure(name + ": at least that of the weights", rep >= best - 2e-4)
            if method != "efficient_risk":
                V.ensure(name + " of the returned weights", abs(rep - best) <= 2e-4)
            return
        al = [v for v in rec.vars if v is not ef._w and tuple(v.shape) == ()]
        ex = rec.var_of_shape(T, exclude=(ef._w,))
        pa = rec.var_of_shape(T + 1, exclude=(ef._w,)) if path is not None else [None]
        V.ensure("one quantile, one excess (and one drawdown) variable", len(al) == 1 and len(ex) == 1 and len(pa) == 1)
        if not (len(al) == 1 and len(ex) == 1 and len(pa) == 1):
            return
        a0, e0 = rec.value(al[0]), rec.value(ex[0])
        V.scalar("reported figure is the programme's own", rep, a0 + scale * V.sum(T, lambda t: V.el(e0, t)))
        here, there = [(ef._w, w), (al[0], a0), (ex[0], e0)], [(ef._w, w)]
        if path is not None:
            p0 = rec.value(pa[0])
            V.induct("the drawdown variable dominates the drawdowns", T + 1, lambda t: V.ge(V.el(p0, t), V.el(path, t)))
            V.induct("drawdowns are non-negative", T + 1, lambda t: V.ge(V.el(path, t), 0))
            here.append((pa[0], p0))
            there.append((pa[0], path))
        V.fact("scale", V.gt(scale, 0))
        V.sum_le("excess variable dominates the excess", T, lambda t: scale * V.max(loss(t) - a0, 0),
                 lambda t: scale * V.el(e0, t))
        V.ensure("at least the figure of the weights", V.ge(rep, F(a0)))
        if method == "efficient_risk":
            return
        b = V.point("a")
        there += [(al[0], b), (ex[0], V.arr(T, lambda t: V.max(loss(t) - b, 0)))]
        V.ensure("another quantile with the same weights is feasible", rec.feasible(there))
        V.assume(V.le(rec.obj(here), rec.obj(there)))        # the solver's point is optimal
        V.ensure("no larger than the expression at any quantile", V.le(rep, F(b)))
    f.__name__ = "%s_%s" % (cls, method)
    f.__module__ = __name__
    unit("C10", funcs=["efficient_frontier.%s.%s.portfolio_performance" % (mod, cls),
                       "efficient_frontier.%s.%s.%s" % (mod, cls, method)])(f)


for _m, _a in (("min_cvar", None), ("efficient_return", 0.05), ("efficient_risk", 0.2)):
    tail("EfficientCVaR", "efficient_cvar", _m, _a, closs, "CVaR")
for _m, _a in (("min_cdar", None), ("efficient_return", 0.05), ("efficient_risk", 0.3)):
    tail("EfficientCDaR", "efficient_cdar", _m, _a, cdraw, "CDaR")


@unit("C10", funcs=PP + ["hierarchical_portfolio.HRPOpt.portfolio_performance", "hierarchical_portfolio.HRPOpt.__init__"])
def hierarchical(V):
    """mean and sample covariance of the returns times the frequency, or the given covariance alone"""
    n, T = V.dim("n"), V.dim("T", lo=2)
    R = V.mat("R", T, n, gen=grets)
    S = V.symmat("S", n, gen=gcov)
    w = V.vec("w", n, gen=lambda r, n: [r.uniform(0, 1) for _ in range(n)])
    labels = V.labels("tick", n)
    H = V.mod("hierarchical_portfolio").HRPOpt
    rets = V.bool("from returns")
    h = H(V.frame(R, V.datelabels(T), labels)) if rets else H(cov_matrix=V.frame(S, labels, labels))
    rf = V.real("rf", gen=lambda r: r.choice([0.0, 0.02]))
    f = V.int("frequency", lo=1, gen=lambda r: r.choice([252, 12]))
    expect_raises(V, "before optimising raises ValueError", V.call(h.portfolio_performance), "ValueError")
    V.call(h.set_weights, V.mapping(labels, w))
    m = lambda i: V.sum(T, lambda t: V.el(R, t, i)) / T
    if rets:
        C = V.arr2(n, n, lambda i, j: V.sum(T, lambda t: (V.el(R, t, i) - m(i)) * (V.el(R, t, j) - m(j))) / (T - 1) * f)
        mu = V.arr(n, lambda i: m(i) * f)
        V.assume(V.gt(quad(V, n, w, C), 0))
        figures(V, V.call(h.portfolio_performance, risk_free_rate=rf, frequency=f), n, w, mu, C, rf)
    else:
        V.assume(V.gt(quad(V, n, w, S), 0))
        figures(V, V.call(h.portfolio_performance, risk_free_rate=rf), n, w, None, S, rf)


@unit("C10", funcs=PP + ["cla.CLA.portfolio_performance", "cla.CLA.__init__"])
def critical_line(V):
    n = V.dim("n")
    mu, S, w = V.vec("mu", n, gen=gmu), V.symmat("S", n, gen=gcov), V.vec("w", n, gen=gw)
    labels = V.labels("tick", n)
    c = V.mod("cla").CLA(V.series(mu, labels), V.frame(S, labels, labels))
    rf = V.real("rf", gen=lambda r: r.choice([0.0, 0.02]))
    expect_raises(V, "before optimising raises ValueError", V.call(c.portfolio_performance), "ValueError")
    c.weights = w
    V.assume(V.gt(quad(V, n, w, S), 0))
    figures(V, V.call(c.portfolio_performance, verbose=True, risk_free_rate=rf), n, w, mu, S, rf)


@unit("C10", funcs=PP + ["black_litterman.BlackLittermanModel.portfolio_performance"])
def black_litterman(V):
    """the posterior returns and covariance are used"""
    n, k = V.dim("n"), V.dim("K")
    S, pi, w = V.symmat("S", n, gen=gcov), V.vec("pi", n, gen=gmu), V.vec("w", n, gen=gw)
    P = V.mat("P", k, n, gen=lambda r, k, n: [[r.choice([0, 1, -1, 0.5]) for _ in range(n)] for _ in range(k)])
    Q = V.vec("Q", k, gen=gmu)
    O = V.vec("omega", k, lo=0.001, gen=lambda r, n: [r.uniform(0.01, 0.1) for _ in range(n)])
    labels = V.labels("tick", n)
    b = V.mod("black_litterman").BlackLittermanModel(V.frame(S, labels, labels), pi=pi, Q=Q, P=P, omega=V.np.diag(O))
    rf = V.real("rf", gen=lambda r: r.choice([0.0, 0.02]))
    if V.sym:
        # callees by contract (C14): some labelled posterior mean and covariance, the same at every call
        m0, C0 = V.series(V.vec("posterior_mean", n), labels), V.frame(V.symmat("posterior_cov", n), labels, labels)
        b.bl_returns, b.bl_cov = lambda: m0, lambda: C0
    if V.bool("weights of the model"):
        r1 = V.call(b.bl_weights, risk_aversion=2)
        if not r1.ok:
            return
        if V.sym:
            b.weights = w      # whatever they are (C14)
        w = b.weights
    else:
        V.call(b.set_weights, V.mapping(labels, w))
    r0 = V.call(b.bl_returns)
    V.ensure("posterior returns", r0.ok)
    c0 = V.call(b.bl_cov)
    V.ensure("posterior covariance", c0.ok)
    if not (r0.ok and c0.ok):
        return
    V.assume(V.gt(quad(V, n, w, c0.value), 1e-9))
    figures(V, V.call(b.portfolio_performance, risk_free_rate=rf), n, w, r0.value, c0.value, rf)


def slack(cls, name, worst, method):
    """Known finding: after efficient_risk with a limit that does not bind, the solver's quantile and excesses are not
    minimal and the reported figure is theirs, not that of the weights. One fixed history; anything other than the
    programme's own figure is still a violation."""
    def f(V):
        np = V.np
        R = np.array([[0.01, -0.02, 0.005], [-0.015, 0.03, 0.01], [0.02, -0.01, -0.03], [-0.005, 0.012, 0.02],
                      [0.007, -0.025, 0.01], [-0.01, 0.02, -0.02]])
        mu = np.array([0.05, 0.1, 0.2])
        ef = getattr(V.mod("efficient_frontier"), cls)(mu, R, beta=0.5)
        r0 = V.call(ef.efficient_risk, 0.6)
        r = V.call(ef.portfolio_performance)
        V.ensure("solves and reports", r0.ok and r.ok)
        rec = V.solves()[0]
        loss, _ = worst(V, 3, 6, R, ef.weights)

        def F(a):
            return a + sum(max(loss(t) - a, 0) for t in range(6)) / 3
        al = [v for v in rec.vars if v is not ef._w and tuple(v.shape) == ()][0]
        ex = rec.var_of_shape(6, exclude=(ef._w,))[0]
        best = min([F(loss(t)) for t in range(6)] + [F(0.0)])
        own = float(rec.value(al)) + float(sum(rec.value(ex))) / 3
        V.ensure("the programme's own figure or that of the weights",
                 min(abs(r.value[1] - own), abs(r.value[1] - best)) < 1e-6)
        V.ensure("%s of the weights although the limit does not bind" % name, abs(r.value[1] - best) < 1e-3)
    f.__name__ = "slack_limit_" + name
    f.__module__ = __name__
    unit("C10", conc_only=True, conc=1, bounded="one history: a risk limit that does not bind",
         funcs=["efficient_frontier.efficient_%s.%s.portfolio_performance" % (name.lower(), cls)])(f)


slack("EfficientCVaR", "CVaR", closs, "min_cvar")
slack("EfficientCDaR", "CDaR", cdraw, "min_cdar")
