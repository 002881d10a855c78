"""C27: plotted frontiers.

The optimiser's methods are used through their contract (C02): each call either finds the portfolio of the parameter it was
given or refuses; here both are arbitrary functions of the parameter, so every sequence of successes and failures is covered."""
from vf.contract import unit
from .common import *
from .c08_userparts import data

P = "plotting."
METHODS = {"return": "efficient_return", "risk": "efficient_risk", "utility": "max_quadratic_utility"}


def build(V):
    n, mu, S, L, U = data(V)
    labels = V.labels("tick", n)
    EF = V.mod("efficient_frontier").EfficientFrontier
    return n, mu, S, EF, EF(V.series(mu, labels), V.frame(S, labels, labels), weight_bounds=(L, U))


def solver(V, EF, ef):
    """stand-ins for the optimiser's methods: the portfolio depends on the method and its parameter alone"""
    X = V.mod("exceptions")

    def method(name):
        def f(self, x, *a, **k):
            if V.split(V.pred(name + " infeasible", x)):
                raise X.OptimizationError("infeasible")
            if V.split(V.pred(name + " refused", x)):
                raise ValueError("refused")
            self.at_return, self.at_risk = V.fun(name + " return", x), V.fun(name + " risk", x)
        return f
    ef.at_return, ef.at_risk = V.real("return before"), V.real("risk before")
    for m in METHODS.values():
        V.patch(EF, m, method(m))

    def performance(self, *a, **k):
        return self.at_return, self.at_risk, self.at_return / self.at_risk
    V.patch(EF, "portfolio_performance", performance)


def check_points(V, ax, m, grid, method, name="frontier"):
    calls = V.drawn(ax, "plot", "Efficient frontier")
    V.ensure("one frontier is plotted", len(calls) == 1 and len(calls[0]) == 2)
    if len(calls) != 1 or len(calls[0]) != 2:
        return
    xs, ys = calls[0]
    solved = lambda i: V.and_(V.not_(V.pred(method + " infeasible", grid(i))), V.not_(V.pred(method + " refused", grid(i))))
    V.filtered("risks of the solved parameters", xs, m, solved, lambda i: V.fun(method + " risk", grid(i)))
    V.filtered("returns of the solved parameters", ys, m, solved, lambda i: V.fun(method + " return", grid(i)))


def ggrid(r, m):
    return [round(r.uniform(0.01, 0.4), 3) for _ in range(m)]


def _given(param):
    def f(V):
        n, mu, S, EF, ef = build(V)
        m = V.dim("m", lo=1)
        rng = V.vec("range", m, gen=ggrid, owner="range")
        solver(V, EF, ef)
        ax = V.axes()
        kw = {"show_assets": False} if V.bool("hide assets") else {}
        kw.update({"ef_param": param} if param != "return" or V.bool("name the parameter") else {})
        as_list = V.bool("range is a list")
        r = V.call(V.mod("plotting").plot_efficient_frontier, ef, ef_param_range=V.aslist(rng) if as_list else rng, ax=ax, **kw)
        V.ensure("returns", r.ok)
        if r.ok:
            check_points(V, ax, m, lambda i: V.el(rng, i), METHODS[param])
        V.ensure("the inputs are unchanged", len(V.mutated()) == 0)
    f.__name__ = "given_range_" + param
    f.__module__ = __name__
    unit("C27", funcs=[P + "plot_efficient_frontier", P + "_plot_ef"])(f)


for _p in METHODS:
    _given(_p)


@unit("C27", funcs=[P + "plot_efficient_frontier", P + "_plot_ef", P + "_ef_default_returns_range"])
def default_range(V):
    n, mu, S, EF, ef = build(V)
    solver(V, EF, ef)
    used = []
    lo = V.real("return of minimum volatility", gen=lambda r: r.uniform(0, 0.1))
    hi = V.real("largest return", gen=lambda r: r.uniform(0.2, 0.4))

    def min_volatility(self):
        used.append(self)
        self.at_return, self.at_risk = lo, V.one()

    def largest(self, *a, **k):
        used.append(self)
        return hi
    V.patch(EF, "min_volatility", min_volatility)
    V.patch(EF, "_max_return", largest)
    ax = V.axes()
    kw = {}
    m = 100
    if V.bool("number of points given"):
        m = V.dim("m", lo=2)
        kw["points"] = V.dimof(V.vec("dummy", m))
    r = V.call(V.mod("plotting").plot_efficient_frontier, ef, ax=ax, **kw)
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    V.ensure("the range is computed on copies", all(o is not ef for o in used) and len(used) >= 2)
    check_points(V, ax, m, lambda i: lo + (hi - V.q("1/10000") - lo) * i / (m - 1), METHODS["return"])


@unit("C27", funcs=[P + "plot_efficient_frontier", P + "_plot_cla"])
def critical_line(V):
    n = V.dim("n", lo=3)
    mu = V.vec("mu", n, gen=gmu)
    S = V.symmat("S", n, gen=gcov)
    CLA = V.mod("cla").CLA
    cla = CLA(mu, S)
    m = V.dim("m", lo=1)
    rets, risks = V.vec("returns", m, gen=ggrid), V.vec("risks", m, gen=ggrid)
    asked = []

    def frontier(self, points=100):
        asked.append(points)
        self.frontier_values = (V.aslist(rets), V.aslist(risks), [])
        return self.frontier_values

    def sharpe(self):
        self.weights = V.vec("weights", n, gen=gmu)
    V.patch(CLA, "efficient_frontier", frontier)
    V.patch(CLA, "max_sharpe", sharpe)
    best = (V.real("ret"), V.real("vol"), V.real("sr"))
    V.patch(CLA, "portfolio_performance", lambda self, *a, **k: best)
    ready = V.bool("frontier computed before")
    if ready:
        cla.frontier_values = (V.aslist(rets), V.aslist(risks), [])
    ax = V.axes()
    given = V.bool("number of points given")
    r = V.call(V.mod("plotting").plot_efficient_frontier, cla, ax=ax, **({"points": 17} if given else {}))
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    if not ready:
        V.ensure("a frontier of the requested number of points", asked == [17 if given else 100])
    calls = V.drawn(ax, "plot", "Efficient frontier")
    V.ensure("one frontier is plotted", len(calls) == 1 and len(calls[0]) == 2)
    if len(calls) != 1 or len(calls[0]) != 2:
        return
    V.filtered("risks", calls[0][0], m, lambda i: True, lambda i: V.el(risks, i))
    V.filtered("returns", calls[0][1], m, lambda i: True, lambda i: V.el(rets, i))
    top = V.drawn(ax, "scatter", "optimal")
    V.ensure("the optimal portfolio is marked", len(top) == 1)
    if len(top) == 1:
        V.scalar("at its risk", top[0][0], best[1])
        V.scalar("at its return", top[0][1], best[0])


@unit("C27", funcs=[P + "plot_efficient_frontier", P + "_plot_ef"])
def refusals(V):
    n, mu, S, EF, ef = build(V)
    solver(V, EF, ef)
    kind = V.choice("kind", ["parameter", "optimiser"])
    plot = V.mod("plotting").plot_efficient_frontier
    if kind == "parameter":
        p = V.choice("parameter", ["blah", "volatility", "Return", ""])
        r = V.call(plot, ef, ef_param=p, ef_param_range=V.aslist(V.vec("range", 3, gen=ggrid)), ax=V.axes())
    else:
        other = V.mod("base_optimizer").BaseOptimizer(n if not V.sym else 3)
        r = V.call(plot, other, ax=V.axes())
    V.ensure("refused", (not r.ok) and r.raised("NotImplementedError"))
