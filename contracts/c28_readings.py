"""C28: latest prices, allocation error and the plots of weights, covariances and clusters: each asset's own number."""
from vf.contract import unit
from .common import *
from .c12_greedy import book, shares, glongshort
from .c24_conversion import gholes

D = "discrete_allocation."
P = "plotting."


def gdelisted(r, T, n):
    """an asset may have its last price long before the end"""
    rows = gholes(r, T, n)
    for i in range(n):
        if r.random() < 0.4:
            for t in range(r.randrange(T + 1), T):
                rows[t][i] = float("nan")
    return rows


@unit("C28", funcs=[D + "get_latest_prices"])
def latest_prices(V):
    """the last known price of each asset, missing only for an asset without any"""
    n, T = V.dim("n"), V.dim("T", lo=60 if V.bool("long history") else 1)
    A = V.mat("P", T, n, gen=gdelisted, nan=True, owner="prices")
    labels = V.labels("tick", n)
    r = V.call(V.mod("discrete_allocation").get_latest_prices, V.frame(A, V.datelabels(T), labels))
    V.ensure("returns", r.ok and V.is_series(r.value))
    if not r.ok:
        return
    V.ensure("one price per asset, labelled", V.labels_eq(r.value.index, labels))
    V.ensure("the price of the last day it is known", V.forall(n, lambda i: V.forall(T, lambda t: V.implies(
        V.and_(V.not_(V.isnan(A, t, i)), V.forall(T, lambda s: V.implies(V.gt(s, t), lambda: V.isnan(A, s, i)))),
        lambda: V.and_(V.not_(V.isnan(r.value, i)), V.eq(V.el(r.value, i), V.el(A, t, i)))))))
    V.ensure("missing when it is never known", V.forall(n, lambda i: V.implies(
        V.forall(T, lambda t: V.isnan(A, t, i)), lambda: V.isnan(r.value, i))))
    V.ensure("the prices are unchanged", len(V.mutated()) == 0)


@unit("C28", funcs=[D + "get_latest_prices"])
def latest_prices_refused(V):
    n = V.dim("n")
    p = V.vec("p", n, lo=1)
    kind = V.choice("kind", ["series", "array", "list"])
    x = V.series(p, V.labels("tick", n)) if kind == "series" else p if kind == "array" else V.aslist(p)
    r = V.call(V.mod("discrete_allocation").get_latest_prices, x)
    expect_raises(V, "refused", r, "TypeError")


@unit("C28", funcs=[D + "DiscreteAllocation._allocation_rmse_error"])
def allocation_error(V):
    n, labels, w, prices, val, price = book(V, glongshort)
    DA = V.mod("discrete_allocation").DiscreteAllocation
    da = V.call(DA, V.mapping(labels, w, py="float"), prices, val)
    V.ensure("accepted", da.ok)
    if not da.ok:
        return
    x = V.vec("shares", n, gen=lambda r, n: [r.choice([1, 3, 17, -4]) for _ in range(n)], py="i")
    held = V.vec("held", n, lo=0, hi=1, gen=lambda r, n: [r.choice([0.0, 1.0]) for _ in range(n)])
    have = lambda i: V.gt(V.el(held, i), V.q("1/2"))
    o = da.value
    o.allocation = V.submap(labels, x, have)
    total = V.sum(n, lambda i: V.ite(have(i), lambda: V.el(x, i) * price(i), 0))
    V.assume(V.not_(V.eq(total, 0)))
    r = V.call(o._allocation_rmse_error, *((V.bool("verbose"),) if V.bool("given") else ()))
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    gap = lambda i: V.el(w, i) - V.ite(have(i), lambda: V.el(x, i) * price(i) / total, 0)
    V.scalar("root of the mean squared difference of wanted and bought weights", r.value,
             V.sqrt(V.sum(n, lambda i: gap(i) * gap(i)) / n), tol=1e-7)
    V.ensure("the inputs are unchanged", len(V.mutated()) == 0)


class Plt:
    """pyplot whose new figures draw on the given axes"""

    def __init__(self, V):
        self._V, self._ax, self._fig = V, V.axes(), V.axes()

    def subplots(self, *a, **k):
        return self._V.axes(), self._ax

    def gca(self, *a, **k):
        return self._ax

    def __getattr__(self, k):
        return getattr(self._fig, k)


@unit("C28", funcs=[P + "plot_weights"])
def weights(V):
    n = V.dim("n")
    labels = V.labels("tick", n)
    w = V.vec("w", n, gen=glongshort, owner="weights")
    plt = Plt(V)
    V.patch("plotting", "plt", plt)
    given = V.bool("axes given")
    r = V.call(V.mod("plotting").plot_weights, V.mapping(labels, w, py="float"), *((plt._ax,) if given else ()))
    V.ensure("returns the axes drawn on", r.ok and r.value is plt._ax)
    if not r.ok:
        return
    bars, names = V.drawn(plt._ax, "barh"), V.drawn(plt._ax, "set_yticklabels")
    ticks = V.drawn(plt._ax, "set_yticks")
    V.ensure("one bar chart, named once", len(bars) == 1 and len(names) == 1 and len(ticks) == 1)
    if len(bars) != 1 or len(names) != 1 or len(ticks) != 1:
        return
    pos, vals = bars[0][0], bars[0][1]
    names, ticks = names[0][0], ticks[0][0]
    V.ensure("one bar for each asset", V.and_(V.eq(V.length(vals), n), V.eq(V.length(names), n)))
    V.vector("bars from the top, in order", pos, n, lambda k: k)
    V.vector("names at the bars", ticks, n, lambda k: k)
    V.ensure("the largest weight first", V.forall(n, lambda k: V.implies(
        V.gt(k, 0), lambda: V.ge(V.item(vals, k - 1), V.item(vals, k)))))
    V.ensure("every asset has the bar of its own weight", V.forall(n, lambda i: V.exists(n, lambda k: V.and_(
        V.lab_eq(V.lab(names, k), V.lab(labels, i)), V.eq(V.item(vals, k), V.el(w, i))))))
    V.ensure("the weights are unchanged", len(V.mutated()) == 0)


@unit("C28", funcs=[P + "plot_covariance"])
def covariance(V):
    n = V.dim("n")
    S = V.symmat("S", n, gen=gcov, owner="matrix")
    V.assume(V.forall(n, lambda i: V.gt(V.el(S, i, i), 0)))
    labels = V.labels("tick", n)
    plt = Plt(V)
    V.patch("plotting", "plt", plt)
    corr = V.bool("correlations")
    show = V.bool("tickers")
    kw = {"plot_correlation": True} if corr else {}
    if not show:
        kw["show_tickers"] = False
    r = V.call(V.mod("plotting").plot_covariance, V.frame(S, labels, labels), **kw)
    V.ensure("returns the axes drawn on", r.ok and r.value is plt._ax)
    if not r.ok:
        return
    shown = V.drawn(plt._ax, "imshow")
    V.ensure("one matrix is shown", len(shown) == 1)
    if len(shown) != 1:
        return
    sd = lambda i: V.sqrt(V.el(S, i, i))
    V.matrix("the matrix", shown[0][0], n, n,
             lambda i, j: V.el(S, i, j) / (sd(i) * sd(j)) if corr else V.el(S, i, j), tol=1e-9)
    for a in ("x", "y"):
        names, ticks = V.drawn(plt._ax, "set_%sticklabels" % a), V.drawn(plt._ax, "set_%sticks" % a)
        V.ensure(a + ": named when asked", len(names) == int(show))
        if show and len(names) == 1 and len(ticks) == 1:
            V.ensure(a + ": by asset", V.labels_eq(names[0][0], labels))
            V.vector(a + ": each row and column", ticks[0][0], n, lambda k: k)
    V.ensure("the matrix is unchanged", len(V.mutated()) == 0)


@unit("C28", funcs=[P + "plot_dendrogram"])
def dendrogram(V):
    n = V.dim("n", lo=2)
    S = V.symmat("S", n, gen=gcov, owner="matrix")
    labels = V.labels("tick", n)
    H = V.mod("hierarchical_portfolio").HRPOpt
    o = H(cov_matrix=V.frame(S, labels, labels))
    tree = object()
    asked, drawn = [], []

    def optimize(self, *a, **k):
        asked.append((self, a, k))
        self.clusters = tree
    V.patch(H, "optimize", optimize)
    V.patch_lib("scipy.cluster.hierarchy", "dendrogram", lambda *a, **k: drawn.append((a, k)))
    plt = Plt(V)
    V.patch("plotting", "plt", plt)
    ready = V.bool("optimised before")
    if ready:
        o.clusters = tree
    show = V.bool("tickers")
    r = V.call(V.mod("plotting").plot_dendrogram, o, **({} if show else {"show_tickers": False}))
    V.ensure("returns the axes drawn on", r.ok and r.value is plt._ax)
    if not r.ok:
        return
    V.ensure("optimised exactly when it was not", len(asked) == (0 if ready else 1))
    V.ensure("warns when it was not", V.warned("RuntimeWarning") == (not ready))
    V.ensure("one dendrogram of the optimiser's clusters", len(drawn) == 1 and len(drawn[0][0]) == 1
             and drawn[0][0][0] is tree and drawn[0][1].get("ax") is plt._ax)
    if len(drawn) == 1 and show:
        V.ensure("leaves named by asset", V.labels_eq(drawn[0][1].get("labels"), labels))
    V.ensure("the input is unchanged", len(V.mutated()) == 0)
