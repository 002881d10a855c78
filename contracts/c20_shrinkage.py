"""C20: shrinkage estimators.

X: the returns (given, or of the given prices; T periods, n assets), S: their sample covariance, f the frequency.
Every estimate is f (delta F + (1 - delta) S), repaired as in C21, with
  manual                 F = (tr S / n) I, delta as given
  single factor          S, F of the biased covariances: F_ij = b_i b_j / v, F_ii = S_ii, b_i = cov(i, mkt), v = var(mkt),
                         mkt the equally weighted mean; delta = clip(k / T), k = (pi - rho) / gamma (Ledoit & Wolf 2001)
  constant correlation   F_ij = r s_i s_j, F_ii = S_ii, r the mean correlation; delta as in Ledoit & Wolf (2003)
  constant variance, oracle approximating   sklearn's ledoit_wolf / oas of the returns"""
from vf.contract import unit
from .common import *
from .c23_returns import Data
from .c19_risk import Repair, out, sample

C = "risk_models.CovarianceShrinkage."


def make(V, lo=2, nlo=1):
    n, T = V.dim("n", lo=nlo), V.dim("T", lo=lo)
    d = Data(V, n, T)
    rep = Repair(V)
    kw, f = dict(d.kw), 252
    if V.bool("frequency given"):
        f = kw["frequency"] = V.real("frequency", lo=1, gen=lambda r: r.choice([1, 12, 52, 252]))
    c = V.call(V.mod("risk_models").CovarianceShrinkage, d.arg, **kw)
    V.ensure("constructed", c.ok)
    return n, T, d, rep, f, (c.value if c.ok else None)


def clip(V, x):
    return V.max(0, V.min(1, x))


def shrunk(V, r, c, rep, n, labels, f, F, S, delta, framed=None):
    """F, S, delta: target, sample covariance and intensity"""
    out(V, r, rep, n, labels, lambda i, j: (delta * F(i, j) + (1 - delta) * S(i, j)) * f, framed=framed)
    if r.ok:
        V.ensure("intensity reported", V.eq(c.delta, delta, 1e-7))


@unit("C20", funcs=[C + "__init__", C + "shrunk_covariance", C + "_format_and_annualize"])
def manual(V):
    n, T, d, rep, f, c = make(V)
    if c is None:
        return
    S = sample(V, d, 1)
    V.matrix("sample covariance of the returns", c.S, n, n, S)
    V.matrix("the returns", c.X, T, n, lambda t, i: d.r(t, i))
    V.ensure("no intensity before estimating", V.isnone(c.delta))
    mu = V.sum(n, lambda i: S(i, i)) / n
    F = lambda i, j: V.ite(V.eq(i, j), mu, 0)
    if V.bool("delta given"):
        delta = V.real("delta", lo=0, hi=1, gen=lambda r: r.choice([0.0, 1.0, r.random()]))
        r = V.call(c.shrunk_covariance, delta)
    else:
        delta = V.q("1/5")
        r = V.call(c.shrunk_covariance)
    shrunk(V, r, c, rep, n, d.labels, f, F, S, delta, d.framed)


def demeaned(V, nlo=1):
    """an arbitrary matrix of returns as (demeaned returns) + (means)"""
    n, T = V.dim("n", lo=nlo), V.dim("T", lo=2)
    X, x, m = V.centred("R", T, n, gen=grets, owner="returns")
    labels = V.labels("tick", n)
    rep = Repair(V)
    f = V.real("frequency", lo=1, gen=lambda r: r.choice([1, 12, 52, 252]))
    c = V.mod("risk_models").CovarianceShrinkage(V.frame(X, V.datelabels(T), labels), returns_data=True, frequency=f)
    return n, T, x, labels, rep, f, c


def moments(V, d, n, T):
    mean = lambda i: V.sum(T, lambda t: d.r(t, i)) / T
    x = lambda t, i: d.r(t, i) - mean(i)
    return x


@unit("C20", funcs=[C + "_ledoit_wolf_single_factor", C + "ledoit_wolf"], weight=3)
def single_factor(V):
    n, T, x, labels, rep, f, c = demeaned(V)
    mk = lambda t: V.sum(n, lambda j: x(t, j)) / n
    S = lambda i, j: V.sum(T, lambda t: x(t, i) * x(t, j)) / T
    b = lambda i: V.sum(T, lambda t: x(t, i) * mk(t)) / T
    v = V.sum(T, lambda t: mk(t) ** 2) / T
    V.assume(V.gt(v, 0 if V.sym else 1e-12))
    F = lambda i, j: V.ite(V.eq(i, j), lambda: S(i, i), lambda: b(i) * b(j) / v)
    g = V.sum(n, lambda i: V.sum(n, lambda j: (S(i, j) - F(i, j)) ** 2))
    V.assume(V.gt(g, 0 if V.sym else 1e-16))
    # asymptotic variances and covariances of the entries of S and F
    pi = V.sum(n, lambda i: V.sum(n, lambda j: V.sum(T, lambda t: x(t, i) ** 2 * x(t, j) ** 2) / T - S(i, j) ** 2))
    rdiag = V.sum(n, lambda i: V.sum(T, lambda t: x(t, i) ** 4) / T - S(i, i) ** 2)
    v1 = lambda i, j: V.sum(T, lambda t: x(t, i) ** 2 * x(t, j) * mk(t)) / T - b(i) * S(i, j)
    v3 = lambda i, j: V.sum(T, lambda t: x(t, i) * x(t, j) * mk(t) ** 2) / T - v * S(i, j)
    off = lambda h: V.sum(n, lambda i: V.sum(n, lambda j: h(i, j))) - V.sum(n, lambda i: h(i, i))
    rho = rdiag + 2 * off(lambda i, j: v1(i, j) * b(j)) / v - off(lambda i, j: v3(i, j) * b(i) * b(j)) / v ** 2
    delta = clip(V, (pi - rho) / g / T)
    r = V.call(c.ledoit_wolf, shrinkage_target="single_factor")
    shrunk(V, r, c, rep, n, labels, f, F, S, delta)


@unit("C20", funcs=[C + "_ledoit_wolf_constant_correlation", C + "ledoit_wolf"], weight=3)
def constant_correlation(V):
    n, T, x, labels, rep, f, c = demeaned(V, 2)
    S = lambda i, j: V.sum(T, lambda t: x(t, i) * x(t, j)) / (T - 1)
    sd = lambda i: V.sqrt(S(i, i))
    V.assume(V.forall(n, lambda i: V.gt(S(i, i), 0 if V.sym else 1e-12)))
    rb = (V.sum(n, lambda i: V.sum(n, lambda j: S(i, j) / (sd(i) * sd(j)))) - n) / (n * (n - 1))
    F = lambda i, j: V.ite(V.eq(i, j), lambda: S(i, i), lambda: rb * sd(i) * sd(j))
    g = V.sum(n, lambda i: V.sum(n, lambda j: (S(i, j) - F(i, j)) ** 2))
    V.assume(V.gt(g, 0 if V.sym else 1e-16))
    h = lambda i, j: V.sum(T, lambda t: x(t, i) * x(t, j)) / T
    pij = lambda i, j: V.sum(T, lambda t: x(t, i) ** 2 * x(t, j) ** 2) / T - 2 * h(i, j) * S(i, j) + S(i, j) ** 2
    pi = V.sum(n, lambda i: V.sum(n, lambda j: pij(i, j)))
    th = lambda i, j: V.sum(T, lambda t: x(t, i) ** 3 * x(t, j)) / T - h(i, i) * S(i, j) - h(i, j) * S(i, i) + S(i, i) * S(i, j)
    rho = V.sum(n, lambda i: pij(i, i)) + rb * V.sum(n, lambda i: V.sum(n, lambda j: V.ite(
        V.eq(i, j), 0, lambda: sd(j) / sd(i) * th(i, j))))
    delta = clip(V, (pi - rho) / g / T)
    r = V.call(c.ledoit_wolf, shrinkage_target="constant_correlation")
    shrunk(V, r, c, rep, n, labels, f, F, S, delta)


def _sklearn(method, lib):
    def f(V):
        n, T, d, rep, f, c = make(V)
        if c is None:
            return
        if method == "ledoit_wolf":
            r = V.call(c.ledoit_wolf, *(["constant_variance"] if V.bool("target named") else []))
        else:
            r = V.call(c.oracle_approximating)
        x = moments(V, d, n, T)
        E, delta = V.library("sklearn.covariance", lib, V.arr2(T, n, d.r))
        out(V, r, rep, n, d.labels, lambda i, j: V.el(E, i, j) * f, framed=d.framed)
        if r.ok:
            V.ensure("intensity reported", V.eq(c.delta, delta, 1e-7))
            if V.conc:
                S = lambda i, j: V.sum(T, lambda t: x(t, i) * x(t, j)) / T
                mu = V.sum(n, lambda i: S(i, i)) / n
                V.ensure("between 0 and 1", -1e-9 <= c.delta <= 1 + 1e-9)
                V.matrix("convex combination", rep.calls[0][0], n, n, lambda i, j: f * (
                    delta * (mu if i == j else 0) + (1 - delta) * S(i, j)), tol=1e-7)
    f.__name__ = lib
    f.__module__ = __name__
    unit("C20", funcs=[C + ("ledoit_wolf" if method == "ledoit_wolf" else "oracle_approximating"), C + "_format_and_annualize"])(f)


_sklearn("ledoit_wolf", "ledoit_wolf")
_sklearn("oracle_approximating", "oas")


@unit("C20", funcs=[C + "ledoit_wolf"])
def unknown_target(V):
    n, T, d, rep, f, c = make(V)
    if c is not None:
        expect_raises(V, "unknown targets are refused", V.call(c.ledoit_wolf, shrinkage_target=V.choice("target", ["bogus", "identity", ""])),
                      "NotImplementedError")
