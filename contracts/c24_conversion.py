"""C24: prices <-> returns."""
from vf.contract import unit
from .common import *

X = "expected_returns."


def mod(V):
    return V.mod("expected_returns")


def hol(V, P, T, n, prices=True):
    d, labels = V.datelabels(T), V.labels("tick", n)
    return V.frame(P, d, labels), d, labels


@unit("C24", funcs=[X + "returns_from_prices"])
def returns_from_prices(V):
    n, T = V.dim("n"), V.dim("T", lo=1, hi=None)
    P = V.mat("P", T, n, gen=gprices, owner="prices")
    V.assume(V.forall(T, lambda t: V.forall(n, lambda i: V.gt(V.el(P, t, i), 0))))
    F, d, labels = hol(V, P, T, n)
    log = V.bool("log_returns")
    r = V.call(mod(V).returns_from_prices, F, log) if log or V.bool("explicit") else V.call(mod(V).returns_from_prices, F)
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    V.frame_labels("one row per period after the first, one column per asset", r.value, V.tail(d, T, 1), labels)

    def f(t, i):
        q = V.el(P, t + 1, i) / V.el(P, t, i)
        return V.log(q) if log else q - 1
    V.matrix("returns", r.value, T - 1, n, f, tol=1e-9)
    V.ensure("the prices are unchanged", len(V.mutated()) == 0)


def gholes(r, T, n):
    rows = gprices(r, T, n)
    for t in range(T):
        if r.random() < 0.15:
            rows[t] = [float("nan")] * n
        for i in range(n):
            if r.random() < 0.15 or t < 2 and i == 0 and r.random() < .5:
                rows[t][i] = float("nan")
    return rows


@unit("C24", funcs=[X + "returns_from_prices"])
def missing_prices(V):
    n, T = V.dim("n"), V.dim("T", lo=2)
    P = V.mat("P", T, n, gen=gholes, nan=True, owner="prices")
    V.assume(V.forall(T, lambda t: V.forall(n, lambda i: V.or_(V.isnan(P, t, i), V.gt(V.el(P, t, i), 0)))))
    F, d, labels = hol(V, P, T, n)
    log = V.bool("log_returns")
    r = V.call(mod(V).returns_from_prices, F, log)
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    R = r.value
    known = lambda t, i: V.and_(V.not_(V.isnan(P, t, i)), V.not_(V.isnan(P, t - 1, i)))
    V.ensure("the first period has no return", V.not_(V.has_row(R, V.lab(d, 0))))
    V.ensure("a period has a row exactly when some return is known", V.forall(T - 1, lambda t: V.iff(
        V.has_row(R, V.lab(d, t + 1)), V.exists(n, lambda i: known(t + 1, i)))))

    def cell(t, i):
        q = V.el(P, t + 1, i) / V.el(P, t, i)
        x, isn = V.cell(R, V.lab(d, t + 1), V.lab(labels, i))
        return V.and_(V.iff(isn, V.not_(known(t + 1, i))),
                      V.implies(known(t + 1, i), lambda: V.eq(x, V.log(q) if log else q - 1, tol=1e-9)))
    V.ensure("each entry is that asset's return for that period, unknown exactly if a price is",
             V.forall(T - 1, lambda t: V.forall(n, lambda i: V.implies(
                 V.has_row(R, V.lab(d, t + 1)), lambda: cell(t, i)))))
    V.ensure("the prices are unchanged", len(V.mutated()) == 0)


@unit("C24", funcs=[X + "prices_from_returns"])
def prices_from_returns(V):
    n, T = V.dim("n"), V.dim("T", lo=1)
    R = V.mat("R", T, n, gen=grets, owner="returns")
    F, d, labels = hol(V, R, T, n)
    log = V.bool("log_returns")
    r = V.call(mod(V).prices_from_returns, F, log) if log or V.bool("explicit") else V.call(mod(V).prices_from_returns, F)
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    V.frame_labels("labels", r.value, d, labels)
    V.ensure("prices start at one", V.forall(n, lambda i: V.eq(V.el(r.value, 0, i), 1)))
    V.ensure("each price is the previous one times one plus the return", V.forall(T - 1, lambda t: V.forall(n, lambda i: V.eq(
        V.el(r.value, t + 1, i), V.el(r.value, t, i) * (V.exp(V.el(R, t + 1, i)) if log else 1 + V.el(R, t + 1, i)),
        tol=1e-9))))
    V.ensure("the returns are unchanged", len(V.mutated()) == 0)


@unit("C24", funcs=[X + "prices_from_returns", X + "returns_from_prices"])
def round_trip(V):
    n, T = V.dim("n"), V.dim("T", lo=2)
    P = V.mat("P", T, n, gen=gprices)
    V.assume(V.forall(T, lambda t: V.forall(n, lambda i: V.gt(V.el(P, t, i), 0))))
    F, d, labels = hol(V, P, T, n)
    log = V.bool("log_returns")
    R = V.call(mod(V).returns_from_prices, F, log_returns=log).value
    B = V.call(mod(V).prices_from_returns, R, log_returns=log)
    V.ensure("returns", B.ok)
    if not B.ok:
        return
    # the product of ratios telescopes (induction on the period)
    V.induct("prices are rebuilt up to the first price", T - 1, lambda t: V.forall(n, lambda i: V.eq(
        V.el(B.value, t, i) * V.el(P, 1, i), V.el(P, t + 1, i), tol=1e-9)))
    V.ensure("dates and assets kept", V.labels_eq(V.index(B.value), V.tail(d, T, 1)))


@unit("C24", funcs=[X + "prices_from_returns", X + "returns_from_prices"])
def round_trip_back(V):
    n, T = V.dim("n"), V.dim("T", lo=2)
    R = V.mat("R", T, n, gen=grets)
    V.assume(V.forall(T, lambda t: V.forall(n, lambda i: V.gt(V.el(R, t, i), -1))))
    F, d, labels = hol(V, R, T, n)
    log = V.bool("log_returns")
    P = V.call(mod(V).prices_from_returns, F, log_returns=log).value
    V.induct("prices are positive", T, lambda t: V.forall(n, lambda i: V.gt(V.el(P, t, i), 0)))
    B = V.call(mod(V).returns_from_prices, P, log_returns=log)
    V.ensure("returns", B.ok)
    if B.ok:
        V.matrix("the returns after the first are recovered", B.value, T - 1, n, lambda t, i: V.el(R, t + 1, i), tol=1e-6)
