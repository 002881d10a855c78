"""C23: expected-return estimators equal their documented formulas.

R_ti are the returns (given, or of the given prices), n_i the number of known returns of asset i and f the frequency:
  mean, compounded  (prod_t (1 + R_ti))^(f / n_i) - 1          arithmetic  f / n_i sum_t R_ti
  ema               m_i = sum_s (1-a)^(T-1-s) R_si / sum_s (1-a)^(T-1-s), a = 2/(span+1);  (1 + m_i)^f - 1 or f m_i
  capm              rf + beta_i (M - rf), beta_i = cov(R_i, mkt) / var(mkt), M the annualised mean market return
with sums over the periods in which the return is known."""
from vf.contract import unit
from .common import *

X = "expected_returns."
FR = [None, 252, 52, 12, 1]


def mod(V):
    return V.mod("expected_returns")


class Data:
    """price or return data in one of the accepted forms, and the returns they stand for"""

    def __init__(self, V, n, T, name="P", nan=False, framed=None, labels=None, dates=None, owner="prices"):
        self.n = n
        self.returns_data = V.bool("returns_data")
        self.log = V.bool("log_returns")
        self.framed = (V.bool("framed") if framed is None else framed)
        self.labels = (labels or V.labels("tick", n)) if self.framed else V.range_labels(n)
        dates = dates or V.datelabels(T)
        if self.returns_data:
            A = V.mat(name, T, n, gen=grets, owner=owner, nan=nan)
            V.assume(V.forall(T, lambda t: V.forall(n, lambda i: V.or_(V.isnan(A, t, i), V.gt(V.el(A, t, i), -1)))))
            self.T = T
            self.known = (lambda t, i: V.not_(V.isnan(A, t, i))) if nan else None
            self.r = lambda t, i: V.el(A, t, i)
        else:
            A = V.mat(name, T + 1, n, gen=gprices, owner=owner)
            V.assume(V.forall(T + 1, lambda t: V.forall(n, lambda i: V.gt(V.el(A, t, i), 0))))
            self.T = T
            self.known = None

            def r(t, i):
                q = V.el(A, t + 1, i) / V.el(A, t, i)
                return V.log(q) if self.log else q - 1
            self.r = r
            dates = V.datelabels(T + 1)
        self.A = A
        self.arg = V.frame(A, dates, self.labels) if self.framed else A
        self.kw = {}
        if self.returns_data:
            self.kw["returns_data"] = True
        if self.log:
            self.kw["log_returns"] = True

    def v(self, V, t, i):
        return V.ind(self.known(t, i)) if self.known else 1

    def count(self, V, i):
        return V.sum(self.T, lambda t: self.v(V, t, i)) if self.known else self.T * V.one()

    def sum(self, V, i):
        if self.known is None:
            return V.sum(self.T, lambda t: self.r(t, i))
        return V.sum(self.T, lambda t: V.ite(self.known(t, i), lambda: self.r(t, i), 0))

    def prod(self, V, i):
        if self.known is None:
            return V.prod(self.T, lambda t: 1 + self.r(t, i))
        return V.prod(self.T, lambda t: V.ite(self.known(t, i), lambda: 1 + self.r(t, i), 1))

    def mean(self, V, i, f, compounding):
        if compounding:
            return V.pow(self.prod(V, i), f / self.count(V, i)) - 1
        return self.sum(V, i) / self.count(V, i) * f


def options(V, d):
    """compounding and frequency, given or defaulted"""
    kw = dict(d.kw)
    comp = V.choice("compounding", [None, True, False])
    if comp is not None:
        kw["compounding"] = comp
    if V.bool("frequency given"):
        f = V.real("frequency", lo=1, gen=lambda r: r.choice([1, 12, 52, 252]))
        V.assume(V.gt(f, 0))
        kw["frequency"] = f
    else:
        f = 252
    return kw, comp is not False, f


def out(V, r, d, f, tol=1e-7):
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    V.ensure("a Series", V.is_series(r.value))
    if V.is_series(r.value):
        V.ensure("labelled by asset", V.labels_eq(V.index(r.value), d.labels))
    V.vector("estimates", r.value, d.n, f, tol=tol)
    V.ensure("the data are unchanged", len(V.mutated()) == 0)
    V.ensure("warns exactly when the data are not in a frame", V.iff(not d.framed, V.warned("RuntimeWarning")))


@unit("C23", funcs=[X + "mean_historical_return", X + "return_model"])
def mean_historical(V):
    n, T = V.dim("n"), V.dim("T", lo=1)
    d = Data(V, n, T)
    kw, comp, f = options(V, d)
    r = V.call(mod(V).mean_historical_return, d.arg, **kw)
    out(V, r, d, lambda i: d.mean(V, i, f, comp))
    V.ensure("no warning for known, finite returns", not V.warned("UserWarning"))


@unit("C23", funcs=[X + "mean_historical_return", X + "_check_returns"])
def mean_missing(V):
    n, T = V.dim("n"), V.dim("T", lo=1)
    d = Data(V, n, T, nan=True, framed=True)
    if not d.returns_data:
        return
    V.assume(V.forall(n, lambda i: V.exists(T, lambda t: d.known(t, i))))
    V.sums_pos("each asset has a known return", n, T, lambda i, t: d.v(V, t, i))
    kw, comp, f = options(V, d)
    r = V.call(mod(V).mean_historical_return, d.arg, **kw)
    out(V, r, d, lambda i: d.mean(V, i, f, comp))


def ema(V, d, span, i):
    q = 1 - 2 / (span + V.one())
    T = d.T
    w = lambda s: V.pow(q, T - 1 - s)
    if d.known is None:
        return V.sum(T, lambda s: w(s) * d.r(s, i)) / V.sum(T, w)
    return V.sum(T, lambda s: V.ite(d.known(s, i), lambda: w(s) * d.r(s, i), 0)) / \
        V.sum(T, lambda s: w(s) * d.v(V, s, i))


@unit("C23", funcs=[X + "ema_historical_return"])
def ema_historical(V):
    n, T = V.dim("n"), V.dim("T", lo=1)
    d = Data(V, n, T)
    kw, comp, f = options(V, d)
    if V.bool("span given"):
        span = V.real("span", lo=2, gen=lambda r: r.choice([2, 3, 10, 180]))
        kw["span"] = span
    else:
        span = 500
    r = V.call(mod(V).ema_historical_return, d.arg, **kw)
    out(V, r, d, lambda i: V.pow(1 + ema(V, d, span, i), f) - 1 if comp else ema(V, d, span, i) * f)


@unit("C23", funcs=[X + "ema_historical_return"])
def ema_missing(V):
    n, T = V.dim("n"), V.dim("T", lo=1)
    d = Data(V, n, T, nan=True, framed=True)
    if not d.returns_data:
        return
    V.assume(V.forall(n, lambda i: V.exists(T, lambda t: d.known(t, i))))
    V.sums_pos("each asset has a known return", n, T, lambda i, t: d.v(V, t, i))
    kw, comp, f = options(V, d)
    span = V.real("span", lo=2, gen=lambda r: r.choice([2, 3, 10, 180]))
    r = V.call(mod(V).ema_historical_return, d.arg, span=span, **kw)
    out(V, r, d, lambda i: V.pow(1 + ema(V, d, span, i), f) - 1 if comp else ema(V, d, span, i) * f)


def capm_spec(V, d, mkt, f, comp, rf, T):
    """mkt: t -> market return"""
    mm = V.sum(T, mkt) / T
    var = V.sum(T, lambda t: (mkt(t) - mm) ** 2)
    M = V.pow(V.prod(T, lambda t: 1 + mkt(t)), f / (T * V.one())) - 1 if comp else mm * f

    def est(i):
        mi = d.sum(V, i) / T
        beta = V.sum(T, lambda t: (d.r(t, i) - mi) * (mkt(t) - mm)) / var
        return rf + beta * (M - rf)
    return est, var


def rate(V, kw):
    if V.bool("risk free given"):
        kw["risk_free_rate"] = V.real("rf", gen=lambda r: r.choice([0.0, 0.02, 0.05, -0.01]))
        return kw["risk_free_rate"]
    return 0


@unit("C23", funcs=[X + "capm_return"], weight=2)
def capm_equal_weighted(V):
    n, T = V.dim("n"), V.dim("T", lo=2)
    d = Data(V, n, T)
    kw, comp, f = options(V, d)
    rf = rate(V, kw)
    mkt = lambda t: V.sum(n, lambda j: d.r(t, j)) / n
    est, var = capm_spec(V, d, mkt, f, comp, rf, T)
    V.assume(V.gt(var, 0))
    r = V.call(mod(V).capm_return, d.arg, **kw)
    out(V, r, d, est, tol=1e-6)


@unit("C23", funcs=[X + "capm_return"], weight=2)
def capm_market(V):
    n, T = V.dim("n"), V.dim("T", lo=2)
    dates = V.datelabels(T)
    d = Data(V, n, T, framed=True)
    TT = T if d.returns_data else T + 1
    Mk = V.mat("market", TT, 1, gen=(grets if d.returns_data else gprices), owner="market")
    V.assume(V.forall(TT, lambda t: V.gt(V.el(Mk, t, 0), -1 if d.returns_data else 0)))

    def mkt(t):
        if d.returns_data:
            return V.el(Mk, t, 0)
        q = V.el(Mk, t + 1, 0) / V.el(Mk, t, 0)
        return V.log(q) if d.log else q - 1
    kw, comp, f = options(V, d)
    rf = rate(V, kw)
    est, var = capm_spec(V, d, mkt, f, comp, rf, T)
    V.assume(V.gt(var, 0))
    mf = V.frame(Mk, V.datelabels(TT), V.labels("index", 1))
    r = V.call(mod(V).capm_return, d.arg, market_prices=mf, **kw)
    out(V, r, d, est, tol=1e-6)


@unit("C23", funcs=[X + "capm_return"], weight=2)
def capm_market_dates(V):
    """the market's dates need not be the assets': the market return of a period is the one of the same date"""
    n, T, K = V.dim("n"), V.dim("T", lo=2), V.dim("K", lo=2)
    R = V.mat("R", T, n, gen=grets, owner="returns")
    m = V.vec("market", K, gen=lambda r, n: [r.gauss(0, 0.02) for _ in range(n)], owner="market")
    dates, labels = V.datelabels(T), V.labels("tick", n)
    md = V.sublabels("market dates", dates, T, K)
    F = V.frame(R, dates, labels)
    mf = V.frame(V.arr2(K, 1, lambda t, j: V.el(m, t)), md, V.labels("index", 1))
    ms = V.series(m, md)
    known = lambda t: V.has(ms, V.lab(dates, t))
    mkt = lambda t: V.at(ms, V.lab(dates, t))
    cnt = V.sum(T, lambda t: V.ind(known(t)))
    V.assume(V.ge(cnt, 2))
    over = lambda f: V.sum(T, lambda t: V.ite(known(t), lambda: f(t), 0))
    mm = over(mkt) / cnt
    var = over(lambda t: (mkt(t) - mm) ** 2)
    V.assume(V.gt(var, 0 if V.sym else 1e-9))
    comp = V.bool("compounding")
    f = V.real("frequency", lo=1, gen=lambda r: r.choice([1, 12, 52, 252]))
    M = V.pow(V.prod(T, lambda t: V.ite(known(t), lambda: 1 + mkt(t), 1)), f / cnt) - 1 if comp else mm * f
    rf = V.real("rf", gen=lambda r: 0.01)

    def est(i):
        mi = over(lambda t: V.el(R, t, i)) / cnt
        return rf + over(lambda t: (V.el(R, t, i) - mi) * (mkt(t) - mm)) / var * (M - rf)
    r = V.call(mod(V).capm_return, F, market_prices=mf, returns_data=True, compounding=comp, frequency=f, risk_free_rate=rf)
    V.ensure("returns", r.ok)
    if r.ok:
        V.ensure("labelled by asset", V.labels_eq(V.index(r.value), labels))
        V.vector("estimates", r.value, n, est, tol=1e-6)
    V.ensure("the data are unchanged", len(V.mutated()) == 0)


@unit("C23", funcs=[X + "return_model"])
def dispatcher(V):
    n, T = V.dim("n"), V.dim("T", lo=2)
    P = V.mat("P", T + 1, n, gen=gprices)
    V.assume(V.forall(T + 1, lambda t: V.forall(n, lambda i: V.gt(V.el(P, t, i), 0))))
    F = V.frame(P, V.datelabels(T + 1), V.labels("tick", n))
    m = mod(V)
    name = V.choice("method", ["mean_historical_return", "ema_historical_return", "capm_return", None, "bogus", "ema"])
    kw = {}
    if V.bool("keywords"):
        kw = {"frequency": V.real("frequency", lo=1), "compounding": False, "log_returns": True}
        if name == "ema_historical_return":
            kw["span"] = V.real("span", lo=2)
        if name == "capm_return":
            kw["risk_free_rate"] = V.real("rf")
    if name in ("bogus", "ema"):
        expect_raises(V, "other names are refused", V.call(m.return_model, F, method=name, **kw), "NotImplementedError")
        return
    r = V.call(m.return_model, F, method=name, **kw) if name else V.call(m.return_model, F, **kw)
    e = V.call(getattr(m, name or "mean_historical_return"), F, **kw)
    V.ensure("both return", r.ok and e.ok)
    if r.ok and e.ok:
        V.vector("the named estimator", r.value, n, lambda i: V.el(e.value, i))
