"""C15: Black-Litterman inputs."""
from vf.contract import unit
from .common import *
from .c14_posterior import gP

B = "black_litterman.BlackLittermanModel."
M = "black_litterman."


def cls(V):
    return V.mod("black_litterman").BlackLittermanModel


def universe(V, framed=None):
    n = V.dim("n")
    S = V.symmat("S", n, gen=gcov, owner="cov_matrix")
    framed = V.bool("framed") if framed is None else framed
    labels = V.labels("tick", n) if framed else V.range_labels(n)
    return n, S, labels, framed, V.frame(S, labels, labels) if framed else S


@unit("C15", funcs=[B + "_parse_views", B + "__init__"])
def absolute_views(V):
    """row k of P is the unit row of the k-th view's asset and Q_k its value, in whatever order the views come"""
    n, S, labels, framed, cov = universe(V, True)
    k = V.dim("K", lo=1)
    names = V.sublabels("views", labels, n, k)
    q = V.vec("view", k, gen=gmu, owner="views")
    form = V.choice("form", ["dict", "series"])
    views = V.mapping(names, q, py="float") if form == "dict" else V.series(q, names)
    known = V.forall(k, lambda a: V.exists(n, lambda i: V.lab_eq(V.lab(labels, i), V.lab(names, a))))
    r = V.call(cls(V), cov, absolute_views=views)
    if not V.split(known):
        expect_raises(V, "a view on an unknown asset is refused", r, "ValueError")
        return
    V.ensure("accepted", r.ok)
    if not r.ok:
        return
    m = r.value
    V.matrix("Q", m.Q, k, 1, lambda a, j: V.el(q, a))
    V.matrix("P", m.P, k, n, lambda a, i: V.ind(V.lab_eq(V.lab(labels, i), V.lab(names, a))))
    V.ensure("the views are unchanged", len(V.mutated()) == 0)


@unit("C15", funcs=[B + "_parse_views", B + "_set_Q_P"])
def view_forms(V):
    n, S, labels, framed, cov = universe(V)
    k = V.dim("K")
    q = V.vec("Q", k, gen=gmu, owner="Q")
    P = V.mat("P", k, n, gen=gP, owner="P")
    how = V.choice("inputs", ["absolute list", "array", "column", "frame", "series", "list Q", "no Q", "list P", "no P"])
    C = cls(V)
    vl = V.labels("view", k)
    if how == "absolute list":
        return expect_raises(V, "views neither dict nor series are refused", V.call(C, cov, absolute_views=V.aslist(q)), "TypeError")
    if how == "list Q":
        return expect_raises(V, "Q neither array nor pandas is refused", V.call(C, cov, Q=V.aslist(q), P=P), "TypeError")
    if how == "no Q":
        return expect_raises(V, "no views are refused", V.call(C, cov, P=P), "TypeError")
    if how == "list P":
        V.assume(V.not_(V.eq(k, n)))
        return expect_raises(V, "P neither array nor frame is refused", V.call(C, cov, Q=q, P="P"), "TypeError")
    if how == "no P":
        r = V.call(C, cov, Q=q)
        if not V.split(V.eq(k, n)):
            return expect_raises(V, "P may only be left out with a view on every asset", r, "TypeError")
        V.ensure("accepted", r.ok)
        if r.ok:
            V.matrix("P is the identity", r.value.P, n, n, lambda a, i: V.ite(V.eq(a, i), 1, 0))
        return
    Q2 = V.arr2(k, 1, lambda a, j: V.el(q, a))
    Q = {"array": q, "column": Q2, "frame": V.frame(Q2, vl, V.labels("col", 1)), "series": V.series(q, vl)}[how]
    r = V.call(C, cov, Q=Q, P=V.frame(P, vl, labels) if how in ("frame", "series") else P)
    V.ensure("accepted", r.ok)
    if r.ok:
        V.matrix("Q", r.value.Q, k, 1, lambda a, j: V.el(q, a))
        V.matrix("P", r.value.P, k, n, lambda a, i: V.el(P, a, i))
        V.ensure("the inputs are unchanged", len(V.mutated()) == 0)


@unit("C15", funcs=[B + "_set_pi", M + "market_implied_prior_returns"])
def prior(V):
    n, S, labels, framed, cov = universe(V)
    k = V.dim("K")
    Q, P = V.vec("Q", k, gen=gmu), V.mat("P", k, n, gen=gP)
    v = V.vec("pi", n, gen=gmu, owner="pi")
    how = V.choice("prior", ["none", "series", "array", "column", "frame", "equal", "market", "market without caps", "other", "list"])
    kw = dict(Q=Q, P=P)
    d = V.real("delta", lo=0.1, gen=lambda r: r.choice([1.0, 2.5]))
    col = V.arr2(n, 1, lambda i, j: V.el(v, i))
    f = lambda i: V.el(v, i)
    if how == "none":
        f = lambda i: 0
    elif how in ("series", "array", "column", "frame"):
        kw["pi"] = {"series": V.series(v, labels), "array": v, "column": col, "frame": V.frame(col, labels, V.labels("col", 1))}[how]
    elif how == "equal":
        kw["pi"] = "equal"
        f = lambda i: V.one() / n
    elif how == "market":
        caps = V.vec("cap", n, lo=0.001, gen=lambda r, n: [r.uniform(1, 100) for _ in range(n)], owner="market_caps")
        tot = V.sum(n, lambda i: V.el(caps, i))
        V.assume(V.gt(tot, 0))
        kw.update(pi="market", market_caps=V.series(caps, labels), risk_aversion=d)
        rf = 0
        if V.bool("risk free given"):
            rf = kw["risk_free_rate"] = V.real("rf", gen=lambda r: 0.02)
        f = lambda i: d * V.sum(n, lambda j: V.el(S, i, j) * V.el(caps, j)) / tot + rf
    elif how == "market without caps":
        return expect_raises(V, "market prior needs the market caps", V.call(cls(V), cov, pi="market", **kw), "ValueError")
    elif how == "other":
        return expect_raises(V, "unknown priors are refused", V.call(cls(V), cov, pi="implied", **kw), "TypeError")
    else:
        return expect_raises(V, "a list is refused", V.call(cls(V), cov, pi=V.aslist(v), **kw), "TypeError")
    r = V.call(cls(V), cov, **kw)
    V.ensure("accepted", r.ok)
    if r.ok:
        V.matrix("prior", r.value.pi, n, 1, lambda i, j: f(i), tol=1e-8)
        V.ensure("warns exactly when there is no prior", V.iff(how == "none", V.warned("UserWarning")))
        V.ensure("the inputs are unchanged", len(V.mutated()) == 0)


@unit("C15", funcs=[M + "market_implied_prior_returns"])
def implied_prior(V):
    """market caps are matched to the covariance matrix by name, whatever their order"""
    n, S, labels, framed, cov = universe(V, True)
    order = V.sublabels("caps", labels, n, n, perm=True)
    caps = V.vec("cap", n, lo=0.001, gen=lambda r, n: [r.uniform(1, 100) for _ in range(n)], owner="market_caps")
    d = V.real("delta", gen=lambda r: r.choice([1.0, 2.5]))
    rf = V.real("rf", gen=lambda r: r.choice([0.0, 0.02]))
    tot = V.sum(n, lambda j: V.el(caps, j))
    V.assume(V.gt(tot, 0))
    c = V.mapping(order, caps, py="float") if V.bool("dict") else V.series(caps, order)
    by = V.series(caps, order)
    given = V.bool("risk free given")
    r = V.call(V.mod("black_litterman").market_implied_prior_returns, c, d, cov, *((rf,) if given else ()))
    V.ensure("returns", r.ok)
    if r.ok:
        V.ensure("labelled by asset", V.labels_eq(V.index(r.value), labels))
        V.vector("implied prior", r.value, n, lambda i: d * V.sum(n, lambda j: V.el(S, i, j) * V.at(by, V.lab(labels, j))) / tot +
                 (rf if given else 0), tol=1e-8)
        V.ensure("the inputs are unchanged", len(V.mutated()) == 0)
        V.ensure("no warning for a frame", not V.warned("RuntimeWarning"))


@unit("C15", funcs=[M + "market_implied_risk_aversion"])
def risk_aversion(V):
    """(R - rf) / sigma^2 of the market's annualised returns"""
    T = V.dim("T", lo=2)
    p = V.mat("market", T + 1, 1, gen=gprices, owner="market_prices")
    V.assume(V.forall(T + 1, lambda t: V.gt(V.el(p, t, 0), 0)))
    dates = V.datelabels(T + 1)
    how = V.choice("form", ["series", "frame", "array"])
    x = V.series(V.arr(T + 1, lambda t: V.el(p, t, 0)), dates) if how == "series" else V.frame(p, dates, V.labels("index", 1)) if how == "frame" else p
    kw, f, rf = {}, 252, 0
    if V.bool("options"):
        f = kw["frequency"] = V.real("frequency", lo=1, gen=lambda r: r.choice([12, 252]))
        rf = kw["risk_free_rate"] = V.real("rf", gen=lambda r: 0.02)
    r = V.call(V.mod("black_litterman").market_implied_risk_aversion, x, **kw)
    if how == "array":
        return expect_raises(V, "other forms are refused", r, "TypeError")
    g = lambda t: V.el(p, t + 1, 0) / V.el(p, t, 0) - 1
    m = V.sum(T, g) / T
    var = V.sum(T, lambda t: (g(t) - m) ** 2) / (T - 1)
    V.assume(V.gt(var, 0 if V.sym else 1e-12))
    V.ensure("returns", r.ok)
    if r.ok:
        V.scalar("risk aversion", r.value, (m * f - rf) / (var * f), tol=1e-7)
        V.ensure("the prices are unchanged", len(V.mutated()) == 0)


@unit("C15", funcs=[B + "_set_omega", B + "default_omega", B + "idzorek_method"])
def uncertainty(V):
    n, S, labels, framed, cov = universe(V)
    k = V.dim("K")
    Q, P = V.vec("Q", k, gen=gmu), V.mat("P", k, n, gen=gP)
    tau = V.real("tau", lo=0.001, hi=1, gen=lambda r: r.choice([0.05, 0.5, 1.0]))
    O = V.mat("Omega", k, k, gen=lambda r, n, m: gcov(r, n), owner="omega")
    c = V.vec("confidence", k, gen=lambda r, n: [r.choice([0, 1, 0.3, 0.75, r.random(), r.choice([-0.1, 1.2]) if r.random() < 0.1 else 0.5]) for _ in range(n)],
              owner="view_confidences")
    how = V.choice("omega", ["array", "frame", "none", "default", "idzorek", "idzorek without", "other", "list"])
    kw = dict(Q=Q, P=P, tau=tau, pi="equal")
    var = lambda a: V.sum(n, lambda i: V.sum(n, lambda j: V.el(P, a, i) * V.el(S, i, j) * V.el(P, a, j)))
    vl = V.labels("view", k)
    C = cls(V)
    if how == "idzorek without":
        return expect_raises(V, "Idzorek's method needs confidences", V.call(C, cov, omega="idzorek", **kw), "ValueError")
    if how == "other":
        return expect_raises(V, "unknown methods are refused", V.call(C, cov, omega="bayes", **kw), "TypeError")
    if how == "list":
        return expect_raises(V, "a number is refused", V.call(C, cov, omega=0.1, **kw), "TypeError")
    if how == "idzorek":
        form = V.choice("confidences", ["array", "column", "list", "series"])
        col = V.arr2(k, 1, lambda a, j: V.el(c, a))
        conf = {"array": c, "column": col, "list": V.aslist(c), "series": V.series(c, vl)}[form]
        r = V.call(C, cov, omega="idzorek", view_confidences=conf, **kw)
        if not V.split(V.forall(k, lambda a: V.and_(V.ge(V.el(c, a), 0), V.le(V.el(c, a), 1)))):
            return expect_raises(V, "confidences outside [0, 1] are refused", r, "ValueError")
        f = lambda a, b: V.ite(V.eq(a, b), lambda: V.ite(V.eq(V.el(c, a), 0), 1000000, lambda: tau * (1 - V.el(c, a)) / V.el(c, a) * var(a)), 0)
    elif how in ("array", "frame"):
        r = V.call(C, cov, omega=O if how == "array" else V.frame(O, vl, vl), **kw)
        f = lambda a, b: V.el(O, a, b)
    else:
        r = V.call(C, cov, **kw, **({} if how == "none" else {"omega": "default"}))
        f = lambda a, b: V.ite(V.eq(a, b), lambda: tau * var(a), 0)
    V.ensure("accepted", r.ok)
    if r.ok:
        V.matrix("uncertainty of the views", r.value.omega, k, k, f, tol=1e-8)
        V.ensure("the inputs are unchanged", len(V.mutated()) == 0)
        if how == "idzorek":
            V.ensure("no uncertainty for full confidence", V.forall(k, lambda a: V.implies(
                V.eq(V.el(c, a), 1), V.eq(V.el(r.value.omega, a, a), 0))))


@unit("C15", funcs=[B + "idzorek_method"])
def idzorek_monotone(V):
    """the more confident, the smaller the variance of a view"""
    n, S, labels, framed, cov = universe(V, False)
    P = V.mat("P", 2, n, gen=gP)
    p = V.vec("p", n, gen=gmu)
    P = V.arr2(2, n, lambda a, i: V.el(p, i))
    v = quad(V, n, p, S)
    V.assume(V.ge(v, 0))
    tau = V.real("tau", lo=0.001, hi=1, gen=lambda r: r.choice([0.05, 0.5, 1.0]))
    c1, c2 = V.real("c1", lo=0, hi=1, gen=lambda r: r.random()), V.real("c2", lo=0, hi=1, gen=lambda r: r.random())
    V.assume(V.and_(V.gt(c1, 0), V.le(c1, c2)))
    c = V.arr(2, lambda a: V.ite(V.eq(a, 0), c1, c2))
    r = V.call(cls(V), cov, pi="equal", Q=V.arr(2, lambda a: 0 * V.one()), P=P, tau=tau, omega="idzorek", view_confidences=c)
    V.ensure("accepted", r.ok)
    if r.ok:
        V.ensure("variance falls with confidence", V.ge(V.el(r.value.omega, 0, 0), V.el(r.value.omega, 1, 1)))


@unit("C15", funcs=[B + "_set_tau", B + "_set_risk_aversion"])
def ranges(V):
    n, S, labels, framed, cov = universe(V)
    k = V.dim("K")
    Q, P = V.vec("Q", k, gen=gmu), V.mat("P", k, n, gen=gP)
    tau = V.real("tau", gen=lambda r: r.choice([0.0, -0.1, 0.05, 1.0, 1.01, r.uniform(-1, 2)]))
    d = V.real("delta", gen=lambda r: r.choice([0.0, -1.0, 1.0, r.uniform(-1, 2)]))
    r = V.call(cls(V), cov, pi="equal", Q=Q, P=P, tau=tau, risk_aversion=d)
    if V.split(V.and_(V.gt(tau, 0), V.le(tau, 1), V.gt(d, 0))):
        V.ensure("accepted", r.ok)
        if r.ok:
            V.ensure("tau kept", V.eq(r.value.tau, tau))
            V.ensure("risk aversion kept", V.eq(r.value.risk_aversion, d))
    else:
        expect_raises(V, "tau outside (0, 1] or risk aversion not positive is refused", r, "ValueError")


@unit("C15", funcs=[B + "__init__", B + "_check_attribute_dimensions", B + "_set_omega"])
def shapes(V):
    """inputs of inconsistent shape are refused"""
    n, S, labels, framed, cov = universe(V)
    k = V.dim("K")
    a, b = V.dim("a"), V.dim("b")
    which = V.choice("wrong", ["pi", "P rows", "P columns", "omega", "cov", "confidences", "confidence list"])
    Q, P, pi = V.vec("Q", k, gen=gmu), V.mat("P", k, n, gen=gP), V.vec("pi", n, gen=gmu)
    kw = dict(pi=pi, Q=Q, P=P)
    bad = V.and_(V.not_(V.eq(a, n)))
    if which == "pi":
        kw["pi"] = V.vec("pi2", a, gen=gmu)
    elif which == "P rows":
        kw["P"] = V.mat("P2", a, n, gen=gP)
        bad = V.not_(V.eq(a, k))
    elif which == "P columns":
        kw["P"] = V.mat("P2", k, a, gen=gP)
    elif which == "omega":
        kw["omega"] = V.mat("omega", a, b, gen=gP)
        bad = V.or_(V.not_(V.eq(a, k)), V.not_(V.eq(b, k)))
    elif which == "cov":
        if framed:
            return
        cov = V.mat("cov2", n, a, gen=gP)
    else:
        c = V.vec("confidence", a, lo=0.1, hi=1, gen=lambda r, n: [0.5] * n)
        kw.update(omega="idzorek", view_confidences=V.aslist(c) if which == "confidence list" else c)
        bad = V.not_(V.eq(a, k))
    V.assume(bad)
    expect_raises(V, "inconsistent shapes are refused", V.call(cls(V), cov, **kw), "AssertionError", "ValueError")
