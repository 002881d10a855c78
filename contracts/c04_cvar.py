"""C04: EfficientCVaR solves the Rockafellar-Uryasev programme.

For a portfolio w and threshold a,  F(w, a) = a + 1/(T (1 - beta)) sum_t max(-r_t'w - a, 0)  is minimised (min_cvar,
efficient_return) or bounded by the target (efficient_risk); the constraints on w are budget, bounds and target."""
from vf.contract import unit
from .common import *
from .c02_meanvar import neutral_box, result

M = "efficient_frontier.efficient_cvar.EfficientCVaR."
FU = [M + "__init__", M + "_validate_beta", "efficient_frontier.efficient_frontier.EfficientFrontier._validate_returns",
      "efficient_frontier.efficient_frontier.EfficientFrontier._make_weight_sum_constraint",
      "base_optimizer.BaseConvexOptimizer._solve_cvxpy_opt_problem"]


def setup(V, cls="EfficientCVaR", none_mu=False, short=None, beta=True, forms=("frame", "array"), gret=None):
    n = V.dim("n", lo=1)
    T = V.dim("T", lo=2)
    mu = V.vec("mu", n, gen=lambda r, n: [r.uniform(0.01, 0.2) for _ in range(n)])
    R = V.mat("R", T, n, gen=gret or grets, owner="returns")
    if short is False:
        lo = [0]
    else:
        lo = [0, 0, -0.6]
    L = V.vec("lower", n, hi=0, gen=lambda r, n: [r.choice(lo) for _ in range(n)])
    U = V.vec("upper", n, lo=0, gen=lambda r, n: [1 for _ in range(n)])
    form = V.choice("inputs", list(forms))
    labels = V.labels("tick", n)
    if form == "frame":
        m, Rf = V.series(mu, labels), V.frame(R, V.datelabels(T), labels)
    else:
        m, Rf, labels = mu, R, V.range_labels(n)
    C = getattr(V.mod("efficient_frontier"), cls)
    k = {}
    b = None
    if beta:
        b = V.real("beta", lo=0, hi=1, gen=lambda r: r.choice([0.95, 0.9, 0.5, 0.8, 0.1, 0.0]))
        V.require(V.lt(b, 1))
        k["beta"] = b
    r = V.call(C, None if none_mu else m, Rf, weight_bounds=(L, U), **k)
    V.ensure("constructor accepts the inputs", r.ok)
    if not r.ok:
        return None
    ef = r.value
    return ef, n, T, mu, R, L, U, labels, b


def vars_(V, rec, ef, T):
    """(alpha, u)"""
    a = rec.var_of_shape(exclude=(ef._w,))
    u = rec.var_of_shape(T, exclude=(ef._w,))
    V.ensure("one threshold and one shortfall variable per period", len(a) == 1 and len(u) == 1)
    return (a[0], u[0]) if len(a) == 1 and len(u) == 1 else (None, None)


def shortfalls(V, n, T, R, x, a, u):
    return V.and_(V.forall(T, lambda t: V.ge(V.el(u, t), 0)),
                  V.forall(T, lambda t: V.ge(V.el(u, t), -V.sum(n, lambda i: V.el(R, t, i) * V.el(x, i)) - a)))


def cvar(V, T, beta, a, u):
    return a + V.sum(T, lambda t: V.el(u, t)) / (T * (1 - beta))


def upoint(V, n, T, R, x, a):
    """sample shortfalls, mostly at or above the true ones"""
    if V.sym:
        return V.point("u", T)
    d = [max(-sum(float(R[t, i]) * float(x[i]) for i in range(n)) - float(a), 0) for t in range(T)]
    q = V.rng.random()
    if q > 0.2:
        d = [v + V.rng.choice([0, 0.01]) for v in d]
    elif q > 0.1:
        d[V.rng.randrange(T)] -= 0.02
    return V.np.array(d)


def check(V, rec, ef, n, T, R, beta, obj, feas, tot, L, U):
    av, uv = vars_(V, rec, ef, T)
    if av is None:
        return
    for _ in V.samples(25):
        x = V.point("x", n, total=tot, lo=L, hi=U)
        a = V.point("a") if V.sym else V.point("a") * 0.03
        u = upoint(V, n, T, R, x, a)
        at = [(ef._w, x), (av, a), (uv, u)]
        V.scalar("objective", rec.obj(at), obj(x, a, u))
        V.ensure("feasible set", V.iff(rec.feasible(at), V.and_(shortfalls(V, n, T, R, x, a, u), feas(x, a, u))))


@unit("C04", funcs=FU + [M + "min_cvar"])
def min_cvar(V):
    s = setup(V)
    if s is None:
        return
    ef, n, T, mu, R, L, U, labels, beta = s
    neutral = V.bool("market_neutral")
    V.solve_modes("optimal", "infeasible")
    r = V.call(ef.min_cvar, market_neutral=neutral)
    ss = V.solves()
    V.ensure("exactly one problem is solved", len(ss) == 1)
    if len(ss) != 1:
        return
    box = neutral_box(V, n, L, U, neutral)
    check(V, ss[0], ef, n, T, R, beta, lambda x, a, u: cvar(V, T, beta, a, u), lambda x, a, u: box(x),
          0 if neutral else 1, L, U)
    result(V, r, ss[0], ef, labels, n)
    V.ensure("inputs unchanged", len(V.mutated()) == 0)


@unit("C04", funcs=FU + [M + "min_cvar"])
def min_cvar_without_returns(V):
    s = setup(V, none_mu=True, forms=("array",))
    if s is None:
        return
    ef, n, T, mu, R, L, U, labels, beta = s
    V.solve_modes("optimal")
    r = V.call(ef.min_cvar)
    ss = V.solves()
    V.ensure("exactly one problem is solved", len(ss) == 1)
    if len(ss) == 1:
        result(V, r, ss[0], ef, labels, n)


@unit("C04", funcs=FU + [M + "efficient_return"])
def efficient_return(V):
    s = setup(V)
    if s is None:
        return
    ef, n, T, mu, R, L, U, labels, beta = s
    neutral = V.bool("market_neutral")
    t = V.real("target_return", gen=lambda r: r.uniform(0.0, 0.12))
    V.solve_modes("optimal", "infeasible")
    r = V.call(ef.efficient_return, t, market_neutral=neutral)
    ss = V.solves()
    V.ensure("exactly one problem is solved", len(ss) == 1)
    if len(ss) != 1:
        return
    box = neutral_box(V, n, L, U, neutral)
    check(V, ss[0], ef, n, T, R, beta, lambda x, a, u: cvar(V, T, beta, a, u),
          lambda x, a, u: V.and_(V.ge(dot(V, n, x, mu), t), box(x)), 0 if neutral else 1, L, U)
    result(V, r, ss[0], ef, labels, n)


@unit("C04", funcs=FU + [M + "efficient_risk"])
def efficient_risk(V):
    s = setup(V)
    if s is None:
        return
    ef, n, T, mu, R, L, U, labels, beta = s
    neutral = V.bool("market_neutral")
    t = V.real("target_cvar", lo=0, gen=lambda r: r.uniform(0.005, 0.06))
    V.solve_modes("optimal", "infeasible")
    r = V.call(ef.efficient_risk, t, market_neutral=neutral)
    ss = V.solves()
    V.ensure("exactly one problem is solved", len(ss) == 1)
    if len(ss) != 1:
        return
    box = neutral_box(V, n, L, U, neutral)
    check(V, ss[0], ef, n, T, R, beta, lambda x, a, u: -dot(V, n, x, mu),
          lambda x, a, u: V.and_(V.le(cvar(V, T, beta, a, u), t), box(x)), 0 if neutral else 1, L, U)
    result(V, r, ss[0], ef, labels, n)


@unit("C04", funcs=FU + [M + "min_cvar"])
def auxiliary_variables_are_exact(V):
    """eliminating u gives F(w, a): the shortfalls max(-r'w - a, 0) are feasible, and every feasible u dominates them"""
    s = setup(V, forms=("frame",))
    if s is None:
        return
    ef, n, T, mu, R, L, U, labels, beta = s
    V.solve_modes("optimal")
    V.call(ef.min_cvar)
    ss = V.solves()
    V.ensure("exactly one problem is solved", len(ss) == 1)
    if len(ss) != 1:
        return
    rec = ss[0]
    av, uv = vars_(V, rec, ef, T)
    if av is None:
        return
    for _ in V.samples(10):
        x = V.point("x", n, total=1, lo=L, hi=U)
        a = V.point("a") if V.sym else V.point("a") * 0.03
        if not V.suppose(V.and_(V.eq(total(V, n, x), 1), boxed(V, n, x, L, U))):
            continue
        loss = lambda t: V.max(-V.sum(n, lambda i: V.el(R, t, i) * V.el(x, i)) - a, 0)
        us = V.arr(T, loss)
        at = [(ef._w, x), (av, a), (uv, us)]
        V.ensure("true shortfalls are feasible", rec.feasible(at))
        V.scalar("and attain F(w, a)", rec.obj(at), a + V.sum(T, loss) / (T * (1 - beta)))
        u2 = upoint(V, n, T, R, x, a)
        if V.suppose(rec.feasible([(ef._w, x), (av, a), (uv, u2)])):
            V.ensure("every feasible u dominates them", V.forall(T, lambda t: V.ge(V.el(u2, t), loss(t) - (0 if V.sym else 1e-7))))


@unit("C04", funcs=[M + "_validate_beta", M + "__init__"])
def beta_domain(V):
    n, T = V.dim("n"), V.dim("T", lo=2)
    mu = V.vec("mu", n, gen=gmu)
    R = V.mat("R", T, n, gen=grets)
    b = V.real("beta", gen=lambda r: r.choice([-0.1, 0.0, 0.95, 1.0, 1.2, 95.0, 0.2]))
    C = V.mod("efficient_frontier").EfficientCVaR
    r = V.call(C, mu, R, beta=b)
    if V.split(V.and_(V.le(0, b), V.lt(b, 1))):
        V.ensure("0 <= beta < 1 is accepted", r.ok)
        if V.split(V.le(b, V.q("1/5"))):
            V.ensure("a beta that looks like a quantile is warned about", V.warned("UserWarning"))
    else:
        expect_raises(V, "any other beta raises ValueError", r, "ValueError")


@unit("C04", funcs=[M + "min_volatility", M + "max_sharpe", M + "max_quadratic_utility", M + "set_weights"])
def refused_methods(V):
    s = setup(V, forms=("frame",))
    if s is None:
        return
    ef = s[0]
    for nm, args in (("min_volatility", ()), ("max_sharpe", ()), ("max_quadratic_utility", ()), ("set_weights", ({},))):
        expect_raises(V, nm + " raises NotImplementedError", V.call(getattr(ef, nm), *args), "NotImplementedError")
    V.ensure("nothing is solved", len(V.solves()) == 0)
