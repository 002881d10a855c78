"""C05: EfficientCDaR solves the documented drawdown-at-risk programme.

With the (uncompounded) drawdown path d_0 = 0, d_t >= max(d_{t-1} - r_t'w, 0), the risk
F(w, a) = a + 1/(T (1 - beta)) sum_t max(d_t - a, 0) is minimised, or bounded by the target."""
from vf.contract import unit
from .common import *
from .c02_meanvar import neutral_box, result
from . import c04_cvar as c4

M = "efficient_frontier.efficient_cdar.EfficientCDaR."
EF = "efficient_frontier.efficient_frontier.EfficientFrontier."
FU = [M + "__init__", M + "_validate_beta", M + "_add_cdar_constraints", EF + "_validate_returns",
      EF + "_make_weight_sum_constraint", "base_optimizer.BaseConvexOptimizer._solve_cvxpy_opt_problem"]


def setup(V, **k):
    return c4.setup(V, cls="EfficientCDaR", **k)


def vars_(V, rec, ef, T):
    a = rec.var_of_shape(exclude=(ef._w,))
    u = rec.var_of_shape(T + 1, exclude=(ef._w,))
    z = rec.var_of_shape(T, exclude=(ef._w,))
    ok = len(a) == 1 and len(u) == 1 and len(z) == 1
    V.ensure("one threshold, a drawdown path and one excess per period", ok)
    return (a[0], u[0], z[0]) if ok else None


def path_ok(V, n, T, R, x, a, u, z):
    ret = lambda t: V.sum(n, lambda i: V.el(R, t, i) * V.el(x, i))
    return V.and_(V.eq(V.el(u, 0), 0),
                  V.forall(T, lambda t: V.ge(V.el(u, t + 1), 0)),
                  V.forall(T, lambda t: V.ge(V.el(u, t + 1), V.el(u, t) - ret(t))),
                  V.forall(T, lambda t: V.ge(V.el(z, t), 0)),
                  V.forall(T, lambda t: V.ge(V.el(z, t), V.el(u, t + 1) - a)))


def cdar(V, T, beta, a, z):
    return a + V.sum(T, lambda t: V.el(z, t)) / (T * (1 - beta))


def points(V, n, T, R, x, a):
    if V.sym:
        return V.point("u", T + 1), V.point("z", T)
    rng = V.rng
    u, z = [0.0], []
    for t in range(T):
        u.append(max(u[-1] - sum(float(R[t, i]) * float(x[i]) for i in range(n)), 0.0) + rng.choice([0, 0, 0.005]))
        z.append(max(u[-1] - float(a), 0.0) + rng.choice([0, 0.01]))
    q = rng.random()
    if q < 0.08:
        u[0] = rng.choice([0.01, -0.01])
    elif q < 0.16:
        u[rng.randrange(1, T + 1)] -= 0.02
    elif q < 0.24:
        z[rng.randrange(T)] -= 0.03
    elif q < 0.3:
        k = rng.randrange(1, T + 1)
        u[k] = -0.01
    return V.np.array(u), V.np.array(z)


def check(V, rec, ef, n, T, R, beta, obj, feas, tot, L, U):
    vs = vars_(V, rec, ef, T)
    if vs is None:
        return
    av, uv, zv = vs
    for _ in V.samples(40):
        x = V.point("x", n, total=tot, lo=L, hi=U)
        a = V.point("a") if V.sym else V.point("a") * 0.03
        u, z = points(V, n, T, R, x, a)
        at = [(ef._w, x), (av, a), (uv, u), (zv, z)]
        V.scalar("objective", rec.obj(at), obj(x, a, z))
        V.ensure("feasible set", V.iff(rec.feasible(at), V.and_(path_ok(V, n, T, R, x, a, u, z), feas(x, a, z))))


@unit("C05", funcs=FU + [M + "min_cdar"], weight=2)
def min_cdar(V):
    s = setup(V)
    if s is None:
        return
    ef, n, T, mu, R, L, U, labels, beta = s
    neutral = V.bool("market_neutral")
    V.solve_modes("optimal", "infeasible")
    r = V.call(ef.min_cdar, market_neutral=neutral)
    ss = V.solves()
    V.ensure("exactly one problem is solved", len(ss) == 1)
    if len(ss) != 1:
        return
    box = neutral_box(V, n, L, U, neutral)
    check(V, ss[0], ef, n, T, R, beta, lambda x, a, z: cdar(V, T, beta, a, z), lambda x, a, z: box(x),
          0 if neutral else 1, L, U)
    result(V, r, ss[0], ef, labels, n)
    V.ensure("inputs unchanged", len(V.mutated()) == 0)


@unit("C05", funcs=FU + [M + "min_cdar"])
def min_cdar_without_returns(V):
    s = setup(V, none_mu=True, forms=("array",))
    if s is None:
        return
    ef, n, T, mu, R, L, U, labels, beta = s
    V.solve_modes("optimal")
    r = V.call(ef.min_cdar)
    ss = V.solves()
    V.ensure("exactly one problem is solved", len(ss) == 1)
    if len(ss) == 1:
        result(V, r, ss[0], ef, labels, n)


@unit("C05", funcs=FU + [M + "efficient_return"], weight=2)
def efficient_return(V):
    s = setup(V)
    if s is None:
        return
    ef, n, T, mu, R, L, U, labels, beta = s
    neutral = V.bool("market_neutral")
    t = V.real("target_return", lo=0, gen=lambda r: r.uniform(0.0, 0.12))
    V.solve_modes("optimal", "infeasible")
    r = V.call(ef.efficient_return, t, market_neutral=neutral)
    ss = V.solves()
    V.ensure("exactly one problem is solved", len(ss) == 1)
    if len(ss) != 1:
        return
    box = neutral_box(V, n, L, U, neutral)
    check(V, ss[0], ef, n, T, R, beta, lambda x, a, z: cdar(V, T, beta, a, z),
          lambda x, a, z: V.and_(V.ge(dot(V, n, x, mu), t), box(x)), 0 if neutral else 1, L, U)
    result(V, r, ss[0], ef, labels, n)


@unit("C05", funcs=FU + [M + "efficient_risk"], weight=2)
def efficient_risk(V):
    s = setup(V)
    if s is None:
        return
    ef, n, T, mu, R, L, U, labels, beta = s
    neutral = V.bool("market_neutral")
    t = V.real("target_cdar", lo=0, gen=lambda r: r.uniform(0.005, 0.1))
    V.solve_modes("optimal", "infeasible")
    r = V.call(ef.efficient_risk, t, market_neutral=neutral)
    ss = V.solves()
    V.ensure("exactly one problem is solved", len(ss) == 1)
    if len(ss) != 1:
        return
    box = neutral_box(V, n, L, U, neutral)
    check(V, ss[0], ef, n, T, R, beta, lambda x, a, z: -dot(V, n, x, mu),
          lambda x, a, z: V.and_(V.le(cdar(V, T, beta, a, z), t), box(x)), 0 if neutral else 1, L, U)
    result(V, r, ss[0], ef, labels, n)


@unit("C05", funcs=FU + [M + "min_cdar"])
def drawdowns_dominate(V):
    """every feasible path dominates the true drawdowns: induction step  D_t <= u_t  =>  D_{t+1} <= u_{t+1}"""
    s = setup(V, forms=("frame",))
    if s is None:
        return
    ef, n, T, mu, R, L, U, labels, beta = s
    V.solve_modes("optimal")
    V.call(ef.min_cdar)
    ss = V.solves()
    V.ensure("exactly one problem is solved", len(ss) == 1)
    if len(ss) != 1:
        return
    rec = ss[0]
    vs = vars_(V, rec, ef, T)
    if vs is None or V.conc:
        return
    av, uv, zv = vs
    x = V.point("x", n)
    a = V.point("a")
    u, z = points(V, n, T, R, x, a)
    D = V.vec("D", T + 1)
    V.suppose(rec.feasible([(ef._w, x), (av, a), (uv, u), (zv, z)]))
    # D: the true drawdown path
    V.suppose(V.eq(V.el(D, 0), 0))
    V.suppose(V.forall(T, lambda t: V.eq(V.el(D, t + 1), V.max(
        V.el(D, t) - V.sum(n, lambda i: V.el(R, t, i) * V.el(x, i)), 0))))
    V.ensure("base case", V.ge(V.el(u, 0), V.el(D, 0)))
    V.ensure("step", V.forall(T, lambda t: V.implies(V.ge(V.el(u, t), V.el(D, t)), V.ge(V.el(u, t + 1), V.el(D, t + 1)))))
    V.ensure("excess", V.forall(T, lambda t: V.implies(V.ge(V.el(u, t + 1), V.el(D, t + 1)),
                                                        V.ge(V.el(z, t), V.max(V.el(D, t + 1) - a, 0)))))


@unit("C05", funcs=[M + "_validate_beta", M + "__init__"])
def beta_domain(V):
    n, T = V.dim("n"), V.dim("T", lo=2)
    mu = V.vec("mu", n, gen=gmu)
    R = V.mat("R", T, n, gen=grets)
    b = V.real("beta", gen=lambda r: r.choice([-0.1, 0.0, 0.95, 1.0, 1.2, 95.0, 0.2]))
    C = V.mod("efficient_frontier").EfficientCDaR
    r = V.call(C, mu, R, beta=b)
    if V.split(V.and_(V.le(0, b), V.lt(b, 1))):
        V.ensure("0 <= beta < 1 is accepted", r.ok)
        if V.split(V.le(b, V.q("1/5"))):
            V.ensure("a beta that looks like a quantile is warned about", V.warned("UserWarning"))
    else:
        expect_raises(V, "any other beta raises ValueError", r, "ValueError")


@unit("C05", funcs=[M + "min_volatility", M + "max_sharpe", M + "max_quadratic_utility", M + "set_weights"])
def refused_methods(V):
    s = setup(V, forms=("frame",))
    if s is None:
        return
    ef = s[0]
    for nm, args in (("min_volatility", ()), ("max_sharpe", ()), ("max_quadratic_utility", ()), ("set_weights", ({},))):
        expect_raises(V, nm + " raises NotImplementedError", V.call(getattr(ef, nm), *args), "NotImplementedError")
    V.ensure("nothing is solved", len(V.solves()) == 0)
