"""C03: max_sharpe's change of variables is exact.

For every portfolio x with sum 1 and every k > 0, the point (y = k x, k) is feasible for the problem given to the
solver iff x satisfies every bound and user constraint and k (mu - rf)'x = 1; its objective is k^2 x'Sx, i.e.
1 / Sharpe(x)^2 on the feasible set.  The returned weights are y / k."""
from vf.contract import unit
from .common import *

E = "efficient_frontier.efficient_frontier.EfficientFrontier."
FU = [E + "max_sharpe", "base_optimizer.BaseConvexOptimizer._solve_cvxpy_opt_problem",
      "base_optimizer.BaseOptimizer._make_output_weights"]


def setup(V, big=True):
    n = V.dim("n", lo=1)
    mu = V.vec("mu", n, gen=lambda r, n: [r.uniform(-0.05, 0.3) for _ in range(n)])
    S = V.symmat("S", n, gen=gcov)
    rf = V.real("rf", gen=lambda r: r.choice([0.0, 0.02, 0.01]))
    L = V.vec("lower", n, hi=0, gen=lambda r, n: [r.choice([0, -0.1, -0.6]) for _ in range(n)])
    U = V.vec("upper", n, lo=0, gen=lambda r, n: [r.choice([1, 0.8, 0.6]) for _ in range(n)])
    labels = V.labels("tick", n)
    EF = V.mod("efficient_frontier").EfficientFrontier
    ef = EF(V.series(mu, labels), V.frame(S, labels, labels), weight_bounds=(L, U))
    return ef, n, mu, S, rf, L, U, labels


def check(V, ef, n, mu, S, rf, L, U, labels, user=None, extra=None):
    V.require(V.exists(n, lambda i: V.gt(V.el(mu, i), rf)))
    V.solve_modes("optimal", "infeasible")
    r = V.call(ef.max_sharpe, risk_free_rate=rf)
    ss = V.solves()
    V.ensure("one problem is solved", len(ss) == 1)
    if len(ss) != 1:
        return
    rec = ss[0]
    ks = [v for v in rec.vars if v is not ef._w]
    V.ensure("weights and one scale factor", len(ks) == 1)
    if len(ks) != 1:
        return
    kv = ks[0]
    for _ in V.samples(30):
        x = V.point("x", n, total=1, lo=L, hi=U)
        k = V.point("k", nonneg=True)
        if V.conc:
            e = float(dot(V, n, x, mu) - rf)
            k = 1 / e if e > 1e-3 and V.rng.random() < 0.8 else k + 0.01
        if not V.suppose(V.and_(V.gt(k, 0), V.eq(total(V, n, x), 1))):
            continue
        y = V.arr(n, lambda i: k * V.el(x, i))
        at = [(ef._w, y), (kv, k)]
        cond = V.and_(boxed(V, n, x, L, U), V.eq(k * (dot(V, n, x, mu) - rf), 1))
        if user is not None:
            cond = V.and_(cond, user(x))
        V.ensure("feasible set is the image of the feasible portfolios", V.iff(rec.feasible(at), cond))
        o = k * k * quad(V, n, x, S)
        if extra is not None:
            o = o + extra(y)
        V.scalar("objective is the scaled variance", rec.obj(at), o)
    if rec.status in ("optimal", "optimal_inaccurate"):
        V.ensure("returns", r.ok)
        if r.ok:
            y, k = rec.value(ef._w), rec.value(kv)
            kk = V.el(k) if V.sym else float(k)
            if V.sym:
                V.require(V.gt(kk, 0))
            V.wdict("weights are y / k", r.value, labels, lambda i: V.el(y, i) / kk, tol=1e-9)
            V.vector("ef.weights is y / k", ef.weights, n, lambda i: V.el(y, i) / kk, tol=1e-9)
    elif rec.status is not None:
        V.ensure("OptimizationError unless solved", (not r.ok) and r.raised("OptimizationError"))


@unit("C03", funcs=FU)
def bounds_only(V):
    check(V, *setup(V))


@unit("C03", funcs=FU)
def scale_is_positive(V):
    """every feasible point of the transformed problem has k > 0, so the inverse transformation is defined"""
    ef, n, mu, S, rf, L, U, labels = setup(V)
    V.require(V.exists(n, lambda i: V.gt(V.el(mu, i), rf)))
    V.solve_modes("optimal")
    V.call(ef.max_sharpe, risk_free_rate=rf)
    V.ensure("one problem is solved", len(V.solves()) == 1)
    rec = V.solves()[0]
    kv = [v for v in rec.vars if v is not ef._w][0]
    y = V.point("y", n, total=0)
    k = V.point("k")
    if V.conc:
        return
    V.require(rec.feasible([(ef._w, y), (kv, k)]))
    V.ensure("k is not negative", V.ge(k, 0))
    if V.split(V.eq(k, 0)):
        V.ensure("k == 0 forces y == 0", V.forall(n, lambda i: V.eq(V.el(y, i), 0)))


FORMS = {
    "A w <= b": (lambda A, b: lambda w: A @ w <= b, "le"),
    "A w >= b": (lambda A, b: lambda w: A @ w >= b, "ge"),
    "b >= A w": (lambda A, b: lambda w: b >= A @ w, "le"),
    "A w == b": (lambda A, b: lambda w: A @ w == b, "eq"),
    "A w - b <= 0": (lambda A, b: lambda w: A @ w - b <= 0, "le"),
    "A w - b >= 0": (lambda A, b: lambda w: A @ w - b >= 0, "ge"),
    "A w - b == 0": (lambda A, b: lambda w: A @ w - b == 0, "eq"),
}


@unit("C03", funcs=FU, weight=5, limit=400)
def linear_constraints(V):
    """user constraints, whichever side the constant is written on"""
    ef, n, mu, S, rf, L, U, labels = setup(V)
    m = V.dim("m", lo=1, hi=3) if V.conc else V.dim("m", lo=1)
    A = V.mat("A", m, n, gen=lambda r, m, n: [[r.choice([0, 1, 1, -1]) for _ in range(n)] for _ in range(m)])
    b = V.vec("b", m, gen=lambda r, m: [r.uniform(0.05, 0.5) for _ in range(m)])
    form = V.choice("form", list(FORMS))
    mk, kind = FORMS[form]
    ef.add_constraint(mk(A, b))

    def user(x):
        row = lambda q: V.sum(n, lambda i: V.el(A, q, i) * V.el(x, i))
        op = {"le": V.le, "ge": V.ge, "eq": V.eq}[kind]
        return V.forall(m, lambda q: op(row(q), V.el(b, q)))
    check(V, ef, n, mu, S, rf, L, U, labels, user)


@unit("C03", funcs=FU, weight=5, limit=400)
def constraints_on_both_sides(V):
    """weights on both sides of a user constraint"""
    ef, n, mu, S, rf, L, U, labels = setup(V)
    a = V.vec("a", n, gen=lambda r, n: [r.choice([0, 1, 1, -1]) for _ in range(n)])
    c = V.vec("c", n, gen=lambda r, n: [r.choice([0, 1, 1, -1]) for _ in range(n)])
    d = V.real("d", gen=lambda r: r.choice([0.0, 0.1, 0.3]))
    form = V.choice("form", ["le", "ge", "eq"])
    op = {"le": V.le, "ge": V.ge, "eq": V.eq}[form]
    f = {"le": lambda w: a @ w <= c @ w + d, "ge": lambda w: a @ w >= c @ w + d, "eq": lambda w: a @ w == c @ w + d}
    ef.add_constraint(f[form])
    check(V, ef, n, mu, S, rf, L, U, labels,
          lambda x: op(dot(V, n, a, x), dot(V, n, c, x) + d))


@unit("C03", funcs=FU)
def extra_objective(V):
    """additional objectives are added in the transformed variable, with a warning"""
    ef, n, mu, S, rf, L, U, labels = setup(V)
    g = V.real("gamma", lo=0)
    ef.add_objective(V.mod("objective_functions").L2_reg, gamma=g)
    check(V, ef, n, mu, S, rf, L, U, labels, extra=lambda y: g * V.sum(n, lambda i: V.el(y, i) * V.el(y, i)))
    V.ensure("warned", V.warned("UserWarning"))


@unit("C03", funcs=FU)
def domain(V):
    ef, n, mu, S, rf, L, U, labels = setup(V)
    if V.split(V.forall(n, lambda i: V.le(V.el(mu, i), rf))):
        r = V.call(ef.max_sharpe, risk_free_rate=rf)
        expect_raises(V, "no asset beating the risk-free rate raises ValueError", r, "ValueError")
        V.ensure("nothing is solved", len(V.solves()) == 0)
    r = V.call(ef.max_sharpe, risk_free_rate="0.02")
    expect_raises(V, "a non-numeric rate raises ValueError", r, "ValueError")
