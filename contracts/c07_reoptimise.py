"""C07: a parametrised method called again solves the same problem as a fresh optimiser given the new value.

Each unit performs an arbitrary first call and compares every later solve with the solve of a fresh optimiser:
objective and feasible set coincide at every point.  The later calls only see the state left by the previous one
(problem, parameters), which the last step shows is again of the same form, so the argument extends to any number of
calls."""
from vf.contract import unit
from .common import *

E = "efficient_frontier.efficient_frontier.EfficientFrontier."
BO = "base_optimizer.BaseConvexOptimizer."
FU = [BO + "is_parameter_defined", BO + "update_parameter_value", BO + "_solve_cvxpy_opt_problem",
      E + "_validate_market_neutral", E + "_make_weight_sum_constraint", "base_optimizer._get_all_args",
      "base_optimizer._flatten"]


def data(V, T=False):
    n = V.dim("n", lo=1)
    mu = V.vec("mu", n, gen=lambda r, n: [r.uniform(0.01, 0.3) for _ in range(n)])
    L = V.vec("lower", n, hi=0, gen=lambda r, n: [r.choice([0, -0.1, -0.6]) for _ in range(n)])
    U = V.vec("upper", n, lo=0, gen=lambda r, n: [r.choice([1, 0.8, 0.6]) for _ in range(n)])
    if T:
        t = V.dim("T", lo=2)
        R = V.mat("R", t, n, gen=grets)
        return n, mu, R, L, U, t
    return n, mu, V.symmat("S", n, gen=gcov), L, U, None


def same_problem(V, a, b, wa, wb, n, name, tot=1, lo=None, hi=None):
    """the two recorded problems have the same objective and feasible set, variable by variable"""
    va = [v for v in a.vars if v is not wa]
    vb = [v for v in b.vars if v is not wb]
    V.ensure(name + "same number of variables", len(va) == len(vb))
    if len(va) != len(vb):
        return
    for _ in V.samples(12):
        x = V.point("x", n, total=tot, lo=lo, hi=hi)
        ats, bts = [(wa, x)], [(wb, x)]
        for k, (p, q) in enumerate(zip(va, vb)):
            sp, sq = tuple(p.shape), tuple(q.shape)
            V.ensure(name + "variables of the same shape", len(sp) == len(sq))
            if len(sp) != len(sq):
                return
            val = V.point("y%d" % k, sp[0]) if len(sp) == 1 else V.point("y%d" % k)
            ats.append((p, val))
            bts.append((q, val))
        V.scalar(name + "objective of the fresh problem", a.obj(ats), b.obj(bts))
        V.ensure(name + "feasible set of the fresh problem", V.iff(a.feasible(ats), b.feasible(bts)))


def history(V, make, method, n, vals, neutral, sides, L=None, U=None):
    """call method(v) for v in vals on one optimiser; each solve equals the fresh optimiser's"""
    ef = make()
    for k, v in enumerate(vals):
        s0 = len(V.solves())
        r1 = V.call(getattr(ef, method), v, market_neutral=neutral)
        s1 = len(V.solves())
        fresh = make()
        r2 = V.call(getattr(fresh, method), v, market_neutral=neutral)
        s2 = len(V.solves())
        name = "call %d: " % (k + 1)
        ss = V.solves()
        if s1 == s0 or s2 == s1:
            # refused before solving: both or neither
            V.ensure(name + "refused exactly when a fresh optimiser refuses", s1 == s0 and s2 == s1)
            V.ensure(name + "with the same kind of error", (not r1.ok) and (not r2.ok)
                     and type(r1.exc).__name__ == type(r2.exc).__name__)
            continue
        same_problem(V, ss[s1 - 1], ss[s2 - 1], ef._w, fresh._w, n, name, 0 if neutral else 1, L, U)
        if ss[s1 - 1].status in ("optimal", "optimal_inaccurate"):
            V.ensure(name + "returns", r1.ok)
            if r1.ok:
                sol = ss[s1 - 1].value(ef._w)
                V.vector(name + "weights are this call's solution", ef.weights, n, lambda i: V.el(sol, i), tol=1e-9)
        else:
            V.ensure(name + "raises OptimizationError", (not r1.ok) and r1.raised("OptimizationError", "SolverError"))


@unit("C07", funcs=FU + [E + "max_quadratic_utility"], weight=2)
def quadratic_utility(V):
    n, mu, S, L, U, _ = data(V)
    neutral = V.bool("market_neutral")
    vals = [V.real("delta%d" % k, lo=0.001, hi=100) for k in range(3)]
    V.solve_modes("optimal", "infeasible")
    EF = V.mod("efficient_frontier").EfficientFrontier
    history(V, lambda: EF(mu, S, weight_bounds=(L, U)), "max_quadratic_utility", n, vals, neutral, None, L, U)


@unit("C07", funcs=FU + [E + "efficient_risk"], weight=2)
def efficient_risk(V):
    n, mu, S, L, U, _ = data(V)
    neutral = V.bool("market_neutral")
    vals = [V.real("target%d" % k, gen=lambda r: r.uniform(0.02, 0.6)) for k in range(2)]
    V.solve_modes("optimal")
    EF = V.mod("efficient_frontier").EfficientFrontier
    history(V, lambda: EF(mu, S, weight_bounds=(L, U)), "efficient_risk", n, vals, neutral, None, L, U)


@unit("C07", funcs=FU + [E + "efficient_return", E + "_max_return"], weight=3)
def efficient_return(V):
    """the largest achievable return bounds the target: it is computed once, the fresh optimisers compute it again"""
    n, mu, S, L, U, _ = data(V)
    neutral = V.bool("market_neutral")
    t1, t2 = [V.real("target%d" % k, gen=lambda r: r.choice([0.0, 0.01, 0.05, 0.12, 0.2])) for k in range(2)]
    V.solve_modes("optimal")
    EF = V.mod("efficient_frontier").EfficientFrontier
    flat = V.bool("flat returns")
    if flat:
        mu = V.arr(n, lambda i: V.el(mu, i) * 0)
    ef = EF(mu, S, weight_bounds=(L, U))
    r1 = V.call(ef.efficient_return, t1, market_neutral=neutral)
    ss = V.solves()
    if len(ss) < 2:
        V.ensure("first call refused", not r1.ok)
        return
    top = -ss[0].obj([(ss[0].vars[0], ss[0].value(ss[0].vars[0]))]) if V.sym else -ss[0].problem.value
    k1 = len(V.solves())
    r2 = V.call(ef.efficient_return, t2, market_neutral=neutral)
    ss = V.solves()
    if len(ss) == k1:
        expect_raises(V, "second call: refused with ValueError", r2, "ValueError")
        V.ensure("second call: only when the target exceeds the largest return", V.gt(t2, top))
        return
    V.ensure("second call: a target above the largest return is refused", V.le(t2, top))
    mine = ss[-1]
    fresh = EF(mu, S, weight_bounds=(L, U))
    r3 = V.call(fresh.efficient_return, t2, market_neutral=neutral)
    ss = V.solves()
    if len(ss) < k1 + 3:
        return       # the fresh optimiser's solver reported a smaller largest return
    same_problem(V, mine, ss[-1], ef._w, fresh._w, n, "second call: ", 0 if neutral else 1, L, U)
    if mine.status == "optimal":
        V.ensure("second call: returns", r2.ok)
    if r2.ok:
        V.vector("second call: weights are this call's solution", ef.weights, n,
                 lambda i: V.el(mine.value(ef._w), i), tol=1e-9)


def tail(V, cls, method, lo, hi, **kw):
    n, mu, R, L, U, T = data(V, True)
    neutral = V.bool("market_neutral")
    vals = [V.real("target%d" % k, lo=lo, gen=lambda r: r.uniform(lo, hi)) for k in range(2)]
    V.solve_modes("optimal")
    C = getattr(V.mod("efficient_frontier"), cls)
    history(V, lambda: C(mu, R, weight_bounds=(L, U), **kw), method, n, vals, neutral, None, L, U)


def _mk(cls, modname, method, lo, hi, weight=1, **kw):
    def f(V):
        tail(V, cls, method, lo, hi, **kw)
    f.__name__ = "%s_%s" % (modname, method)
    f.__module__ = __name__
    unit("C07", funcs=FU + ["efficient_frontier.efficient_%s.%s.%s" % (modname, cls, method)], weight=weight)(f)


for _c, _m in (("EfficientCVaR", "cvar"), ("EfficientCDaR", "cdar"), ("EfficientSemivariance", "semivariance")):
    _mk(_c, _m, "efficient_risk", 0.01, 0.4, 2)
    _mk(_c, _m, "efficient_return", 0.0, 0.2, 2)
_mk("EfficientSemivariance", "semivariance", "max_quadratic_utility", 0.1, 50, 2)


METHODS = [("min_volatility", ()), ("max_sharpe", ()), ("max_quadratic_utility", ()), ("efficient_risk", (0.9,)),
           ("efficient_return", (0.01,))]


@unit("C07", funcs=FU + [BO + "add_objective", BO + "add_constraint", BO + "add_sector_constraints"], weight=2)
def changes_after_solving_refused(V):
    """no method can solve a changed problem on an optimiser that has been used"""
    n, mu, S, L, U, _ = data(V)
    V.require(V.exists(n, lambda i: V.gt(V.el(mu, i), 0.005)))
    k = V.choice("method", [m for m, _ in METHODS])
    args = dict(METHODS)[k]
    EF = V.mod("efficient_frontier").EfficientFrontier
    ef = EF(mu, S, weight_bounds=(L, U))
    V.solve_modes("optimal")
    r = V.call(getattr(ef, k), *args)
    if not r.ok:
        return
    a = V.real("cap", lo=0, hi=1)
    expect_raises(V, "add_constraint raises InstantiationError", V.call(ef.add_constraint, lambda w: w <= a),
                  "InstantiationError")
    expect_raises(V, "add_objective raises InstantiationError",
                  V.call(ef.add_objective, V.mod("objective_functions").L2_reg, gamma=1), "InstantiationError")
    s0 = len(V.solves())
    sector = V.call(ef.add_sector_constraints, {0: "a"}, {"a": a}, {})
    expect_raises(V, "add_sector_constraints raises InstantiationError", sector, "InstantiationError")
    V.ensure("nothing is solved by these", len(V.solves()) == s0)


@unit("C07", funcs=FU, weight=2)
def other_methods_refused(V):
    """a different objective on a used optimiser raises instead of returning weights"""
    n, mu, S, L, U, _ = data(V)
    V.require(V.exists(n, lambda i: V.gt(V.el(mu, i), 0.005)))
    k = V.choice("first", [m for m, _ in METHODS])
    q = V.choice("second", [m for m, _ in METHODS])
    EF = V.mod("efficient_frontier").EfficientFrontier
    ef = EF(mu, S, weight_bounds=(L, U))
    V.solve_modes("optimal")
    r = V.call(getattr(ef, k), *dict(METHODS)[k])
    if not r.ok:
        return
    if k == q and k in ("max_quadratic_utility", "efficient_risk", "efficient_return"):
        return
    s0 = len(V.solves())
    r2 = V.call(getattr(ef, q), *dict(METHODS)[q])
    V.ensure("refused", not r2.ok)
    V.ensure("with a documented error", r2.raised("InstantiationError", "ValueError", "TypeError", "OptimizationError"))
    V.ensure("and nothing further is solved", len(V.solves()) == s0)


@unit("C07", funcs=FU + [E + "_validate_market_neutral"], weight=2)
def market_neutrality_is_fixed(V):
    n, mu, S, L, U, _ = data(V)
    m = V.choice("method", ["max_quadratic_utility", "efficient_risk", "efficient_return"])
    neutral = V.bool("market_neutral")
    EF = V.mod("efficient_frontier").EfficientFrontier
    ef = EF(mu, S, weight_bounds=(L, U))
    V.solve_modes("optimal")
    a = {"max_quadratic_utility": 2, "efficient_risk": 0.9, "efficient_return": 0.01}[m]
    r = V.call(getattr(ef, m), a, market_neutral=neutral)
    if not r.ok:
        return
    s0 = len(V.solves())
    r2 = V.call(getattr(ef, m), a, market_neutral=not neutral)
    expect_raises(V, "switching market neutrality raises InstantiationError", r2, "InstantiationError")
    V.ensure("nothing further is solved", len(V.solves()) == s0)
    r3 = V.call(getattr(ef, m), a, market_neutral=neutral)
    V.ensure("the original setting still works", r3.ok or r3.raised("OptimizationError"))
