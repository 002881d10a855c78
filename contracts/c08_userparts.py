"""C08: user constraints, sector limits and extra objectives reach the solver intact.

Stated differentially: with the user's parts the solved problem has exactly the feasible set of the plain problem
intersected with the user's constraints, and exactly the plain objective plus the user's objectives (the plain problems are
pinned by C02-C06)."""
from vf.contract import unit
from .common import *

E = "efficient_frontier.efficient_frontier.EfficientFrontier."
BO = "base_optimizer.BaseConvexOptimizer."
FU = [BO + "add_constraint", BO + "add_objective", BO + "_solve_cvxpy_opt_problem", E + "_make_weight_sum_constraint"]
MV = [("min_volatility", False), ("max_quadratic_utility", True), ("efficient_risk", True), ("efficient_return", True)]


def data(V, rows=False):
    n = V.dim("n", lo=1)
    mu = V.vec("mu", n, gen=lambda r, n: [r.uniform(0.01, 0.3) for _ in range(n)])
    L = V.vec("lower", n, hi=0, gen=lambda r, n: [r.choice([0, -0.1, -0.6]) for _ in range(n)])
    U = V.vec("upper", n, lo=0, gen=lambda r, n: [r.choice([1, 0.8, 0.6]) for _ in range(n)])
    if rows:
        T = V.dim("T", lo=2)
        return n, mu, V.mat("R", T, n, gen=grets), L, U
    return n, mu, V.symmat("S", n, gen=gcov), L, U


def compare(V, a, b, wa, wb, n, extra, user, tot, lo, hi, name=""):
    """a: problem with the user's parts, b: the plain problem"""
    va = [v for v in a.vars if v is not wa]
    vb = [v for v in b.vars if v is not wb]
    V.ensure(name + "same number of variables", len(va) == len(vb))
    if len(va) != len(vb):
        return
    for _ in V.samples(25):
        x = V.point("x", n, total=tot, lo=lo, hi=hi)
        ats, bts = [(wa, x)], [(wb, x)]
        for k, (p, q) in enumerate(zip(va, vb)):
            sp = tuple(p.shape)
            V.ensure(name + "variables of the same shape", len(sp) == len(tuple(q.shape)))
            val = V.point("y%d" % k, sp[0], nonneg=True) if len(sp) == 1 else V.point("y%d" % k)
            ats.append((p, val))
            bts.append((q, val))
        o = b.obj(bts)
        V.scalar(name + "objective: the method's plus the added ones", a.obj(ats), o + extra(x))
        V.ensure(name + "feasible set: the method's and the added constraints",
                 V.iff(a.feasible(ats), V.and_(b.feasible(bts), user(x))))


def run(V, make, method, arg, neutral, n, add, extra, user, L, U, sides=True, two=False):
    a, b = make(), make()
    add(a)
    kw = {"market_neutral": neutral} if sides else {}
    args = () if arg is None else (arg,)
    s0 = len(V.solves())
    ra = V.call(getattr(a, method), *args, **kw)
    s1 = len(V.solves())
    rb = V.call(getattr(b, method), *args, **kw)
    ss = V.solves()
    if s1 == s0 or len(ss) == s1:
        V.ensure("refused exactly when the plain problem is", s1 == s0 and len(ss) == s1)
        return
    if s1 - s0 != len(ss) - s1:
        return          # the target exceeded the largest return of one of the two problems
    for k in range(s1 - s0):
        # mean-variance efficient_return first solves for the largest return (and refuses targets above it)
        main = k == s1 - s0 - 1 and not (k == 0 and two)
        compare(V, ss[s0 + k], ss[s1 + k], a._w if main else ss[s0 + k].vars[0], b._w if main else ss[s1 + k].vars[0],
                n, extra if main else (lambda x: 0), user, (0 if neutral else 1) if main else 1, L, U,
                "" if main else "largest return: ")


def parts(V, n):
    """two constraints and two objectives of the user"""
    a = V.vec("a", n, gen=lambda r, n: [r.choice([0, 1, 1, -1]) for _ in range(n)])
    c = V.real("c", gen=lambda r: r.choice([0.2, 0.5, 0.9]))
    cap = V.vec("cap", n, lo=0, gen=lambda r, n: [r.uniform(0.1, 0.6) for _ in range(n)])
    g = V.real("gamma", lo=0, gen=lambda r: r.choice([0.0, 0.1, 3.0]))
    k = V.real("k", lo=0, gen=lambda r: r.choice([0.001, 0.01]))
    w0 = V.vec("w_prev", n, gen=lambda r, n: [r.uniform(0, 1) for _ in range(n)])
    ob = V.mod("objective_functions")

    def add(ef):
        ef.add_constraint(lambda w: a @ w <= c)
        ef.add_objective(ob.L2_reg, gamma=g)
        ef.add_constraint(lambda w: w <= cap)
        ef.add_objective(ob.transaction_cost, w_prev=w0, k=k)

    def user(x):
        return V.and_(V.le(dot(V, n, a, x), c), V.forall(n, lambda i: V.le(V.el(x, i), V.el(cap, i))))

    def extra(x):
        return g * V.sum(n, lambda i: V.el(x, i) * V.el(x, i)) + k * V.sum(n, lambda i: V.abs(V.el(x, i) - V.el(w0, i)))
    return add, user, extra


def _mv(method, sides):
    def f(V):
        n, mu, S, L, U = data(V)
        neutral = V.bool("market_neutral") if sides else False
        arg = {"min_volatility": None, "max_quadratic_utility": 2}.get(method, 0)
        if arg == 0:
            arg = V.real("target", lo=0, gen=lambda r: r.choice([0.0, 0.02, 0.4, 0.7]))
        V.solve_modes("optimal")
        add, user, extra = parts(V, n)
        EF = V.mod("efficient_frontier").EfficientFrontier
        run(V, lambda: EF(mu, S, weight_bounds=(L, U)), method, arg, neutral, n, add, extra, user, L, U, sides,
            method == "efficient_return")
    f.__name__ = "mv_" + method
    f.__module__ = __name__
    unit("C08", funcs=FU + [E + method], weight=2)(f)


for _m, _s in MV:
    _mv(_m, _s)


def _tail(cls, short, method, arg):
    def f(V):
        n, mu, R, L, U = data(V, True)
        neutral = V.bool("market_neutral")
        a = None if arg is None else V.real("target", lo=0.001, gen=lambda r: r.uniform(0.01, arg))
        V.solve_modes("optimal")
        add, user, extra = parts(V, n)
        C = getattr(V.mod("efficient_frontier"), cls)
        run(V, lambda: C(mu, R, weight_bounds=(L, U)), method, a, neutral, n, add, extra, user, L, U)
    f.__name__ = "%s_%s" % (short, method)
    f.__module__ = __name__
    unit("C08", funcs=FU + ["efficient_frontier.efficient_%s.%s.%s" % (short, cls, method)], weight=2)(f)


for _c, _sh in (("EfficientCVaR", "cvar"), ("EfficientCDaR", "cdar"), ("EfficientSemivariance", "semivariance")):
    _tail(_c, _sh, "min_" + _sh, None)
    _tail(_c, _sh, "efficient_risk", 0.3)
    _tail(_c, _sh, "efficient_return", 0.2)
_tail("EfficientSemivariance", "semivariance", "max_quadratic_utility", 5)


@unit("C08", funcs=FU + [BO + "add_sector_constraints"], weight=2)
def sector_limits(V):
    """each sector's floor and cap bind exactly the assets mapped to that sector"""
    n = V.dim("n", lo=1)
    mu = V.vec("mu", n, gen=gmu)
    S = V.symmat("S", n, gen=gcov)
    names = ["tech", "oil", "health"]
    code = V.vec("sector", n, lo=0, hi=4, py="i", gen=lambda r, n: [r.randint(0, 4) for _ in range(n)])
    labels = V.labels("tick", n)
    mapper = V.labelmap(labels, code, names)
    cap = [V.real("cap%d" % k, gen=lambda r: r.uniform(0, 1)) for k in range(2)]
    flo = [V.real("floor%d" % k, gen=lambda r: r.uniform(0, 0.6)) for k in range(2)]
    which = V.choice("limits", ["both", "caps", "floors", "none"])
    upper = {"tech": cap[0], "oil": cap[1]} if which in ("both", "caps") else {}
    lower = {"health": flo[0], "tech": flo[1]} if which in ("both", "floors") else {}
    short = V.bool("shorts")
    EF = V.mod("efficient_frontier").EfficientFrontier
    mk = lambda: EF(V.series(mu, labels), V.frame(S, labels, labels), weight_bounds=(-1, 1) if short else (0, 1))
    V.solve_modes("optimal")
    ef, plain = mk(), mk()
    r = V.call(ef.add_sector_constraints, mapper, lower, upper)
    V.ensure("sector limits are accepted", r.ok)
    if not r.ok:
        return
    V.ensure("a warning is given exactly when shorts are allowed", V.warned("UserWarning") == short)
    V.call(ef.min_volatility)
    V.call(plain.min_volatility)
    ss = V.solves()
    V.ensure("one problem each", len(ss) == 2)
    if len(ss) != 2:
        return

    def tot(x, k):
        return V.sum(n, lambda i: V.ite(V.eq(V.el(code, i), k), V.el(x, i), 0))

    def user(x):
        cs = []
        for s, b in upper.items():
            cs.append(V.le(tot(x, names.index(s)), b))
        for s, b in lower.items():
            cs.append(V.ge(tot(x, names.index(s)), b))
        return V.and_(*cs)
    lo, hi = V.arr(n, lambda i: -1 if short else 0), V.arr(n, lambda i: 1)
    compare(V, ss[0], ss[1], ef._w, plain._w, n, lambda x: 0, user, 1, lo, hi)


@unit("C08", funcs=[BO + "add_constraint"])
def constraints_are_callables(V):
    n, mu, S, L, U = data(V)
    ef = V.mod("efficient_frontier").EfficientFrontier(mu, S, weight_bounds=(L, U))
    expect_raises(V, "a number raises TypeError", V.call(ef.add_constraint, 0.5), "TypeError")
    expect_raises(V, "a string raises TypeError", V.call(ef.add_constraint, "w <= 1"), "TypeError")


@unit("C08", funcs=FU + [BO + "convex_objective"], weight=2)
def convex_objective(V):
    """the caller's objective with its keyword arguments, plus added objectives, over the caller's constraints"""
    n, mu, S, L, U = data(V)
    b = V.vec("b", n, gen=lambda r, n: [r.uniform(-0.2, 0.2) for _ in range(n)])
    q = V.real("q", lo=0, gen=lambda r: r.choice([0.5, 2.0]))
    sums = V.choice("weights_sum_to_one", [True, False, "default"])
    add, user, extra = parts(V, n)
    labels = V.labels("tick", n)
    ef = V.mod("efficient_frontier").EfficientFrontier(V.series(mu, labels), V.frame(S, labels, labels),
                                                       weight_bounds=(L, U))
    add(ef)
    V.solve_modes("optimal", "infeasible")

    def mine(w, lin, scale=1):
        return scale * V.cp.sum_squares(w) + lin @ w
    kw = {} if sums == "default" else {"weights_sum_to_one": sums}
    r = V.call(ef.convex_objective, mine, lin=b, scale=q, **kw)
    ss = V.solves()
    V.ensure("one problem is solved", len(ss) == 1)
    if len(ss) != 1:
        return
    rec = ss[0]
    for _ in V.samples(25):
        x = V.point("x", n, total=1, lo=L, hi=U)
        V.scalar("objective", rec.obj([(ef._w, x)]),
                 q * V.sum(n, lambda i: V.el(x, i) * V.el(x, i)) + dot(V, n, b, x) + extra(x))
        f = V.and_(boxed(V, n, x, L, U), user(x))
        if sums is not False:
            f = V.and_(f, V.eq(total(V, n, x), 1))
        V.ensure("feasible set", V.iff(rec.feasible([(ef._w, x)]), f))
    if rec.status in ("optimal", "optimal_inaccurate") and r.ok:
        sol = rec.value(ef._w)
        V.wdict("weights are the solver's point", r.value, labels, lambda i: V.el(sol, i), tol=1e-9)
    elif rec.status is not None:
        V.ensure("OptimizationError unless solved", (not r.ok) and r.raised("OptimizationError"))


@unit("C08", funcs=[BO + "nonconvex_objective", "base_optimizer.BaseOptimizer._make_output_weights"])
def nonconvex_objective(V):
    """scipy receives the caller's objective, arguments, method and guess, the optimiser's bounds, and the caller's
    constraints next to the budget; its point is returned labelled"""
    n, mu, S, L, U = data(V)
    labels = V.labels("tick", n)
    ef = V.mod("efficient_frontier").EfficientFrontier(V.series(mu, labels), V.frame(S, labels, labels),
                                                       weight_bounds=(L, U))
    sums = V.choice("weights_sum_to_one", [True, False, "default"])
    given = V.bool("own constraint")
    guess = V.bool("own guess")
    tup = V.choice("args", ["tuple", "single", "none"])
    g0 = V.vec("guess", n, gen=lambda r, n: [r.uniform(0, 1) for _ in range(n)])
    cst = V.real("cst", gen=lambda r: r.choice([0.1, 0.3]))

    def goal(w, m=None):
        return V.np.sum(w ** 2) if m is None else V.np.sum(w ** 2) - w @ m

    def own(w):
        return V.np.sum(w * w) - cst
    own_c = {"type": "ineq", "fun": own}
    kw = {} if sums == "default" else {"weights_sum_to_one": sums}
    if given:
        kw["constraints"] = [own_c]
    if guess:
        kw["initial_guess"] = g0
    if tup != "none":
        kw["objective_args"] = (mu,) if tup == "tuple" else mu
    r = V.call(ef.nonconvex_objective, goal, solver="SLSQP", **kw)
    ss = [s for s in V.solves() if s.kind == "scipy"]
    V.ensure("scipy is called once", len(ss) == 1)
    if len(ss) != 1:
        return
    p = V.scipy_call(ss[0])
    V.ensure("with the caller's method", p["method"] == "SLSQP")
    V.vector("initial guess", p["x0"], n, (lambda i: V.el(g0, i)) if guess else (lambda i: V.one() / n))
    x = V.point("x", n, total=1, lo=L, hi=U)
    exp = V.sum(n, lambda i: V.el(x, i) * V.el(x, i)) - (dot(V, n, x, mu) if tup != "none" else 0)
    V.scalar("objective and its arguments", p["fun"](x, *p["args"]), exp)
    V.ensure("one bound pair per asset", V.eq(V.length(p["bounds"]), n))
    V.ensure("bounds", V.forall(n, lambda i: V.and_(V.eq(V.item(p["bounds"], i)[0], V.el(L, i)),
                                                    V.eq(V.item(p["bounds"], i)[1], V.el(U, i)))))
    cons = list(p["constraints"])
    V.ensure("as many constraints as asked for", len(cons) == (1 if sums is not False else 0) + (1 if given else 0))
    eqs = [c for c in cons if c["type"] == "eq"]
    V.ensure("budget constraint exactly when asked for", len(eqs) == (1 if sums is not False else 0))
    for c in eqs:
        V.scalar("budget: sum(w) - 1 == 0", c["fun"](x), total(V, n, x) - 1)
    for c in cons:
        if c["type"] == "ineq":
            V.scalar("the caller's own constraint", c["fun"](x), V.sum(n, lambda i: V.el(x, i) * V.el(x, i)) - cst)
    V.ensure("returns", r.ok)
    if r.ok:
        V.wdict("weights are scipy's point", r.value, labels, lambda i: V.el(p["x"], i), tol=1e-9)
        V.vector("ef.weights is scipy's point", ef.weights, n, lambda i: V.el(p["x"], i), tol=1e-9)
