"""C26: deep copies.

Every problem solved by a copy, or by the optimiser it was taken from, is compared with the one solved by a fresh optimiser
built with the same parts: objective and feasible set coincide at every point."""
from vf.contract import unit
from .common import *
from .c07_reoptimise import same_problem
from .c08_userparts import data, parts

E = "efficient_frontier.efficient_frontier.EfficientFrontier."
BO = "base_optimizer.BaseConvexOptimizer."
FU = [BO + "deepcopy", BO + "add_constraint", BO + "add_objective", BO + "_solve_cvxpy_opt_problem"]

CASES = [("EfficientFrontier", "", m) for m in
         ("min_volatility", "max_quadratic_utility", "efficient_risk", "efficient_return", "max_sharpe")]
for _c, _sh in (("EfficientCVaR", "cvar"), ("EfficientCDaR", "cdar"), ("EfficientSemivariance", "semivariance")):
    CASES += [(_c, _sh, "min_" + _sh), (_c, _sh, "efficient_risk"), (_c, _sh, "efficient_return")]
CASES.append(("EfficientSemivariance", "semivariance", "max_quadratic_utility"))


def target(V, method, k, tail):
    if method == "max_quadratic_utility":
        return (V.real("aversion%d" % k, lo=0.1, gen=lambda r: r.choice([0.5, 2.0, 10.0])),)
    if method == "efficient_risk":
        return (V.real("risk%d" % k, lo=0.001, gen=lambda r: r.uniform(0.02, 0.3) if tail else r.uniform(0.2, 0.5)),)
    if method == "efficient_return":
        return (V.real("return%d" % k, lo=0, gen=lambda r: r.choice([0.0, 0.02, 0.05])),)
    return ()


def cls_of(ef):
    return type(ef).__name__


def solve(V, ef, method, args):
    """(result, problem of this call or None)"""
    s0 = len(V.solves())
    r = V.call(getattr(ef, method), *args)
    ss = V.solves()
    return r, (ss[-1] if len(ss) > s0 else None)


def like_fresh(V, ef, make, method, args, n, L, U, name):
    """ef solves the problem of a fresh optimiser; returns its solution"""
    r, a = solve(V, ef, method, args)
    fresh = make()
    r2, b = solve(V, fresh, method, args)
    if V.sym and cls_of(ef) == "EfficientFrontier" and method == "efficient_return":
        # the solver may report another largest return to the fresh optimiser (C07 pins the refusal itself)
        if not (r.ok and r2.ok):
            return None
    V.ensure(name + "refused exactly when a fresh optimiser refuses", (a is None) == (b is None))
    if a is None or b is None or not r.ok or not r2.ok:
        return None
    same_problem(V, a, b, ef._w, fresh._w, n, name, 1, L, U)
    w = ef.weights
    return V.copy(w)


def same_weights(V, ef, w, n, name):
    if w is not None:
        V.vector(name, ef.weights, n, lambda i: V.el(w, i), tol=1e-12)


def _before(cls, short, method):
    def f(V):
        n, mu, S, L, U = data(V, cls != "EfficientFrontier")
        V.solve_modes("optimal")
        add, user, extra = parts(V, n)
        C = getattr(V.mod("efficient_frontier"), cls)
        d = V.vec("d", n, gen=lambda r, n: [r.choice([0, 1]) for _ in range(n)])
        e = V.real("e", gen=lambda r: r.choice([0.1, 0.4, 1.0]))

        def more(ef):
            ef.add_constraint(lambda w: d @ w <= e)
            if method != "max_sharpe":
                ef.add_objective(V.mod("objective_functions").L2_reg, gamma=1)

        def make(*extra):
            ef = C(mu, S, weight_bounds=(L, U))
            if method != "max_sharpe":
                add(ef)
            else:
                ef.add_constraint(lambda w: w <= e)
            for x in extra:
                x(ef)
            return ef
        ef = make()
        c = ef.deepcopy()
        more(c)
        t1, t2 = target(V, method, 1, bool(short)), target(V, method, 2, bool(short))
        first = V.bool("the copy is solved first")
        wc = like_fresh(V, c, lambda: make(more), method, t2, n, L, U, "extended copy: ") if first else None
        w = like_fresh(V, ef, make, method, t1, n, L, U, "original: ")
        if first:
            same_weights(V, c, wc, n, "the copy keeps its weights")
        else:
            like_fresh(V, c, lambda: make(more), method, t2, n, L, U, "extended copy: ")
            same_weights(V, ef, w, n, "the original keeps its weights")
    f.__name__ = "before_%s_%s" % (short or "mv", method)
    f.__module__ = __name__
    unit("C26", funcs=FU + ["efficient_frontier.efficient_%s.%s.%s" % (short or "frontier", cls, method)], weight=2)(f)


def _after(cls, short, method):
    def f(V):
        n, mu, S, L, U = data(V, cls != "EfficientFrontier")
        V.solve_modes("optimal")
        add, user, extra = parts(V, n)
        C = getattr(V.mod("efficient_frontier"), cls)

        def make():
            ef = C(mu, S, weight_bounds=(L, U))
            add(ef)
            return ef
        ef = make()
        t = [target(V, method, k, bool(short)) for k in range(3)]
        r, a = solve(V, ef, method, t[0])
        if a is None or not r.ok:
            return
        w = V.copy(ef.weights)
        c = ef.deepcopy()
        V.vector("the copy has the original's weights", c.weights, n, lambda i: V.el(w, i), tol=1e-12)
        wc = like_fresh(V, c, make, method, t[1], n, L, U, "copy: ")
        same_weights(V, ef, w, n, "the original keeps its weights")
        like_fresh(V, ef, make, method, t[2], n, L, U, "original: ")
        same_weights(V, c, wc, n, "the copy keeps its weights")
    f.__name__ = "after_%s_%s" % (short or "mv", method)
    f.__module__ = __name__
    unit("C26", funcs=FU + ["efficient_frontier.efficient_%s.%s.%s" % (short or "frontier", cls, method)], weight=2)(f)


for _k in CASES:
    _before(*_k)
    if not _k[2].startswith("min_") and _k[2] != "max_sharpe":
        _after(*_k)


def _figures(cls, short, m1, m2):
    """the figures reported for one of the two are those of its own last solution, whatever the other solves afterwards"""
    def f(V):
        n, mu, S, L, U = data(V, cls != "EfficientFrontier")
        V.solve_modes("optimal")
        C = getattr(V.mod("efficient_frontier"), cls)
        ef = C(mu, S, weight_bounds=(L, U))
        r, a = solve(V, ef, m1, target(V, m1, 0, bool(short)))
        if a is None or not r.ok:
            return
        p = V.call(ef.portfolio_performance)
        c = ef.deepcopy()
        r2, b = solve(V, c, m2, target(V, m2, 1, bool(short)))
        if b is None or not r2.ok:
            return
        q = V.call(ef.portfolio_performance)
        V.ensure("reported", p.ok and q.ok)
        if p.ok and q.ok:
            V.ensure("as many figures", len(p.value) == len(q.value))
            for k, (x, y) in enumerate(zip(p.value, q.value)):
                V.scalar("figure %d is the original's" % (k + 1), y, x, tol=1e-12)
    f.__name__ = "figures_%s" % (short or "mv")
    f.__module__ = __name__
    unit("C26", funcs=FU + ["efficient_frontier.efficient_%s.%s.portfolio_performance" % (short or "frontier", cls)])(f)


_figures("EfficientFrontier", "", "max_quadratic_utility", "max_quadratic_utility")
_figures("EfficientSemivariance", "semivariance", "efficient_risk", "efficient_risk")
_figures("EfficientCVaR", "cvar", "efficient_risk", "efficient_risk")
_figures("EfficientCDaR", "cdar", "efficient_risk", "efficient_risk")
