"""C13: the integer programme of lp_portfolio.

Over whole x:  minimise  sum_i |w_i V - x_i p_i| + (V - p'x)   subject to  x >= 0,  V - p'x >= 0,  with w_i and p_i the
weight and the price of the same asset."""
from vf.contract import unit
from .common import *
from .c12_greedy import D, book, gshare, long_short_split, shares

FU = [D + "lp_portfolio", D + "__init__", D + "_remove_zero_positions"]


@unit("C13", funcs=FU)
def long_only(V):
    n, labels, w, prices, val, price = book(V, gshare)
    V.assume(V.forall(n, lambda i: V.ge(V.el(w, i), 0)))
    V.assume(V.le(V.sum(n, lambda i: V.el(w, i)), 1))
    da = V.call(V.mod("discrete_allocation").DiscreteAllocation, V.mapping(labels, w, py="float"), prices, val)
    V.ensure("accepted", da.ok)
    if not da.ok:
        return
    V.solve_modes("optimal", "optimal_inaccurate", "infeasible")
    kw = {"solver": V.choice("solver", ["ECOS_BB", "SCIPY"])} if V.bool("solver given") else {}
    r = V.call(da.value.lp_portfolio, **kw)
    ss = V.solves()
    V.ensure("exactly one problem is solved", len(ss) == 1)
    if len(ss) != 1:
        return
    rec = ss[0]
    V.ensure("with the requested solver", rec.solver_args[1].get("solver") == kw.get("solver", "ECOS_BB"))
    xs = [v for v in rec.vars if rec.is_integer(v)]
    rest = [v for v in rec.vars if not rec.is_integer(v)]
    V.ensure("over whole numbers of shares", len(xs) == 1 and any(v is xs[0] for v in rec.var_of_shape(n)))
    V.ensure("at most one further variable", len(rest) <= 1)
    if len(xs) != 1 or len(rest) > 1:
        return
    xv = xs[0]
    gap = lambda x, i: V.abs(V.el(w, i) * val - V.el(x, i) * price(i))
    cash = lambda x: val - V.sum(n, lambda i: V.el(x, i) * price(i))
    for _ in V.samples(25):
        x = xpoint(V, n, w, val, price)
        affordable = V.and_(V.forall(n, lambda i: V.ge(V.el(x, i), 0)), V.ge(cash(x), 0))
        if not rest:
            V.scalar("objective", rec.obj([(xv, x)]), V.sum(n, lambda i: gap(x, i)) + cash(x))
            V.ensure("feasible set", V.iff(rec.feasible([(xv, x)]), affordable))
            continue
        # with auxiliary gaps u: u bounds the gaps from above and the objective is their sum plus the cash
        u = upoint(V, n, x, gap)
        at = [(xv, x), (rest[0], u)]
        V.scalar("objective", rec.obj(at), V.sum(n, lambda i: V.el(u, i)) + cash(x))
        V.ensure("feasible set", V.iff(rec.feasible(at), V.and_(affordable, V.forall(n, lambda i: V.ge(V.el(u, i), gap(x, i))))))
    if rec.status not in ("optimal", "optimal_inaccurate"):
        V.ensure("an unsolved programme raises", (not r.ok) and r.raised("OptimizationError"))
        return
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    alloc, left = r.value
    sol = rec.value(xv)
    V.ensure("the solution is each asset's number of shares", V.forall(n, lambda i: V.eq(
        shares(V, alloc, V.lab(labels, i)), V.round(V.el(sol, i), 0), tol=1e-9)))
    V.scalar("the leftover is the cash of the solution", left, cash(sol), tol=1e-4)
    V.ensure("the inputs are unchanged", len(V.mutated()) == 0)


def xpoint(V, n, w, val, price):
    if V.sym:
        return V.point("x", n)
    x = [V.floor(float(w[i]) * val / price(i)) + V.rng.choice([0, 0, 1, -1]) for i in range(n)]
    return V.np.array(x, dtype=float)


def upoint(V, n, x, gap):
    if V.sym:
        return V.point("u", n)
    return V.np.array([gap(x, i) * V.rng.choice([1, 1.2]) + V.rng.choice([0, 0.3, 0.3, -0.1 if V.rng.random() < 0.3 else 0])
                       for i in range(n)])


@unit("C13", funcs=FU)
def long_short(V):
    long_short_split(V, "lp_portfolio", {})
