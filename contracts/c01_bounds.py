"""C01: every documented form of weight_bounds becomes exactly the box  lower_i <= w_i <= upper_i."""
from vf.contract import unit
from .common import *

B = "base_optimizer.BaseConvexOptimizer."
FU = [B + "_map_bounds_to_constraints", B + "__init__", B + "add_constraint"]


def glow(r, n):
    k = r.choice([0.0, 0.3])
    return [float("-inf") if r.random() < k else r.choice([0.0, -1.0, r.uniform(-0.6, 0), r.uniform(0, 0.9 / n)])
            for _ in range(n)]


def gupp(r, n):
    k = r.choice([0.0, 0.3])
    return [float("inf") if r.random() < k else r.choice([1.0, 2.5, r.uniform(1.0 / n, 1)]) for _ in range(n)]


def check_box(V, n, bounds, inbox, lo=None, hi=None):
    """optimise with these bounds: the set handed to the solver is {sum w == 1} and the box"""
    mu = V.vec("mu", n, gen=gmu)
    S = V.symmat("S", n, gen=gcov)
    EF = V.mod("efficient_frontier").EfficientFrontier
    r = V.call(EF, mu, S, weight_bounds=bounds)
    V.ensure("constructor accepts the bounds", r.ok)
    if not r.ok:
        return
    ef = r.value
    V.solve_modes("optimal")
    V.call(ef.min_volatility)
    ss = V.solves()
    V.ensure("one problem solved", len(ss) == 1)
    if len(ss) != 1:
        return
    for _ in V.samples(25):
        x = V.point("x", n, total=1, lo=lo, hi=hi)
        V.ensure("feasible set == box and budget",
                 V.iff(ss[0].feasible([(wvar(V, ss[0], ef), x)]),
                       V.and_(V.eq(total(V, n, x), 1), inbox(x))))


@unit("C01", funcs=FU)
def scalar_pair(V):
    n = V.dim("n")
    a = V.real("lower", gen=lambda r: r.choice([0.0, -0.5, -1.0, -0.1, 0.01, float("-inf")]))
    b = V.real("upper", gen=lambda r: r.choice([1.0, 0.7, 2.0, float("inf")]))
    form = V.choice("form", ["both", "none_upper", "none_lower", "nones", "list"])
    lo = -1 if form in ("none_lower", "nones") else a
    hi = 1 if form in ("none_upper", "nones") else b
    bounds = (None if form in ("none_lower", "nones") else a, None if form in ("none_upper", "nones") else b)
    if form == "list":
        bounds = list(bounds)
    L, U = V.arr(n, lambda i: lo), V.arr(n, lambda i: hi)
    check_box(V, n, bounds, lambda x: boxed(V, n, x, L, U), L, U)


@unit("C01", funcs=FU)
def integer_pair(V):
    """python ints, as in the documented default (0, 1) and (-1, 1)"""
    n = V.dim("n")
    lo, hi = V.choice("pair", [(0, 1), (-1, 1), (0, 2), (-2, 0)])
    L, U = V.arr(n, lambda i: lo), V.arr(n, lambda i: hi)
    check_box(V, n, (lo, hi), lambda x: boxed(V, n, x, L, U), L, U)


@unit("C01", funcs=FU)
def default_bounds(V):
    n = V.dim("n")
    mu = V.vec("mu", n, gen=gmu)
    S = V.symmat("S", n, gen=gcov)
    ef = V.mod("efficient_frontier").EfficientFrontier(mu, S)
    V.solve_modes("optimal")
    V.call(ef.min_volatility)
    ss = V.solves()
    V.ensure("one problem solved", len(ss) == 1)
    for _ in V.samples(25):
        x = V.point("x", n, total=1)
        V.ensure("default bounds are (0, 1)", V.iff(
            ss[0].feasible([(wvar(V, ss[0], ef), x)]),
            V.and_(V.eq(total(V, n, x), 1), V.forall(n, lambda i: V.ge(V.el(x, i), 0)),
                   V.forall(n, lambda i: V.le(V.el(x, i), 1)))))


@unit("C01", funcs=FU)
def array_pair(V):
    n = V.dim("n")
    L = V.vec("lower", n, gen=glow)
    U = V.vec("upper", n, gen=gupp)
    form = V.choice("form", ["tuple", "list"])
    check_box(V, n, (L, U) if form == "tuple" else [L, U], lambda x: boxed(V, n, x, L, U), L, U)


@unit("C01", funcs=FU)
def array_pair_with_missing(V):
    """NaN in an array bound reads as -1 / +1"""
    n = V.dim("n")
    L = V.vec("lower", n, gen=glow, nan=True)
    U = V.vec("upper", n, gen=gupp, nan=True)

    def inbox(x):
        return V.and_(V.forall(n, lambda i: V.ite(V.isnan(L, i), lambda: V.ge(V.el(x, i), -1),
                                                  lambda: V.ge(V.el(x, i), V.el(L, i)))),
                      V.forall(n, lambda i: V.ite(V.isnan(U, i), lambda: V.le(V.el(x, i), 1),
                                                  lambda: V.le(V.el(x, i), V.el(U, i)))))
    check_box(V, n, (L, U), inbox)


@unit("C01", funcs=FU)
def per_asset(V):
    """one (lower, upper) tuple per asset; None leaves that side unbounded"""
    n = V.dim("n")
    L = V.vec("lower", n, gen=glow, nan=True)
    U = V.vec("upper", n, gen=gupp, nan=True)
    bs = V.tuples(L, U)
    if V.bool("as_tuple"):
        bs = tuple(bs) if V.conc else bs

    def inbox(x):
        return V.and_(V.forall(n, lambda i: V.or_(V.isnan(L, i), lambda: V.ge(V.el(x, i), V.el(L, i)))),
                      V.forall(n, lambda i: V.or_(V.isnan(U, i), lambda: V.le(V.el(x, i), V.el(U, i)))))
    check_box(V, n, bs, inbox)


@unit("C01", funcs=FU)
def rejected(V):
    """anything else is refused with TypeError"""
    n = V.dim("n", lo=4)
    mu = V.vec("mu", n, gen=gmu)
    S = V.symmat("S", n, gen=gcov)
    EF = V.mod("efficient_frontier").EfficientFrontier
    bad = V.choice("bad", [(0.1, 0.2, 0.3), [], (0.5,)])
    r = V.call(EF, mu, S, weight_bounds=bad)
    expect_raises(V, "malformed bounds raise TypeError", r, "TypeError")
