"""C04-C06: rows of the returns with a missing value are left out, and everything (numbers of periods included) is as if
the caller had left them out. Stated differentially against the optimiser given the complete rows only."""
from vf.contract import unit
from .common import *
from .c08_userparts import compare

EFR = "efficient_frontier.efficient_frontier.EfficientFrontier."


def _unit(pid, cls, short, method, arg):
    def f(V):
        n = V.dim("n", lo=1)
        T = V.dim("T", lo=4)
        mu = V.vec("mu", n, gen=lambda r, n: [r.uniform(0.05, 0.3) for _ in range(n)])
        L = V.vec("lower", n, gen=lambda r, n: [r.choice([0, -0.1, -0.6]) for _ in range(n)])
        U = V.vec("upper", n, gen=lambda r, n: [r.choice([1, 0.8, 0.6]) for _ in range(n)])
        R = V.mat("R", T, n, gen=grets, nan=True)
        neutral = V.bool("market_neutral")
        a = () if arg is None else (V.real("target", lo=0.001, gen=lambda r: r.uniform(0.01, arg)),)
        labels = V.labels("tick", n)
        F = V.frame(R, V.datelabels(T), labels)
        V.solve_modes("optimal")
        C = getattr(V.mod("efficient_frontier"), cls)
        V.assume(V.exists(T, lambda t: V.exists(n, lambda i: V.isnan(R, t, i))))   # otherwise: the units without NaN
        full = F.dropna(axis=0, how="any")
        V.assume(V.ge(full.shape[0], 1))
        e1 = V.call(C, V.series(mu, labels), F, weight_bounds=(L, U))
        V.ensure("warns that rows are dropped", V.warned("UserWarning"))
        e2 = V.call(C, V.series(mu, labels), full, weight_bounds=(L, U))
        V.ensure("both constructed", e1.ok and e2.ok)
        if not (e1.ok and e2.ok):
            return
        V.call(getattr(e1.value, method), *a, market_neutral=neutral)
        V.call(getattr(e2.value, method), *a, market_neutral=neutral)
        ss = V.solves()
        V.ensure("both or neither solve", len(ss) in (0, 2))
        if len(ss) == 2:
            compare(V, ss[0], ss[1], e1.value._w, e2.value._w, n, lambda x: 0, lambda x: True, 0 if neutral else 1, L, U)
    f.__name__ = "missing_rows_%s_%s" % (short, method)
    f.__module__ = __name__
    return unit(pid, funcs=[EFR + "_validate_returns", "efficient_frontier.efficient_%s.%s.__init__" % (short, cls),
                            "efficient_frontier.efficient_%s.%s.%s" % (short, cls, method)], weight=2)(f)


for _p, _c, _sh in (("C04", "EfficientCVaR", "cvar"), ("C05", "EfficientCDaR", "cdar"),
                    ("C06", "EfficientSemivariance", "semivariance")):
    _unit(_p, _c, _sh, "min_" + _sh, None)
    _unit(_p, _c, _sh, "efficient_risk", 0.3)
    _unit(_p, _c, _sh, "efficient_return", 0.2)
_unit("C06", "EfficientSemivariance", "semivariance", "max_quadratic_utility", 5)
