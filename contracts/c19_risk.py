"""C19: covariance estimators.

R_ti: the returns (given, or of the given prices); f: the frequency. Before any repair, the estimate is
  sample     cov of the returns times f (over the periods in which both returns are known, over their number less one)
  semi       f / T sum_t min(R_ti - B, 0) min(R_tj - B, 0)
  exp        f times the exponentially weighted mean (a = 2/(span+1)) of (R_ti - m_i)(R_tj - m_j) at the last period
  min. cov. determinant    f fast_mcd(rows without missing values)
The repair is the callee contract of C21: what is returned is what fix_nonpositive_semidefinite returns for it."""
from vf.contract import unit
from .common import *
from .c23_returns import Data

X = "risk_models."


class Repair:
    """fix_nonpositive_semidefinite by its contract (C21): called with what, and what comes back"""

    def __init__(self, V):
        self.calls = []
        real = V.mod("risk_models").fix_nonpositive_semidefinite

        def stub(matrix, fix_method="spectral"):
            if V.sym:
                n = matrix.shape[0]
                res = V.frame(V.mat("repaired%d" % len(self.calls), n, n), matrix.index, matrix.index)
            else:
                res = real(matrix, fix_method)
            self.calls.append((matrix, fix_method, res))
            return res
        V.patch("risk_models", "fix_nonpositive_semidefinite", stub)


def out(V, r, rep, n, labels, f, method=None, tol=1e-7, name="estimate", framed=None):
    V.ensure(name + ": returns", r.ok)
    if not r.ok:
        return
    V.ensure(name + ": repaired once", len(rep.calls) == 1)
    if len(rep.calls) != 1:
        return
    M, how, res = rep.calls[0]
    V.ensure(name + ": a frame", V.is_frame(r.value) and V.is_frame(M))
    V.matrix(name + " before any repair", M, n, n, f, tol=tol)
    V.frame_labels(name + ": labelled by asset", M, labels, labels)
    V.ensure(name + ": symmetric", V.forall(n, lambda i: V.forall(n, lambda j: V.eq(V.el(M, i, j), V.el(M, j, i)))))
    V.ensure(name + ": repair method", how == (method or "spectral"))
    V.matrix(name + ": the repaired matrix", r.value, n, n, lambda i, j: V.el(res, i, j), tol=0)
    V.frame_labels(name + ": labelled by asset after repair", r.value, labels, labels)
    V.ensure(name + ": the data are unchanged", len(V.mutated()) == 0)
    if framed is not None:
        V.ensure(name + ": warns exactly when the data are not in a frame", V.iff(not framed, V.warned("RuntimeWarning")))


def options(V, d):
    kw = dict(d.kw)
    f = 252
    if V.bool("frequency given"):
        f = V.real("frequency", lo=1, gen=lambda r: r.choice([1, 12, 52, 252]))
        kw["frequency"] = f
    fix = V.choice("fix_method", [None, "diag", "spectral"])
    if fix:
        kw["fix_method"] = fix
    return kw, f, fix


def pairwise(V, d, g):
    """sum over the periods in which both returns are known"""
    if d.known is None:
        return lambda i, j: V.sum(d.T, lambda t: g(i, j, t))
    return lambda i, j: V.sum(d.T, lambda t: V.ite(V.and_(d.known(t, i), d.known(t, j)), lambda: g(i, j, t), 0))


def sample(V, d, f):
    if d.known is None:
        m = lambda i: V.sum(d.T, lambda t: d.r(t, i)) / d.T
        return lambda i, j: V.sum(d.T, lambda t: (d.r(t, i) - m(i)) * (d.r(t, j) - m(j))) / (d.T - 1) * f
    c = pairwise(V, d, lambda i, j, t: 1)
    mi = lambda i, j: pairwise(V, d, lambda i, j, t: d.r(t, i))(i, j) / c(i, j)
    mj = lambda i, j: pairwise(V, d, lambda i, j, t: d.r(t, j))(i, j) / c(i, j)

    def cov(i, j):
        a, b, k = mi(i, j), mj(i, j), c(i, j)
        return pairwise(V, d, lambda i, j, t: (d.r(t, i) - a) * (d.r(t, j) - b))(i, j) / (k - 1) * f
    return cov


def two_known(V, d):
    """any two assets have two periods in common"""
    c = pairwise(V, d, lambda i, j, t: 1)
    V.assume(V.forall(d.n, lambda i: V.forall(d.n, lambda j: V.ge(c(i, j), 2))))


@unit("C19", funcs=[X + "sample_cov"])
def sample_cov(V):
    n, T = V.dim("n"), V.dim("T", lo=2)
    d = Data(V, n, T)
    rep = Repair(V)
    kw, f, fix = options(V, d)
    r = V.call(V.mod("risk_models").sample_cov, d.arg, **kw)
    out(V, r, rep, n, d.labels, sample(V, d, f), fix, framed=d.framed)


@unit("C19", funcs=[X + "sample_cov"])
def sample_missing(V):
    n, T = V.dim("n"), V.dim("T", lo=2)
    d = Data(V, n, T, nan=True, framed=True)
    if not d.returns_data:
        return
    two_known(V, d)
    rep = Repair(V)
    kw, f, fix = options(V, d)
    r = V.call(V.mod("risk_models").sample_cov, d.arg, **kw)
    out(V, r, rep, n, d.labels, sample(V, d, f), fix, framed=True)


@unit("C19", funcs=[X + "semicovariance"])
def semicovariance(V):
    n, T = V.dim("n"), V.dim("T", lo=1)
    d = Data(V, n, T)
    rep = Repair(V)
    kw, f, fix = options(V, d)
    B = V.q("0.000079")
    if V.bool("benchmark given"):
        B = kw["benchmark"] = V.real("benchmark", gen=lambda r: r.choice([0.0, 0.01, -0.005, 0.001]))
    r = V.call(V.mod("risk_models").semicovariance, d.arg, **kw)
    low = lambda t, i: V.min(d.r(t, i) - B, 0)
    out(V, r, rep, n, d.labels, lambda i, j: V.sum(T, lambda t: low(t, i) * low(t, j)) / T * f, fix, framed=d.framed)


@unit("C19", funcs=[X + "semicovariance"])
def semicovariance_missing(V):
    """a missing return is not below the benchmark"""
    n, T = V.dim("n"), V.dim("T", lo=1)
    d = Data(V, n, T, nan=True, framed=True)
    if not d.returns_data:
        return
    rep = Repair(V)
    kw, f, fix = options(V, d)
    B = kw["benchmark"] = V.real("benchmark", gen=lambda r: r.choice([0.0, 0.01, -0.005, 0.001]))
    r = V.call(V.mod("risk_models").semicovariance, d.arg, **kw)
    low = lambda t, i: V.ite(d.known(t, i), lambda: V.min(d.r(t, i) - B, 0), 0)
    out(V, r, rep, n, d.labels, lambda i, j: V.sum(T, lambda t: low(t, i) * low(t, j)) / T * f, fix, framed=True)


def ewcov(V, d, span, f):
    q = 1 - 2 / (span + V.one())
    T = d.T
    w = lambda t: V.pow(q, T - 1 - t)
    m = lambda i: d.sum(V, i) / d.count(V, i)

    def cov(i, j):
        a, b = m(i), m(j)
        num = pairwise(V, d, lambda i, j, t: w(t) * (d.r(t, i) - a) * (d.r(t, j) - b))(i, j)
        return num / pairwise(V, d, lambda i, j, t: w(t))(i, j) * f
    return cov


@unit("C19", funcs=[X + "exp_cov", X + "_pair_exp_cov"])
def exp_cov(V):
    n, T = V.dim("n"), V.dim("T", lo=1)
    d = Data(V, n, T)
    rep = Repair(V)
    kw, f, fix = options(V, d)
    span = 180
    if V.bool("span given"):
        span = kw["span"] = V.real("span", lo=2, gen=lambda r: r.choice([2, 3, 10, 60]))
    r = V.call(V.mod("risk_models").exp_cov, d.arg, **kw)
    out(V, r, rep, n, d.labels, ewcov(V, d, span, f), fix, framed=d.framed)


@unit("C19", funcs=[X + "exp_cov", X + "_pair_exp_cov"])
def exp_missing(V):
    n, T = V.dim("n"), V.dim("T", lo=1)
    d = Data(V, n, T, nan=True, framed=True)
    if not d.returns_data:
        return
    V.assume(V.forall(n, lambda i: V.forall(n, lambda j: V.exists(T, lambda t: V.and_(d.known(t, i), d.known(t, j))))))
    V.sums_pos("each asset has a known return", n, T, lambda i, t: d.v(V, t, i))
    rep = Repair(V)
    kw, f, fix = options(V, d)
    span = V.real("span", lo=2, gen=lambda r: r.choice([2, 3, 10, 60]))
    r = V.call(V.mod("risk_models").exp_cov, d.arg, span=span, **kw)
    out(V, r, rep, n, d.labels, ewcov(V, d, span, f), fix, framed=True)


@unit("C19", funcs=[X + "min_cov_determinant"])
def min_cov_determinant(V):
    """fast_mcd by contract: some scatter matrix, a function of the complete rows and of the random state handed over"""
    n, T = V.dim("n"), V.dim("T", lo=2)
    nan = V.bool("missing values")
    d = Data(V, n, T, nan=nan, framed=True if nan else None)
    if nan and not d.returns_data:
        return
    rep = Repair(V)
    kw, f, fix = options(V, d)
    seen = []
    S = V.symmat("scatter", n, gen=gcov)

    def fast_mcd(data, random_state=None):
        seen.append((data, random_state))
        return None, S, None, None
    V.patch_lib("sklearn.covariance", "fast_mcd", fast_mcd)
    rs = None
    if V.bool("seeded"):
        rs = kw["random_state"] = 7
    r = V.call(V.mod("risk_models").min_cov_determinant, d.arg, **kw)
    out(V, r, rep, n, d.labels, lambda i, j: V.el(S, i, j) * f, fix)
    V.ensure("one robust fit", len(seen) == 1)
    if len(seen) != 1:
        return
    V.ensure("with the random state given", seen[0][1] == rs)
    if not nan:
        V.matrix("of the returns", seen[0][0], T, n, lambda t, i: d.r(t, i), tol=1e-9)
    else:
        full = d.arg.dropna()
        V.matrix("of the periods without missing values", seen[0][0], full.shape[0], n, lambda t, i: V.el(full, t, i), tol=0)


NAMES = {"sample_cov": ("sample_cov", {}), "semicovariance": ("semicovariance", {}), "semivariance": ("semicovariance", {}),
         "exp_cov": ("exp_cov", {}), "ledoit_wolf": ("ledoit_wolf", {}), "ledoit_wolf_constant_variance": ("ledoit_wolf", {}),
         "ledoit_wolf_single_factor": ("ledoit_wolf", {"shrinkage_target": "single_factor"}),
         "ledoit_wolf_constant_correlation": ("ledoit_wolf", {"shrinkage_target": "constant_correlation"}),
         "oracle_approximating": ("oracle_approximating", {})}


@unit("C19", funcs=[X + "risk_matrix"])
def dispatcher(V):
    """the same matrix as the named model gives, on the data and with the options handed over"""
    m = V.mod("risk_models")
    n, T = V.dim("n"), V.dim("T", lo=2)
    P = V.mat("P", T + 1, n, gen=gprices, owner="prices")
    V.assume(V.forall(T + 1, lambda t: V.forall(n, lambda i: V.gt(V.el(P, t, i), 0))))
    labels = V.labels("tick", n)
    F = V.frame(P, V.datelabels(T + 1), labels)
    name = V.choice("method", [None, *NAMES, "bogus", "min_cov"])
    what, more = NAMES.get(name or "sample_cov", (None, {}))
    opts = {} if V.bool("defaults") else {"frequency": V.real("frequency", lo=1, gen=lambda r: r.choice([1, 12])), "log_returns": True}
    extra = {}
    if opts and what == "exp_cov":
        extra["span"] = 20
    if opts and what == "semicovariance":
        extra["benchmark"] = V.real("benchmark", gen=lambda r: 0.001)
    rep = Repair(V)
    r = V.call(m.risk_matrix, F, **({} if name is None else {"method": name}), **opts, **extra)
    if what is None:
        expect_raises(V, "other names are refused", r, "NotImplementedError")
        return
    c1 = list(rep.calls)
    if what in ("ledoit_wolf", "oracle_approximating"):
        e = V.call(lambda: getattr(m.CovarianceShrinkage(F, **opts), what)(**more))
    else:
        e = V.call(getattr(m, what), F, **opts, **extra)
    V.ensure("both return", r.ok and e.ok)
    if not (r.ok and e.ok):
        return
    c2 = rep.calls[len(c1):]
    V.ensure("each repaired once", len(c1) == 1 and len(c2) == 1)
    V.matrix("what the named model returns", c1[0][0], n, n, lambda i, j: V.el(c2[0][0], i, j))
    V.ensure("repaired in the same way", c1[0][1] == c2[0][1])
    V.matrix("repaired", r.value, n, n, lambda i, j: V.el(c1[0][2], i, j), tol=0)
    V.frame_labels("labelled by asset", r.value, labels, labels)
    V.ensure("the data are unchanged", len(V.mutated()) == 0)
