"""C21: repairing a covariance matrix.

psd(M): np.linalg.cholesky accepts M + 1e-16 I.  M = V diag(q) V' is np.linalg.eigh.
  spectral  V diag(max(q, 0)) V'        diag  M - 1.1 min(q) I"""
from vf.contract import unit
from .common import *

X = "risk_models."


def gsym(r, n, m=None):
    """symmetric, usually indefinite"""
    if r.random() < 0.4:
        return gcov(r, n)
    A = [[r.gauss(0, 0.3) for _ in range(n)] for _ in range(n)]
    return [[A[i][j] + A[j][i] + (r.choice([0, 1]) if i == j else 0) for j in range(n)] for i in range(n)]


def psd(V, n, f):
    return V.posdef(V.arr2(n, n, lambda i, j: f(i, j) + V.ite(V.eq(i, j), V.q("1/10000000000000000"), 0)))


def spectral(V, n, q, U):
    return lambda i, j: V.sum(n, lambda k: V.el(U, i, k) * V.max(V.el(q, k), 0) * V.el(U, j, k))


def setup(V):
    n = V.dim("n")
    A = V.symmat("M", n, gen=gsym, owner="matrix")
    framed = V.bool("framed")
    labels = V.labels("tick", n)
    return n, A, framed, labels, V.frame(A, labels, labels) if framed else A


@unit("C21", funcs=[X + "_is_positive_semidefinite"])
def test(V):
    """the test accepts what the Cholesky factorisation accepts after the documented nudge of 1e-16"""
    n, A, framed, labels, M = setup(V)
    r = V.call(V.mod("risk_models")._is_positive_semidefinite, M)
    V.ensure("answers", r.ok)
    if r.ok:
        V.ensure("positive semidefinite as the factorisation says", V.iff(r.value, psd(V, n, lambda i, j: V.el(A, i, j))))
        V.ensure("input unchanged", len(V.mutated()) == 0)


@unit("C21", funcs=[X + "fix_nonpositive_semidefinite", X + "_is_positive_semidefinite"])
def repair(V):
    n, A, framed, labels, M = setup(V)
    method = V.choice("fix_method", [None, "spectral", "diag", "other"])
    r = V.call(V.mod("risk_models").fix_nonpositive_semidefinite, M, **({} if method is None else {"fix_method": method}))
    V.ensure("input unchanged", len(V.mutated()) == 0)
    if V.split(psd(V, n, lambda i, j: V.el(A, i, j))):
        V.ensure("positive semidefinite input: returned, whatever the method", r.ok)
        if r.ok:
            V.ensure("and no warning", len(V.warnings()) == 0)
            V.matrix("returned unchanged", r.value, n, n, lambda i, j: V.el(A, i, j), tol=0)
    elif method == "other":
        expect_raises(V, "an unknown method is refused", r, "NotImplementedError")
    else:
        V.ensure("repaired", r.ok)
        if not r.ok:
            return
        V.ensure("warns of the repair", len(V.warnings()) >= 1)
        q, U = V.eigh(A)
        if method == "diag":
            low = V.np.min(q)
            f = lambda i, j: V.el(A, i, j) - V.ite(V.eq(i, j), V.q("11/10") * low, 0)
        else:
            f = spectral(V, n, q, U)
        V.matrix("%s repair" % (method or "default (spectral)"), r.value, n, n, f, tol=1e-9)
        V.ensure("symmetric", V.forall(n, lambda i: V.forall(n, lambda j: V.eq(V.el(r.value, i, j), V.el(r.value, j, i)))))
        V.ensure("warns when the repair did not suffice",
                 V.iff(psd(V, n, lambda i, j: V.el(r.value, i, j)), len(V.warnings()) == 1))
    if framed:
        if r.ok:
            V.ensure("a frame", V.is_frame(r.value))
            V.frame_labels("labels kept", r.value, labels, labels)
    elif r.ok:
        V.ensure("an array", V.is_ndarray(r.value))


@unit("C21", funcs=[X + "fix_nonpositive_semidefinite"])
def spectral_result(V):
    """whatever the input, the spectral repair gives every portfolio a non-negative variance"""
    n, A, framed, labels, M = setup(V)
    x = V.vec("x", n, gen=lambda r, n: [r.gauss(0, 1) for _ in range(n)])
    V.assume(V.not_(psd(V, n, lambda i, j: V.el(A, i, j))))
    r = V.call(V.mod("risk_models").fix_nonpositive_semidefinite, M)
    V.ensure("repaired", r.ok)
    if r.ok:
        q, U = V.eigh(A)
        V.ensure("variance as a sum of squares",
                 V.eq(quad(V, n, x, r.value),
                      V.sum(n, lambda k: V.max(V.el(q, k), 0) * V.sum(n, lambda i: V.el(x, i) * V.el(U, i, k)) ** 2)))
        V.sum_le("no portfolio has a negative variance", n, lambda k: 0,
                 lambda k: V.max(V.el(q, k), 0) * V.sum(n, lambda i: V.el(x, i) * V.el(U, i, k)) ** 2)
