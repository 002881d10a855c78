"""shared specification helpers"""


def gvec(lo=None, hi=None):
    def g(r, n):
        return [r.uniform(lo, hi) for _ in range(n)]
    return g


def gmu(r, n):
    return [round(r.gauss(0.08, 0.12), 4) for _ in range(n)]


def gcov(r, n, m=None):
    """random positive definite matrix"""
    import numpy as np
    k = n + 3
    A = np.array([[r.gauss(0, 0.2) for _ in range(k)] for _ in range(n)])
    S = A @ A.T / k * 3 + 0.002 * np.eye(n)
    return ((S + S.T) / 2).tolist()


def gprices(r, T, n):
    rows, p = [], [r.uniform(5, 200) for _ in range(n)]
    for _ in range(T):
        rows.append(list(p))
        p = [max(0.5, x * (1 + r.gauss(0.001, 0.03))) for x in p]
    return rows


def grets(r, T, n):
    return [[round(r.gauss(0.0007, 0.02), 6) for _ in range(n)] for _ in range(T)]


def dot(V, n, w, mu):
    return V.sum(n, lambda i: V.el(w, i) * V.el(mu, i))


def quad(V, n, w, S):
    return V.sum(n, lambda i: V.sum(n, lambda j: V.el(w, i) * V.el(S, i, j) * V.el(w, j)))


def total(V, n, w):
    return V.sum(n, lambda i: V.el(w, i))


def boxed(V, n, w, lo, hi):
    return V.and_(V.forall(n, lambda i: V.ge(V.el(w, i), V.el(lo, i))),
                  V.forall(n, lambda i: V.le(V.el(w, i), V.el(hi, i))))


def wvar(V, rec, ef):
    """the weights variable of an optimiser"""
    return ef._w


def expect_raises(V, name, res, *excs):
    V.ensure(name, (not res.ok) and res.raised(*excs))
