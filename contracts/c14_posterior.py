"""C14: Black-Litterman posteriors.

A = P tau Sigma P' + Omega.  With y solving A y = Q - P pi and Y solving A Y = P tau Sigma
  posterior mean        E = pi + tau Sigma P' y                 Omega y = Q - P E
  posterior covariance  Sigma + M,  M = tau Sigma - tau Sigma P' Y     Omega Y = P M
i.e. E = pi + tau Sigma P' Omega^-1 (Q - P E) and M + tau Sigma P' Omega^-1 P M = tau Sigma: the normal equations
[(tau Sigma)^-1 + P' Omega^-1 P] E = (tau Sigma)^-1 pi + P' Omega^-1 Q and the inverse of their matrix, premultiplied by
tau Sigma.  When A is singular y and Y are the least-squares solutions."""
from vf.contract import unit
from .common import *

B = "black_litterman.BlackLittermanModel."


def gP(r, k, n):
    return [[r.choice([0, 1, -1, 0.5, 0.25]) for _ in range(n)] for _ in range(k)]


def gdup(r, n, m=None):
    """covariances of assets some of which are duplicates: singular"""
    import numpy as np
    C = np.array(gcov(r, n))
    if n > 1 and r.random() < 0.5:
        p = [r.randrange(max(1, n - 1)) for _ in range(n)]
        C = np.round(C, 3)[np.ix_(p, p)]
    return C.tolist()


class Model:
    def __init__(self, V, sigma=gcov, Q=None, zero=False):
        self.n = n = V.dim("n")
        self.k = k = V.dim("K")
        self.S = V.symmat("S", n, gen=sigma, owner="cov_matrix")
        self.pi = V.vec("pi", n, gen=gmu, owner="pi")
        self.P = V.mat("P", k, n, gen=gP, owner="P")
        self.Q = V.vec("Q", k, gen=gmu, owner="Q") if Q is None else Q(self)
        self.O = V.symmat("Omega", k, owner="omega", gen=lambda r, n, m=None: [
            [(0 if zero and r.random() < 0.7 else r.uniform(0.001, 0.1)) if i == j else 0 for j in range(n)] for i in range(n)])
        self.tau = V.real("tau", lo=0.001, hi=1, gen=lambda r: r.choice([0.05, 0.5, 1.0]))
        self.framed = V.bool("framed")
        self.labels = V.labels("tick", n) if self.framed else V.range_labels(n)
        self.delta = V.real("delta", lo=0.1, gen=lambda r: r.choice([1.0, 2.5]))
        f = self.framed
        self.cov = V.frame(self.S, self.labels, self.labels) if f else self.S
        self.args = dict(pi=V.series(self.pi, self.labels) if f else self.pi, Q=self.Q, P=self.P, omega=self.O,
                         tau=self.tau, risk_aversion=self.delta)
        r = V.call(V.mod("black_litterman").BlackLittermanModel, self.cov, **self.args)
        V.ensure("constructed", r.ok)
        self.ok, self.m = r.ok, r.value
        el = V.el
        self.ts = lambda i, j: self.tau * el(self.S, i, j)
        self.tsp = lambda i, q: self.tau * V.sum(n, lambda j: el(self.S, i, j) * el(self.P, q, j))          # tau Sigma P'
        self.A = V.arr2(k, k, lambda a, b: V.sum(n, lambda i: el(self.P, a, i) * self.tsp(i, b)) + el(self.O, a, b))
        self.b = V.arr(k, lambda a: el(self.Q, a) - V.sum(n, lambda i: el(self.P, a, i) * el(self.pi, i)))


def solution(V, A, b):
    """what the linear algebra gives for A x = b, and whether A is singular"""
    try:
        return V.np.linalg.solve(A, b), False
    except V.np.linalg.LinAlgError:
        return V.np.linalg.lstsq(A, b, rcond=None)[0], True


def usable(V, A):
    """concrete runs: A well-conditioned, or singular beyond the reach of rounding"""
    if V.conc:
        A = V.np.asarray(A)
        V.assume(V.np.linalg.cond(A) < 1e8 or bool((A == 0).all(axis=1).any()))


def fits(V, A, x, b, k):
    """contract of np.linalg.solve: A x = b"""
    V.fact_of_library("solve", V.forall(k, lambda a: V.eq(V.sum(k, lambda c: V.el(A, a, c) * V.el(x, c)), V.el(b, a), 1e-6)))


@unit("C14", funcs=[B + "bl_returns", B + "__init__"])
def mean(V):
    z = Model(V, zero=True)
    if not z.ok:
        return
    usable(V, z.A)
    r = V.call(z.m.bl_returns)
    V.ensure("posterior returns", r.ok)
    if not r.ok:
        return
    y, singular = solution(V, z.A, z.b)
    E, n, k = r.value, z.n, z.k
    V.ensure("a Series", V.is_series(E))
    V.ensure("labelled by asset", V.labels_eq(V.index(E), z.labels))
    V.vector("posterior mean", E, n, lambda i: V.el(z.pi, i) + V.sum(k, lambda a: z.tsp(i, a) * V.el(y, a)), tol=1e-6)
    if not singular:
        fits(V, z.A, y, z.b, k)
        V.ensure("balances prior and views", V.forall(k, lambda a: V.eq(
            V.sum(k, lambda c: V.el(z.O, a, c) * V.el(y, c)),
            V.el(z.Q, a) - V.sum(n, lambda i: V.el(z.P, a, i) * V.el(E, i)), 1e-6)))
    again = V.call(z.m.bl_returns)
    V.ensure("asked again", again.ok)
    if again.ok:
        V.vector("the same", again.value, n, lambda i: V.el(E, i), tol=0)
    V.ensure("the inputs are unchanged", len(V.mutated()) == 0)


@unit("C14", funcs=[B + "bl_returns"])
def no_news(V):
    """views that say what the prior says leave it as it is"""
    z = Model(V, Q=lambda z: V.arr(z.k, lambda a: V.sum(z.n, lambda i: V.el(z.P, a, i) * V.el(z.pi, i))))
    if z.ok:
        r = V.call(z.m.bl_returns)
        V.ensure("posterior returns", r.ok)
        if r.ok:
            V.vector("the prior", r.value, z.n, lambda i: V.el(z.pi, i), tol=1e-8)


@unit("C14", funcs=[B + "bl_cov"])
def covariance(V):
    z = Model(V, zero=True)
    if not z.ok:
        return
    usable(V, z.A)
    r = V.call(z.m.bl_cov)
    V.ensure("posterior covariance", r.ok)
    if not r.ok:
        return
    n, k, C = z.n, z.k, r.value
    R = V.arr2(k, n, lambda a, j: z.tsp(j, a))
    Y, singular = solution(V, z.A, R)
    V.ensure("a frame", V.is_frame(C))
    V.frame_labels("labelled by asset", C, z.labels, z.labels)
    M = lambda i, j: z.ts(i, j) - V.sum(k, lambda a: z.tsp(i, a) * V.el(Y, a, j))
    V.matrix("posterior covariance", C, n, n, lambda i, j: V.el(z.S, i, j) + M(i, j), tol=1e-6)
    V.ensure("symmetric", V.forall(n, lambda i: V.forall(n, lambda j: V.eq(V.el(C, i, j), V.el(C, j, i), 1e-6))))
    if not singular:
        V.fact_of_library("solve", V.forall(k, lambda a: V.forall(n, lambda j: V.eq(
            V.sum(k, lambda c: V.el(z.A, a, c) * V.el(Y, c, j)), V.el(R, a, j), 1e-6))))
        V.ensure("inverse of the posterior precision", V.forall(k, lambda a: V.forall(n, lambda j: V.eq(
            V.sum(k, lambda c: V.el(z.O, a, c) * V.el(Y, c, j)),
            V.sum(n, lambda i: V.el(z.P, a, i) * (V.el(C, i, j) - V.el(z.S, i, j))), 1e-6))))
    V.ensure("the inputs are unchanged", len(V.mutated()) == 0)


@unit("C14", funcs=[B + "bl_weights", B + "optimize"])
def weights(V):
    """(delta Sigma)^-1 times the posterior mean, rescaled to sum to one; least squares when Sigma is singular"""
    z = Model(V, sigma=gdup)
    if not z.ok:
        return
    n = z.n
    if V.sym:
        # bl_returns by its contract (the units above): some labelled vector
        m0 = V.series(V.vec("posterior_mean", n), z.labels)
        z.m.bl_returns = lambda: m0
    E = V.call(z.m.bl_returns).value
    how = V.choice("call", ["bl_weights", "optimize", "given", "optimize given"])
    d = z.delta
    a = ()
    if "given" in how:
        d = V.real("risk aversion", lo=0.1, gen=lambda r: r.choice([1.0, 4.0]))
        a = (d,)
    x, singular = solution(V, V.arr2(n, n, lambda i, j: d * V.el(z.S, i, j)), V.arr(n, lambda i: V.el(E, i)))
    s = V.sum(n, lambda i: V.el(x, i))
    V.assume(V.not_(V.eq(s, 0)) if V.sym else abs(s) > 1e-6)
    r = V.call(z.m.optimize if how.startswith("optimize") else z.m.bl_weights, *a)
    V.ensure("weights", r.ok)
    if not r.ok:
        return
    V.wdict("implied weights", r.value, z.labels, lambda i: V.el(x, i) / s, tol=1e-6)
    V.vector("stored", z.m.weights, n, lambda i: V.el(x, i) / s, tol=1e-6)
    V.ensure("fully invested", V.eq(V.sum(n, lambda i: V.el(z.m.weights, i)), 1, 1e-6))
    V.ensure("the posterior is reported", V.is_series(z.m.posterior_rets))
    V.vector("posterior used", z.m.posterior_rets, n, lambda i: V.el(E, i), tol=1e-9)
    V.ensure("the inputs are unchanged", len(V.mutated()) == 0)
