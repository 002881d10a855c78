"""C22: covariance <-> correlation."""
from vf.contract import unit
from .common import *

X = "risk_models."


def setup(V, name="S"):
    n = V.dim("n")
    S = V.symmat(name, n, gen=gcov, owner="matrix")
    V.assume(V.forall(n, lambda i: V.gt(V.el(S, i, i), 0)))
    labels = V.labels("tick", n)
    framed = V.bool("framed")
    return n, S, labels, framed, V.frame(S, labels, labels) if framed else S


def out(V, name, r, n, labels, framed, f):
    V.ensure(name + ": returns", r.ok)
    if not r.ok:
        return
    V.matrix(name, r.value, n, n, f, tol=1e-9)
    if framed:
        V.frame_labels(name + ": labelled by asset", r.value, labels, labels)
    else:
        V.frame_labels(name + ": a frame", r.value, V.range_labels(n), V.range_labels(n))
        V.ensure(name + ": warns that the input is not a frame", V.warned("RuntimeWarning"))
    V.ensure(name + ": input unchanged", len(V.mutated()) == 0)


@unit("C22", funcs=[X + "cov_to_corr"])
def cov_to_corr(V):
    n, S, labels, framed, A = setup(V)
    r = V.call(V.mod("risk_models").cov_to_corr, A)
    sd = lambda i: V.sqrt(V.el(S, i, i))
    out(V, "correlations", r, n, labels, framed, lambda i, j: V.el(S, i, j) / (sd(i) * sd(j)))
    if r.ok:
        V.ensure("unit diagonal", V.forall(n, lambda i: V.eq(V.el(r.value, i, i), 1)))
        V.ensure("no warning for a frame", V.implies(framed, not V.warned("RuntimeWarning")))


@unit("C22", funcs=[X + "corr_to_cov"])
def corr_to_cov(V):
    n = V.dim("n")
    C = V.mat("C", n, n, gen=lambda r, n, m: gcov(r, n), owner="matrix")
    sd = V.vec("sd", n, lo=0, owner="sd")
    labels = V.labels("tick", n)
    framed = V.bool("framed")
    how = V.choice("sd form", ["array", "list", "series"])
    s = sd if how == "array" else V.aslist(sd) if how == "list" else V.series(sd, labels if framed else V.range_labels(n))
    r = V.call(V.mod("risk_models").corr_to_cov, V.frame(C, labels, labels) if framed else C, s)
    out(V, "covariances", r, n, labels, framed, lambda i, j: V.el(C, i, j) * V.el(sd, i) * V.el(sd, j))


@unit("C22", funcs=[X + "cov_to_corr", X + "corr_to_cov"])
def round_trip(V):
    n, S, labels, framed, A = setup(V)
    c = V.call(V.mod("risk_models").cov_to_corr, A)
    V.ensure("correlations", c.ok)
    if not c.ok:
        return
    sd = V.arr(n, lambda i: V.sqrt(V.el(S, i, i)))
    r = V.call(V.mod("risk_models").corr_to_cov, c.value, sd)
    out(V, "covariance restored", r, n, labels, framed, lambda i, j: V.el(S, i, j))
    if r.ok:
        k = V.call(V.mod("risk_models").cov_to_corr, r.value)
        V.ensure("again", k.ok)
        if k.ok:
            V.matrix("correlations restored", k.value, n, n, lambda i, j: V.el(c.value, i, j), tol=1e-9)
