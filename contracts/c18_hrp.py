"""C18: hierarchical risk parity. share(s, e, p) is the part of the weight of order[s:e] that recursive bisection gives to
position p, for arbitrary positive cluster variances v(s, e)."""
from vf.contract import unit
from .common import *

H = "hierarchical_portfolio.HRPOpt."


class Bisect:
    """the specification, for the cluster variances v"""

    def __init__(self, V, v):
        self.V, self.v = V, v

    def share(self, s, e, p):
        V = self.V
        return V.fun("share", s, e, p) if V.sym and not V.small else self.step(s, e, p)

    def unfold(self, s, e, p):
        """the definition of share at one place"""
        return self.V.eq(self.share(s, e, p), self.step(s, e, p))

    def mid(self, s, e):
        return s + self.V.half(e - s)

    def factor(self, s, e, p):
        v, h = self.v, self.mid(s, e)
        return self.V.ite(self.V.lt(p, h), lambda: 1 - v(s, h) / (v(s, h) + v(h, e)), lambda: v(s, h) / (v(s, h) + v(h, e)))

    def step(self, s, e, p):
        V, h = self.V, self.mid(s, e)
        return V.ite(V.gt(e - s, 1), lambda: self.factor(s, e, p) *
                     V.ite(V.lt(p, h), lambda: self.share(s, h, p), lambda: self.share(h, e, p)), lambda: V.one())


def risk(V, S, idx):
    """variance of the inverse-variance portfolio of the assets idx"""
    tot = sum(1 / V.el(S, i, i) for i in idx)
    return sum(V.el(S, i, j) / (V.el(S, i, i) * V.el(S, j, j)) for i in idx for j in idx) / (tot * tot)


@unit("C18", funcs=[H + "_raw_hrp_allocation"])
def raw_allocation(V):
    n = V.dim("n", lo=2)
    labels = V.labels("tick", n)
    S = V.symmat("S", n, gen=gcov)
    cov = V.frame(S, labels, labels)
    order = labels if V.sym else V.shuffled(labels)
    hp = V.mod("hierarchical_portfolio")
    if V.sym and not V.small:
        v = lambda s, e: V.fun("v", s, e)
        b = Bisect(V, v)

        def cluster_var(c, items):
            V.ensure("cluster variances use the given covariance", c is cov)
            q, s, e = V.segment(items, order)
            V.ensure("cluster variances are taken of consecutive assets", V.and_(V.ge(s, 0), V.lt(s, e), V.le(e, n)))
            return v(s, e)
        V.patch(hp.HRPOpt, "_get_cluster_var", staticmethod(cluster_var))
        loops(V, b, n, order)
    else:
        pos = [list(labels).index(t) for t in order] if not V.sym else list(range(V.size(n)))
        v = lambda s, e: risk(V, S, pos[V.size(s):V.size(e)])
        b = Bisect(V, v)
    r = V.call(hp.HRPOpt._raw_hrp_allocation, cov, order)
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    V.ensure("one weight per asset, in the order given", V.labels_eq(r.value, order))
    V.ensure("weights by recursive bisection",
             V.forall(n, lambda p: V.eq(V.at(r.value, V.lab(order, p)), b.share(0, n, p))))


def loops(V, b, n, order):
    g = {}
    every = lambda f: V.forall(n, f)
    W = lambda L: getattr(L, L.only(V.is_series))

    def groups(L):
        if "groups" not in g:       # the list of clusters is there when the loop starts
            g["groups"] = L.only(lambda x: isinstance(x, list), changed=True)
        return g["groups"]

    def outer_state(L, i):
        u = V.fresh()
        for k in ("a", "b", "c"):
            g[k] = lambda p, k=k: V.unknown(u + k, p, sort="int")
        g["w"] = lambda p: V.unknown(u + "w", p)
        m = V.unknown(u + "m", sort="int")
        V.assume(V.ge(m, 0))
        g["m"], g["s"], g["e"] = m, lambda c: V.unknown(u + "s", c, sort="int"), lambda c: V.unknown(u + "e", c, sort="int")
        V.content(W(L), g["w"])
        V.assume(every(lambda p: b.unfold(g["a"](p), g["b"](p), p)))
        return {groups(L): V.seq(m, lambda c: V.slice(order, g["s"](c), g["e"](c)))}

    def now(L):
        """the current clusters, as segments"""
        cl = getattr(L, groups(L))
        return V.length(cl), (lambda c: V.segment(V.item(cl, c), order))

    def outer(L, i):
        if "a" not in g:                    # at the start everything is in cluster 0
            a, e, c = (lambda p: 0), (lambda p: n), (lambda p: 0)
            st = {"a": a, "b": e, "c": c}
        elif "done" not in g:
            st = g
        else:                               # after a round: every cluster of two or more assets has been halved
            mid, big = (lambda p: b.mid(g["a"](p), g["b"](p))), (lambda p: V.gt(g["b"](p) - g["a"](p), 1))
            left = lambda p: V.lt(p, mid(p))
            st = {"a": lambda p: V.ite(V.and_(big(p), V.not_(left(p))), mid(p), g["a"](p)),
                  "b": lambda p: V.ite(V.and_(big(p), left(p)), mid(p), g["b"](p)),
                  "c": lambda p: 2 * V.rank_of(g["c"](p)) + V.ite(left(p), 0, 1)}
        m, seg = now(L)
        A, B, C = st["a"], st["b"], st["c"]
        w = lambda p: V.el(W(L), p)
        yield "every position has a cell", every(lambda p: V.and_(V.le(0, A(p)), V.le(A(p), p), V.lt(p, B(p)), V.le(B(p), n)))
        yield "weight times share", every(lambda p: V.eq(w(p) * b.share(A(p), B(p), p), b.share(0, n, p)))
        yield "clusters are segments", V.forall(m, lambda c: V.and_(*[V.and_(q, V.le(0, s), V.lt(s, e), V.le(e, n))
                                                                      for q, s, e in [seg(c)]]))
        yield "clusters are cells", V.forall(m, lambda c: every(lambda p: V.implies(
            V.and_(V.le(seg(c)[1], p), V.lt(p, seg(c)[2])),
            lambda: V.and_(V.eq(A(p), seg(c)[1]), V.eq(B(p), seg(c)[2]), V.eq(C(p), c)))))
        yield "larger cells are clusters", every(lambda p: V.or_(V.eq(B(p) - A(p), 1), V.and_(
            V.le(0, C(p)), V.lt(C(p), m), V.eq(seg(C(p))[1], A(p)), V.eq(seg(C(p))[2], B(p)))))

    def weights(i):
        big = lambda p: V.gt(g["b"](p) - g["a"](p), 1)
        return lambda p: V.ite(V.and_(big(p), V.lt(V.rank_of(g["c"](p)), i)),
                               lambda: g["w"](p) * b.factor(g["a"](p), g["b"](p), p), lambda: g["w"](p))

    def inner_state(L, i):
        V.content(W(L), weights(i))

    def inner(L, i):
        g["done"] = True
        f = weights(V.num(i))
        yield "weights of the halves done", every(lambda p: V.eq(V.el(W(L), p), f(p)))

    V.loop("HRPOpt._raw_hrp_allocation", 0, outer_state, outer, lambda L: [V.store(W(L))])
    V.loop("HRPOpt._raw_hrp_allocation", 1, inner_state, inner, lambda L: [V.store(W(L))])


@unit("C18", funcs=[H + "_raw_hrp_allocation"])
def shares_lemma(V):
    """induction step over the size of a cluster: the shares are positive and sum to one if those of both halves are and do"""
    size = V.dim("size", lo=1)
    s, e = V.num(0), V.num(size)
    if V.sym:
        v = lambda a, b: V.fun("v", a, b)
        b = Bisect(V, v)
        h = b.mid(s, e)
        V.assume(V.and_(V.gt(v(s, h), 0), V.gt(v(h, e), 0)))
        if V.split(V.gt(size, 1)):
            for x, y in ((s, h), (h, e)):
                V.assume(V.eq(V.sum(y - x, lambda k: b.share(x, y, x + k)), 1))
                V.assume(V.forall(y - x, lambda k: V.gt(b.share(x, y, x + k), 0)))
            V.split_sum(size, h, lambda p: b.step(s, e, p))
    else:
        t = V.mat("v", size + 1, size + 1, lo=0.01, hi=2.0)
        b = Bisect(V, lambda a, c: V.el(t, a, c))
    V.ensure("shares sum to one", V.eq(V.sum(size, lambda p: b.step(s, e, p)), 1))
    V.ensure("shares are positive", V.forall(size, lambda p: V.gt(b.step(s, e, p), 0)))


@unit("C18", funcs=[H + "_get_cluster_var"])
def cluster_variance(V):
    """variance of the inverse-variance portfolio of the listed assets, wherever they stand in the covariance"""
    n, k = V.dim("n"), V.dim("k")
    labels = V.labels("tick", n)
    S = V.symmat("S", n, gen=gcov)
    V.assume(V.forall(n, lambda i: V.gt(V.el(S, i, i), 0)))
    V.assume(V.le(k, n))
    items, at = V.subset("chosen", labels, n, k)
    r = V.call(V.mod("hierarchical_portfolio").HRPOpt._get_cluster_var, V.frame(S, labels, labels), items)
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    C = lambda i, j: V.el(S, at(i), at(j))
    tot = V.sum(k, lambda i: 1 / C(i, i))
    V.scalar("variance of the inverse-variance portfolio", r.value,
             V.sum(k, lambda i: V.sum(k, lambda j: C(i, j) / (C(i, i) * C(j, j)))) / (tot * tot))


def allocation(V, labels, n, seen):
    """contract of _raw_hrp_allocation (proved above): a positive weight for every asset of the order, one in total"""
    real = V.mod("hierarchical_portfolio").HRPOpt._raw_hrp_allocation

    def f(cov, order):
        seen.append((cov, order))
        if not V.sym:
            return real(cov, order)
        w = V.unknown_vec("raw weight", n)
        V.assume(V.forall(n, lambda i: V.gt(V.el(w, i), 0)))
        V.assume(V.eq(V.sum(n, lambda i: V.el(w, i)), 1))
        return V.series(w, order)
    V.patch(V.mod("hierarchical_portfolio").HRPOpt, "_raw_hrp_allocation", staticmethod(f))


def clusters(V, trees):
    """records the calls of scipy's linkage"""
    real = V.lib("scipy.cluster.hierarchy", "linkage")

    def f(y, method="single", **k):
        r = real(y, method, **k)
        trees.append((y, method, r))
        return r
    V.patch_lib("scipy.cluster.hierarchy", "linkage", f)


METHODS = ("single", "complete", "average", "weighted", "centroid", "median", "ward")


def optimise(name, given):
    def f(V):
        n = V.dim("n", lo=2)
        labels = V.labels("tick", n)
        hp = V.mod("hierarchical_portfolio")
        if given == "covariance":
            S = V.symmat("S", n, gen=gcov)
            cov = V.frame(S, labels, labels)
            C = lambda i, j: V.el(S, i, j)
            o = hp.HRPOpt(cov_matrix=cov)
        else:
            T = V.dim("T", lo=3)
            R, x, m = V.centred("R", T, n, gen=grets)
            o = hp.HRPOpt(V.frame(R, V.datelabels(T), labels))
            C = lambda i, j: V.sum(T, lambda t: x(t, i) * x(t, j)) / (T - 1)
        V.assume(V.forall(n, lambda i: V.gt(C(i, i), 0)))
        meth = V.choice("method", METHODS if given == "covariance" else ("single", "ward"))
        seen, trees = [], []
        allocation(V, labels, n, seen)
        clusters(V, trees)
        r = V.call(o.optimize, meth)
        V.ensure("returns", r.ok)
        if not r.ok:
            return
        V.ensure("clustered once, by the requested method", len(trees) == 1 and trees[0][1] == meth)
        V.ensure("the clusters are kept", o.clusters is trees[0][2])
        if given == "covariance":
            rho = lambda i, j: V.round(C(i, j) / V.sqrt(C(i, i)) / V.sqrt(C(j, j)), 6)
        else:
            P = lambda i, j: V.sum(T, lambda t: x(t, i) * x(t, j))
            rho = lambda i, j: P(i, j) / V.sqrt(P(i, i) * P(j, j))
        d = lambda i, j: V.sqrt(V.max(0, V.min(1, (1 - rho(i, j)) / 2)))
        V.ensure("clustered by correlation distance", V.forall(n, lambda i: V.forall(n, lambda j: V.implies(
            V.lt(i, j), lambda: V.close(V.condensed(trees[0][0], n, i, j), d(i, j), 1e-3)))))
        V.ensure("one allocation", len(seen) == 1)
        cov, order = seen[0]
        V.matrix("the allocation uses the covariance", cov, n, n, C)
        V.ensure("of the caller's assets", V.labels_eq(cov.index, labels))
        leaf = V.leaves(trees[0][2])
        V.ensure("in the order of the leaves", V.forall(n, lambda i: V.lab_eq(V.lab(order, i), V.lab(labels, V.item(leaf, i)))))
        w = r.value
        V.ensure("an OrderedDict", V.is_odict(w))
        V.ensure("one entry for each asset", V.and_(V.eq(V.length(V.keys(w)), n), V.forall(n, lambda i: V.has(w, V.lab(labels, i)))))
        V.ensure("positive", V.forall(n, lambda i: V.gt(V.at(w, V.lab(labels, i)), 0)))
        V.scalar("fully invested", V.sum(n, lambda i: V.at(w, V.lab(labels, V.item(leaf, i)))), V.one())
        V.vector("the weights are kept in the caller's order", o.weights, n, lambda i: V.at(w, V.lab(labels, i)))
    f.__name__ = name
    f.__module__ = __name__
    unit("C18", funcs=[H + "optimize", H + "__init__", H + "_get_quasi_diag"])(f)


optimise("optimize_covariance", "covariance")
optimise("optimize_returns", "returns")


@unit("C18", funcs=[H + "optimize", H + "__init__"])
def refusals(V):
    n, T = V.dim("n", lo=2), V.dim("T", lo=3)
    labels = V.labels("tick", n)
    hp = V.mod("hierarchical_portfolio")
    S, R = V.symmat("S", n, gen=gcov), V.mat("R", T, n, gen=grets)
    expect_raises(V, "nothing to work from", V.call(hp.HRPOpt), "ValueError")
    expect_raises(V, "returns that are not a DataFrame", V.call(hp.HRPOpt, R), "TypeError")
    o = hp.HRPOpt(cov_matrix=V.frame(S, labels, labels))
    for m in ("", "Single", "ward ", "kmeans", None):
        expect_raises(V, "unknown linkage method", V.call(o.optimize, linkage_method=m), "ValueError")
    V.ensure("no weights after a refusal", o.weights is None)
