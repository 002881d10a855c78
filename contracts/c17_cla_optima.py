"""C17: what the critical line algorithm returns, given its turning points (any list of weight vectors)."""
from vf.contract import unit
from .common import *

C = "cla.CLA."


def model(V, m_lo=1, m=None):
    n = V.dim("n", lo=3)
    mu = V.vec("mu", n, gen=gmu)
    S = V.symmat("S", n, gen=gcov)
    labels = V.labels("tick", n)
    cla = V.mod("cla").CLA(V.series(mu, labels), V.frame(S, labels, labels))
    m = V.dim("m", lo=m_lo) if m is None else m
    W = V.mat("W", m, n, gen=lambda r, m, n: [gw(r, n) for _ in range(m)])
    cla.w = V.columns(W)
    return n, m, mu, S, labels, cla, W


def gw(r, n):
    x = [r.choice([0, 0, 1]) * r.random() for _ in range(n)]
    x[r.randrange(n)] += 0.2
    return [y / sum(x) for y in x]


def var(V, n, S, w):
    return V.sum(n, lambda i: V.sum(n, lambda j: w(i) * V.el(S, i, j) * w(j)))


def ret(V, n, mu, w):
    return V.sum(n, lambda i: w(i) * V.el(mu, i))


@unit("C17", funcs=[C + "min_volatility"])
def min_volatility(V):
    n, m, mu, S, labels, cla, W = model(V)
    r = V.call(cla.min_volatility)
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    row = lambda k: (lambda i: V.el(W, k, i))
    k = V.which("the turning point of smallest variance", m,
                lambda k: V.forall(m, lambda j: V.le(var(V, n, S, row(k)), var(V, n, S, row(j)))),
                lambda k: V.forall(n, lambda i: V.eq(V.el(cla.weights, i), V.el(W, k, i))))
    V.wdict("in the order of the caller's assets", r.value, labels, lambda i: V.el(cla.weights, i))


def sharpe(V, n, mu, S, w):
    return ret(V, n, mu, w) / V.sqrt(var(V, n, S, w))


def between(V, W, k, t):
    """the portfolio t of the way from turning point k + 1 to turning point k"""
    return lambda i: t * V.el(W, k, i) + (1 - t) * V.el(W, k + 1, i)


@unit("C17", funcs=[C + "_eval_sr"])
def eval_sr(V):
    n, m, mu, S, labels, cla, W = model(V, m=2)
    t = V.real("t", lo=0, hi=1)
    V.assume(V.gt(var(V, n, S, between(V, W, 0, t)), 0))
    r = V.call(cla._eval_sr, t, cla.w[0], cla.w[1])
    V.ensure("returns", r.ok)
    if r.ok:
        V.scalar("Sharpe ratio of the convex combination", r.value, sharpe(V, n, mu, S, between(V, W, 0, t)))


@unit("C17", funcs=[C + "max_sharpe"])
def max_sharpe(V):
    n, m, mu, S, labels, cla, W = model(V, 2)
    K = V.mod("cla").CLA
    col = lambda k: V.arr2(n, 1, lambda i, j: V.el(W, k, i))
    tries = []
    if V.sym:
        best = lambda k: V.opaque("golden", col(k), col(k + 1))
        V.assume(V.forall(m - 1, lambda k: V.and_(V.ge(best(k), 0), V.le(best(k), 1))))

        def golden(self, obj, a, b, **k):
            """contract of _golden_section: a point of the interval and the objective there"""
            V.ensure("searches from one turning point to the next", V.and_(V.eq(a, 0), V.eq(b, 1)))
            V.ensure("maximises", k.get("minimum") is False)
            x = V.opaque("golden", *k["args"])
            return x, obj(x, *k["args"])
        V.patch(K, "_golden_section", golden)

        def eval_sr(self, t, w0, w1):
            """contract of _eval_sr: the Sharpe ratio of that combination, only compared here"""
            return V.opaque("sharpe", t, w0, w1)
        V.patch(K, "_eval_sr", eval_sr)
    else:
        real = K._golden_section

        def golden(self, obj, a, b, **k):
            tries.append(real(self, obj, a, b, **k))
            return tries[-1]
        V.patch(K, "_golden_section", golden)
        best = lambda k: tries[int(k)][0]
    r = V.call(cla.max_sharpe)
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    at = lambda k: between(V, W, k, best(k))
    value = lambda k: V.opaque("sharpe", best(k), col(k), col(k + 1)) if V.sym else sharpe(V, n, mu, S, at(k))
    if V.conc:
        V.ensure("one search between each two neighbours", len(tries) == m - 1)
        if len(tries) != m - 1:
            return
    V.which("the best of the maximisers between neighbours", m - 1,
            lambda k: V.forall(m - 1, lambda j: V.le(value(j), value(k))),
            lambda k: V.forall(n, lambda i: V.eq(V.el(cla.weights, i), at(k)(i))))
    V.wdict("in the order of the caller's assets", r.value, labels, lambda i: V.el(cla.weights, i))
    if V.conc and all(ret(V, n, mu, lambda i, k=k: V.el(W, k, i)) > 0 for k in range(m)):
        sr = sharpe(V, n, mu, S, lambda i: V.el(cla.weights, i))
        V.ensure("no sampled point of the frontier has a larger Sharpe ratio", all(
            sharpe(V, n, mu, S, between(V, W, k, q / 40)) <= sr + 1e-6 for k in range(m - 1) for q in range(41)))


@unit("C17", funcs=[C + "_golden_section"])
def golden_section(V):
    """ends inside the interval, at a probe at least as good as the first two, and reports the objective there"""
    lo = V.real("lo", gen=lambda r: r.choice([0.0, -1.0, 0.3]))
    wide = V.real("width", lo=0, gen=lambda r: r.choice([1.0, 0.25, 3.0]))
    V.assume(V.gt(wide, 0))
    hi = lo + wide
    top = V.bool("maximise")
    peak = V.real("peak", gen=lambda r: r.uniform(-1, 2))
    f = (lambda x, *a: V.fun("objective", x)) if V.sym else (lambda x, *a: (-1 if top else 1) * (x - peak) ** 2 + sum(a))
    s = -1 if top else 1
    sr = lambda x: s * f(x, *extra)
    extra = (V.real("argument", gen=lambda r: r.choice([0.0, 2.0])),)
    kind = {}

    def inv(L, i):
        d = {k: v for k, v in L._d.items() if k in L._changed and V.is_number(v)}
        if not kind:
            kind["points"] = [k for k, v in d.items() if V.known(V.and_(V.le(lo, v), V.le(v, hi)))]
            kind["values"] = [(k, p) for k, v in d.items() for p in kind["points"] if k != p and V.known(V.eq(v, sr(d[p])))]
            kind["first"] = [d[k] for k, _ in kind["values"]]
        yield "the points stay in the interval", V.and_(*[V.and_(V.le(lo, d[k]), V.le(d[k], hi)) for k in kind["points"]])
        yield "the values are those of the points", V.and_(*[V.eq(d[k], sr(d[p])) for k, p in kind["values"]])
        yield "no worse than the first probes", V.and_(*[V.or_(*[V.le(d[k], b) for k, _ in kind["values"]]) for b in kind["first"]])
    V.loop("CLA._golden_section", 0, lambda L, i: None, inv, small=True)
    cla = model(V, 2)[5]
    r = V.call(cla._golden_section, f, lo, hi, minimum=not top, args=extra) if top or V.bool("say so") \
        else V.call(cla._golden_section, f, lo, hi, args=extra)
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    x, y = r.value
    V.ensure("inside the interval", V.and_(V.le(lo, x), V.le(x, hi)))
    V.scalar("the objective there", y, f(x, *extra))
    g = V.q("0.618033989")
    for p in (g * lo + (1 - g) * hi, (1 - g) * lo + g * hi):
        V.ensure("no worse than the first probes", V.le(sr(x), sr(p)) if V.sym else sr(x) <= sr(p) + 1e-9)
    if V.conc:
        z = min(max(peak, lo), hi)
        V.ensure("near the optimum of a unimodal objective", abs(x - z) < 1e-5 * max(1, wide))


@unit("C17", funcs=[C + "efficient_frontier"])
def frontier(V):
    """every point is t of the way between neighbouring turning points, t evenly spaced, with its own mean and volatility"""
    n, m, mu, S, labels, cla, W = model(V, 2)
    points = V.int("points", lo=1, gen=lambda r: r.randrange(4, 30))
    V.assume(V.ge(points, m))
    k = points // m
    V.fact("at least one point", V.ge(k, 1))
    K = k - 1                        # new points on every segment; the last one has its end as well
    total = (m - 1) * K + 1
    along = lambda p: V.ite(V.eq(k - 1, 0), lambda: V.q("0"), lambda: p / (k - 1))
    at = lambda b, p: (lambda i: (1 - along(p)) * V.el(W, b, i) + along(p) * V.el(W, b + 1, i))
    g = {}

    def entry(L, N, q, b, p):
        """element q of the three lists is point p of segment b"""
        w = at(b, p)
        V_ = lambda x: V.item(x, q)
        return [("segment", V.and_(V.le(0, b), V.lt(b, m - 1))), ("position", V.and_(V.le(0, p), V.lt(p, k), V.eq(q, b * K + p))),
                ("weights", V.forall(n, lambda i: V.eq(V.el(V_(L.weights), i, 0), w(i)))),
                ("mean", V.eq(V_(L.mu), ret(V, n, mu, w))),
                ("volatility", V.eq(V_(L.sigma), V.sqrt(var(V, n, S, w))))]

    def listed(L, count):
        N = V.length(L.mu)
        yield "as many points", V.and_(V.eq(N, count), V.eq(V.length(L.sigma), N), V.eq(V.length(L.weights), N))
        if L._phase == "start" and "b" not in g:
            return
        for x, name in enumerate(("segment", "position", "weights", "mean", "volatility")):
            yield name, V.forall(N, lambda q: entry(L, N, q, g["b"](q), g["p"](q))[x][1])

    def state(L, count):
        u = V.fresh()
        b, p = (lambda q: V.unknown(u + "b", q, sort="int")), (lambda q: V.unknown(u + "p", q, sort="int"))
        g.update(b=b, p=p)
        col = lambda q: V.arr2(n, 1, lambda i, j: at(b(q), p(q))(i))
        V.listing(L.weights, count, col)
        V.listing(L.mu, count, lambda q: ret(V, n, mu, at(b(q), p(q))))
        V.listing(L.sigma, count, lambda q: V.sqrt(var(V, n, S, at(b(q), p(q)))))

    def grid(L):
        return {x: v for x, v in L._d.items() if x in L._changed and V.is_ndarray(v) and V.rank(v) == 1}

    def outer_count(i):
        return V.ite(V.lt(i, m - 1), lambda: i * K, lambda: total)

    def outer_state(L, i):
        g["i"] = V.num(i)
        state(L, outer_count(V.num(i)))
        return {} if L._last else dict(g["grid"])

    def outer(L, i):
        if L._phase == "start":
            g["grid"] = grid(L)
        yield from listed(L, outer_count(V.num(i)))
        if not L._last:
            for x, v in g["grid"].items():
                yield "the grid is the same until the last segment", V.implies(V.lt(V.num(i), m - 1), lambda: V.same_array(getattr(L, x), v))

    def inner_state(L, j):
        state(L, g["i"] * K + V.num(j))

    def inner(L, j):
        if L._phase == "after":
            N, b, p = g["i"] * K + V.num(j) - 1, g["b"], g["p"]
            g["b"] = lambda q: V.ite(V.lt(q, N), b(q), g["i"])
            g["p"] = lambda q: V.ite(V.lt(q, N), p(q), V.num(j) - 1)
        yield from listed(L, g["i"] * K + V.num(j))

    lists = lambda L: [L.mu, L.sigma, L.weights]
    V.loop("CLA.efficient_frontier", 0, outer_state, outer, lists)
    V.loop("CLA.efficient_frontier", 1, inner_state, inner, lists)
    r = V.call(cla.efficient_frontier, points=points)
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    a, b, c = r.value
    V.ensure("as many points as asked for", V.and_(*[V.eq(V.length(x), total) for x in (a, b, c)]))
    V.ensure("the values are kept", all(x is y for x, y in zip(cla.frontier_values, r.value)))

    class R:
        mu, sigma, weights = a, b, c
    if not V.sym or V.small:
        g["b"] = lambda q: V.ite(V.gt(K, 0), lambda: V.min(V.floor(q / V.max(K, 1)), m - 2), lambda: m - 2)
        g["p"] = lambda q: q - g["b"](q) * K
    for x, name in enumerate(("segment", "position", "weights", "mean", "volatility")):
        V.ensure(name, V.forall(total, lambda q: entry(R, total, q, g["b"](q), g["p"](q))[x][1]))
