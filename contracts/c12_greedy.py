"""C12: the greedy discrete allocation."""
from vf.contract import unit
from .common import *

D = "discrete_allocation.DiscreteAllocation."


def gshare(r, n):
    w = [r.choice([0.0, r.random(), r.random() ** 4]) for _ in range(n)]
    s = sum(w) or 1.0
    return [round(x / s, 4) - (0.0001 if i == 0 and x else 0) for i, x in enumerate(w)]


def gprice(r, n):
    return [r.choice([1.0, 2.5, 10.0, 0.3, r.uniform(5, 300)]) for _ in range(n)]


def wholeprice(r, n):
    return [r.choice([1, 2, 10, r.randint(5, 300)]) for _ in range(n)]


def book(V, gen, whole=False):
    n = V.dim("n")
    labels = V.labels("tick", n)
    w = V.vec("w", n, gen=gen, owner="weights")
    order = V.sublabels("prices", labels, n, n, perm=True)
    p = V.vec("p", n, lo=0, gen=wholeprice, py="i", owner="latest_prices") if whole else V.vec("p", n, lo=0, gen=gprice, owner="latest_prices")
    V.assume(V.forall(n, lambda i: V.gt(V.el(p, i), 0)))
    prices = V.series(p, order)
    val = V.real("value", gen=lambda r: r.choice([10000.0, 100.0, 7.0, r.uniform(50, 5000)]))
    V.assume(V.gt(val, 0))
    return n, labels, w, prices, val, lambda i: V.at(prices, V.lab(labels, i))


def shares(V, alloc, lab):
    return V.ite(V.has(alloc, lab), lambda: V.at(alloc, lab), 0)


@unit("C12", funcs=[D + "greedy_portfolio", D + "__init__", D + "_remove_zero_positions"])
def long_only(V):
    greedy(V, False)


@unit("C12", funcs=[D + "greedy_portfolio", D + "__init__", D + "_remove_zero_positions"])
def whole_number_prices(V):
    """prices given as integers are as good as any others"""
    greedy(V, True)


def greedy(V, whole):
    n, labels, w, prices, val, price = book(V, gshare, whole)
    V.assume(V.forall(n, lambda i: V.ge(V.el(w, i), 0)))
    V.assume(V.le(V.sum(n, lambda i: V.el(w, i)), 1))
    da = V.call(V.mod("discrete_allocation").DiscreteAllocation, V.mapping(labels, w, py="float"), prices, val)
    V.ensure("accepted", da.ok)
    if not da.ok:
        return
    r = V.call(da.value.greedy_portfolio)
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    alloc, left = r.value
    x = lambda i: shares(V, alloc, V.lab(labels, i))
    V.ensure("cost plus leftover is the portfolio value", V.eq(V.sum(n, lambda i: x(i) * price(i)) + left, val, tol=1e-7))
    V.ensure("nothing is overspent", V.ge(left, 0))
    V.ensure("whole numbers of shares", V.forall(n, lambda i: V.whole(x(i))))
    V.ensure("at least the rounded-down position", V.forall(n, lambda i: V.ge(x(i), V.floor(V.el(w, i) * val / price(i)))))
    V.ensure("the inputs are unchanged", len(V.mutated()) == 0)


def glongshort(r, n):
    w = [round(r.uniform(-1, 1), 4) for _ in range(n)]
    if r.random() < 0.3:
        w[r.randrange(n)] = 0.0
    return w


@unit("C12", funcs=[D + "greedy_portfolio", D + "__init__"])
def long_short(V):
    long_short_split(V, "greedy_portfolio", {})


def long_short_split(V, method, kw):
    n, labels, w, prices, val, price = book(V, glongshort)
    DA = V.mod("discrete_allocation").DiscreteAllocation
    neg = V.exists(n, lambda i: V.lt(V.el(w, i), 0))
    pos = V.exists(n, lambda i: V.gt(V.el(w, i), 0))
    V.assume(neg)
    V.assume(pos)
    args, ratio = (), V.sum(n, lambda i: V.ite(V.lt(V.el(w, i), 0), lambda: -V.el(w, i), 0))
    if V.bool("short ratio given"):
        ratio = V.real("ratio", lo=0, gen=lambda r: r.choice([0.3, 1.0]))
        V.assume(V.gt(ratio, 0))
        args = (ratio,)
    else:
        V.fact("the negative weights sum to a positive ratio", V.gt(ratio, 0))
    da = V.call(DA, V.mapping(labels, w, py="float"), prices, val, *args)
    V.ensure("accepted", da.ok)
    if not da.ok:
        return
    parts = []
    reinvest = V.bool("reinvest")
    run = getattr(DA, method)

    def part(self, *a, **k):
        i = len(parts)
        x = V.vec("shares%d" % i, n, lo=1, gen=lambda r, n: [r.choice([1, 3, 17]) for _ in range(n)], py="i")
        left = V.real("left%d" % i, lo=0, gen=lambda r: r.uniform(0, 50))
        parts.append((self, x, left, a, k))
        return V.submap(labels, x, lambda j: V.lt(V.el(w, j), 0) if i else V.gt(V.el(w, j), 0)), left
    V.patch(DA, method, part)
    r = V.call(run, da.value, *((True,) if reinvest else ()), **kw)
    V.ensure("returns", r.ok and len(parts) == 2)
    if not r.ok or len(parts) != 2:
        return
    (lo, xl, ll, al, kl), (sh, xs, ls, as_, ks) = parts
    alloc, left = r.value
    short = lambda i: V.lt(V.el(w, i), 0)
    tot = lambda s: V.sum(n, lambda i: V.ite(short(i), lambda: -V.el(w, i) if s else 0, lambda: 0 if s else V.el(w, i)))
    for s, o in ((0, lo), (1, sh)):
        name = "short" if s else "long"
        d = V.weights_of(o)
        V.ensure(name + " part holds the assets of its side", V.forall(n, lambda i: V.iff(V.has(d, V.lab(labels, i)), short(i) if s else V.not_(short(i)))))
        V.ensure(name + " part has normalised weights", V.forall(n, lambda i: V.implies(V.has(d, V.lab(labels, i)), lambda: V.eq(
            V.at(d, V.lab(labels, i)), (-V.el(w, i) if s else V.el(w, i)) / tot(s), tol=1e-9))))
        V.ensure(name + " part uses each asset's own price", V.forall(n, lambda i: V.implies(V.has(d, V.lab(labels, i)), lambda: V.eq(
            V.at(o.latest_prices, V.lab(labels, i)), price(i)))))
    V.scalar("long part's value", lo.total_portfolio_value, val + (val * ratio if reinvest else 0), tol=1e-9)
    V.scalar("short part's value", sh.total_portfolio_value, val * ratio, tol=1e-9)
    V.ensure("shares", V.forall(n, lambda i: V.eq(shares(V, alloc, V.lab(labels, i)), V.ite(short(i), lambda: -V.el(xs, i), lambda: V.ite(
        V.gt(V.el(w, i), 0), lambda: V.el(xl, i), 0)))))
    V.scalar("leftover", left, ll + ls)
    V.ensure("the inputs are unchanged", len(V.mutated()) == 0)


@unit("C12", funcs=[D + "__init__"])
def arguments(V):
    """a portfolio of non-NaN weights, non-NaN prices, a positive value and a non-negative short ratio, and no other"""
    n = V.dim("n")
    labels = V.labels("tick", n)
    w = V.vec("w", n, gen=glongshort)
    p = V.vec("p", n, lo=0, gen=gprice, nan="prices" if V.bool("a price may be missing") else None)
    val = V.real("value", gen=lambda r: r.choice([10000.0, -1.0, 0.0]))
    form = V.choice("weights", ["dict", "list", "array"])
    pform = V.choice("prices", ["series", "dict", "array"])
    ws = V.mapping(labels, w, py="float") if form == "dict" else V.aslist(w) if form == "list" else w
    ps = V.series(p, labels) if pform == "series" else V.mapping(labels, p) if pform == "dict" else p
    args = ()
    ratio = None
    if V.bool("short ratio given"):
        ratio = V.real("ratio", gen=lambda r: r.choice([0.0, 0.3, -0.1, 1.5]))
        args = (ratio,)
    r = V.call(V.mod("discrete_allocation").DiscreteAllocation, ws, ps, val, *args)
    good = V.and_(V.gt(val, 0), True if ratio is None else V.ge(ratio, 0), V.forall(n, lambda i: V.not_(V.isnan(p, i))))
    if form != "dict":
        V.ensure("weights must be a dict", (not r.ok) and r.raised("TypeError"))
    elif pform != "series":
        V.ensure("prices must be a series", (not r.ok) and r.raised("TypeError"))
    elif V.split(good):
        V.ensure("accepted", r.ok)
    else:
        V.ensure("refused", (not r.ok) and r.raised("TypeError", "ValueError"))
