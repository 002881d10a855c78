"""C16: the critical line algorithm. Each function of the algorithm is put under contract; _solve is checked against the contracts."""
from vf.contract import unit
from .common import *

C = "cla.CLA."


def problem(V, k, bounded):
    """the quantities of one step: k free weights; b weights at a bound when bounded"""
    SF = V.symmat("SF", k, gen=gcov)
    INV = V.inverse(SF)
    mu = V.vec("muF", k, gen=gmu)
    lam = V.real("lam", lo=0, gen=lambda r: r.choice([0.0, r.random(), 3 * r.random()]))
    one = lambda i: 1
    if bounded:
        b = V.dim("b")
        FB = V.mat("SFB", k, b, gen=lambda r, k, b: [[r.uniform(-0.01, 0.02) for _ in range(b)] for _ in range(k)])
        wB = V.vec("wB", b, gen=lambda r, b: [r.choice([0, 0.1, r.uniform(-0.2, 0.3)]) for _ in range(b)])
        pull = lambda i: V.sum(b, lambda j: V.el(FB, i, j) * V.el(wB, j))
        fixed = V.sum(b, lambda j: V.el(wB, j))
        args = (V.arr2(k, b, lambda i, j: V.el(FB, i, j)), V.arr2(k, 1, lambda i, j: V.el(mu, i)), V.arr2(b, 1, lambda i, j: V.el(wB, i)))
    else:
        pull, fixed = (lambda i: 0), 0
        args = (None, V.arr2(k, 1, lambda i, j: V.el(mu, i)), None)
    for x in (one, lambda i: V.el(mu, i), pull):        # what an inverse is
        V.inverts(SF, INV, x)
    V.assume(V.gt(V.sum(k, lambda i: V.sum(k, lambda j: V.el(INV, i, j))), 0))        # SF is positive definite
    cla = V.mod("cla").CLA(V.series(V.vec("mean", k), V.labels("tick", k)), V.frame(SF, V.labels("tick", k), V.labels("tick", k)))
    return SF, INV, mu, lam, pull, fixed, args, cla


@unit("C16", funcs=[C + "_compute_w"])
def free_weights(V):
    """the weights solve  SF w + SFB wB = lambda mu + gamma 1,  1'w + 1'wB = 1"""
    k = V.dim("k")
    SF, INV, mu, lam, pull, fixed, args, cla = problem(V, k, V.bool("some at a bound"))
    cla.ls = [lam]
    r = V.call(cla._compute_w, INV, *args)
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    w, g = r.value
    V.ensure("one weight per free asset", V.and_(V.eq(V.dimof(w, 0), k), V.eq(V.dimof(w, 1), 1)))
    V.ensure("weights sum to one", V.eq(V.sum(k, lambda i: V.el(w, i, 0)) + fixed, 1))
    V.ensure("stationary", V.forall(k, lambda i: V.eq(
        V.sum(k, lambda j: V.el(SF, i, j) * V.el(w, j, 0)) + pull(i), lam * V.el(mu, i) + g)))


@unit("C16", funcs=[C + "_compute_lambda", C + "_compute_bi"])
def critical_lambda(V):
    """lambda is where free asset i meets the bound its weight moves to as lambda falls"""
    k = V.dim("k")
    SF, INV, mu, _, pull, fixed, args, cla = problem(V, k, V.bool("some at a bound"))
    i = V.int("i", lo=0, gen=lambda r: r.randrange(3))
    V.assume(V.lt(i, k))
    lo, hi = V.real("lo", gen=lambda r: r.choice([0.0, -0.1])), V.real("hi", gen=lambda r: r.choice([1.0, 0.3]))
    row = lambda f: V.sum(k, lambda j: V.el(INV, i, j) * f(j))
    tot = lambda f: V.sum(k, lambda a: V.sum(k, lambda j: V.el(INV, a, j) * f(j)))
    one, m = (lambda j: 1), (lambda j: V.el(mu, j))
    gamma = lambda lam: (1 - fixed + tot(pull) - lam * tot(m)) / tot(one)
    weight = lambda lam: gamma(lam) * row(one) + lam * row(m) - row(pull)        # what _compute_w gives asset i
    slope = weight(1) - weight(0)
    both = V.bool("either bound")
    r = V.call(cla._compute_lambda, INV, *args, i, [V.arr(1, lambda j: lo), V.arr(1, lambda j: hi)] if both else V.arr(1, lambda j: lo))
    if V.conc and abs(slope) < 1e-5:
        return
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    lam, at = r.value
    flat = V.split(V.eq(slope, 0))
    if V.isnone(lam):
        V.ensure("no lambda only when the weight does not depend on it", V.eq(slope, 0))
        return
    b = V.el(at, 0) if V.is_ndarray(at) else at
    V.ensure("the bound", V.eq(b, V.ite(V.lt(slope, 0), hi, lo) if both else lo))
    if not flat:
        V.ensure("the weight is at the bound at this lambda", V.eq(weight(lam), b))


def free_set(V, n):
    k = V.dim("k", hi=n)
    f, F = V.subset("free", V.range_labels(n), n, k)
    return k, f, F


@unit("C16", funcs=[C + "_reduce_matrix"])
def reduce_matrix(V):
    """rows X and columns Y, in the order given"""
    n, m = V.dim("n"), V.dim("m")
    A = V.mat("A", n, m)
    p, q = V.dim("p", hi=n), V.dim("q", hi=m)
    X, fx = V.subset("rows", V.range_labels(n), n, p)
    Y, fy = V.subset("cols", V.range_labels(m), m, q)
    name = {}

    def state(no, rows, cols, at):
        def st(L, i):
            return {name[no]: V.arr2(rows, V.num(i) + 1, at) if cols is None else V.arr2(V.num(i) + 1, cols, at)}
        return st

    def inv(no, rows, cols, at):
        def iv(L, i):
            if L._phase == "start":
                name[no] = L.only(lambda v: V.is_ndarray(v) and V.rank(v) == 2, changed=True)
            M = getattr(L, name[no])
            a, b = (rows, V.num(i) + 1) if cols is None else (V.num(i) + 1, cols)
            yield "shape", V.and_(V.eq(V.dimof(M, 0), a), V.eq(V.dimof(M, 1), b))
            yield "entries", V.forall(a, lambda r: V.forall(b, lambda c: V.eq(V.el(M, r, c), at(r, c))))
        return iv
    for no, rows, cols, at in ((0, n, None, lambda r, c: V.el(A, r, fy(c))), (1, None, q, lambda r, c: V.el(A, fx(r), fy(c)))):
        V.loop("CLA._reduce_matrix", no, state(no, rows, cols, at), inv(no, rows, cols, at))
    K = V.mod("cla").CLA
    empty = V.choice("empty", ["no", "rows", "columns"])
    r = V.call(K._reduce_matrix, A, [] if empty == "rows" else X, [] if empty == "columns" else Y)
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    if empty != "no":
        V.ensure("nothing", V.isnone(r.value))
        return
    V.matrix("the sub-matrix", r.value, p, q, lambda i, j: V.el(A, fx(i), fy(j)))


def start_model(V, form="given"):
    n = V.dim("n", lo=3)
    mu, S = V.vec("mu", n, gen=gmu), V.symmat("S", n, gen=gcov)
    whole, wlo = form == "whole numbers", form in ("whole numbers", "whole lower bounds")
    lo = V.vec("lo", n, gen=lambda r, n: [r.choice([0, -1] if wlo else [0, -0.1, 0.5 / n]) for _ in range(n)], py="i" if wlo else "f")
    hi = V.vec("hi", n, gen=lambda r, n: [r.choice([1, 2] if whole else [1, 1.5 / n, 1 / n + 0.2]) for _ in range(n)],
               py="i" if whole else "f")
    labels = V.labels("tick", n)
    data = V.series(mu, labels), V.frame(S, labels, labels)
    K = V.mod("cla").CLA
    if form == "given":
        cla = K(*data)
        cla.lB, cla.uB = V.arr2(n, 1, lambda i, j: V.el(lo, i)), V.arr2(n, 1, lambda i, j: V.el(hi, i))
    elif form == "one pair":
        a = V.real("lower", gen=lambda r: r.choice([0.0, -0.2]))
        b = V.real("upper", gen=lambda r: r.choice([1.0, 0.6, 0.5]))
        cla = K(*data, weight_bounds=(a, b))
        lo, hi = V.arr(n, lambda i: a), V.arr(n, lambda i: b)
    else:
        cla = K(*data, weight_bounds=(lo, hi) if form == "arrays" else V.tuples(lo, hi))
    return n, mu, S, labels, cla, lo, hi


def part(V, M, X, Y):
    """contract of _reduce_matrix"""
    p, q = V.length(X), V.length(Y)
    if V.known(V.eq(p, 0)) or V.known(V.eq(q, 0)):
        return None
    if V.split(V.or_(V.eq(p, 0), V.eq(q, 0))):
        return None
    V.ensure("rows and columns exist", V.and_(V.forall(p, lambda a: V.lt(V.item(X, a), V.dimof(M, 0))),
                                              V.forall(q, lambda a: V.lt(V.item(Y, a), V.dimof(M, 1)))))
    return V.arr2(p, q, lambda i, j: V.el(M, V.item(X, i), V.item(Y, j)))


@unit("C16", funcs=[C + "_get_matrices", C + "_get_b", C + "_diff_lists"])
def matrices(V):
    """the blocks of the covariance matrix, the free means and the bounded weights, for one order of the bounded assets"""
    n, mu, S, labels, cla, lo, hi = start_model(V)
    k, f, F = free_set(V, n)
    w = V.mat("w", n, 1)
    if V.sym:
        V.patch(V.mod("cla").CLA, "_reduce_matrix", lambda *a: part(V, *a[-3:]))
    cla.w = [w]
    r = V.call(cla._get_matrices, f, *([w] if V.arity(cla._get_matrices) == 2 else []))
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    SF, SFB, m, wB = r.value
    V.matrix("free covariances", SF, k, k, lambda i, j: V.el(S, F(i), F(j)))
    V.matrix("free means", m, k, 1, lambda i, j: V.el(mu, F(i)))
    rest = lambda i: V.ind(V.not_(V.member(f, i)))
    V.ensure("both or neither", V.isnone(SFB) == V.isnone(wB))
    if V.isnone(SFB):
        V.ensure("nothing only when all are free", V.eq(k, n))
        return
    b = V.dimof(wB, 0)
    V.ensure("as many as are not free", V.and_(V.eq(V.dimof(SFB, 1), b), V.eq(b, n - k), V.eq(V.dimof(SFB, 0), k), V.eq(V.dimof(wB, 1), 1)))
    V.ensure("sum of the fixed weights", V.eq(V.sum(b, lambda c: V.el(wB, c, 0)), V.sum(n, lambda j: rest(j) * V.el(w, j, 0))))
    V.ensure("covariance with the fixed weights", V.forall(k, lambda i: V.eq(
        V.sum(b, lambda c: V.el(SFB, i, c) * V.el(wB, c, 0)), V.sum(n, lambda j: rest(j) * V.el(S, F(i), j) * V.el(w, j, 0)))))


@unit("C16", funcs=[C + "_init_algo"])
def start(V):
    """the portfolio of the highest return among those within the bounds: one asset between its bounds, better ones at the
    upper bound, worse ones at the lower"""
    n, mu, S, labels, cla, lo, hi = start_model(V, V.choice("bounds", ["one pair", "arrays", "pairs", "whole numbers", "whole lower bounds"]))
    V.assume(V.forall(n, lambda i: V.le(V.el(lo, i), V.el(hi, i))))
    V.assume(V.lt(V.sum(n, lambda i: V.el(lo, i)), 1))
    V.assume(V.ge(V.sum(n, lambda i: V.el(hi, i)), 1))
    g = {}

    def filled(i):
        _, rank = V.order()
        if V.known(V.eq(i, 0)):
            return lambda j: V.el(hi, j)
        return lambda j: V.ite(V.ge(rank(j), i), V.el(hi, j), V.el(lo, j))

    def state(L, _):
        u = V.unknown(V.fresh() + "i", 0, sort="int")
        if not L._last and V.split(V.eq(u, 0)):
            u = V.num(0)
        elif V.split(V.eq(u, n)):
            u = n
        g["i"] = u
        V.content(getattr(L, g["w"]), lambda r, c: filled(u)(r))
        return {g["n"]: u}

    def inv(L, _):
        if L._phase == "start":
            g["n"] = L.only(V.is_number, changed=True)
            g["w"] = L.only(lambda v: V.is_ndarray(v) and V.rank(v) == 2)
        i, w = getattr(L, g["n"]), getattr(L, g["w"])
        yield "position", V.and_(V.le(0, i), V.le(i, n))
        yield "filled from the best", V.forall(n, lambda j: V.eq(V.el(w, j, 0), filled(i)(j)))
        yield "not full without the last", V.or_(V.eq(i, n), lambda: V.lt(V.sum(n, filled(i + 1)), 1))
    V.loop("CLA._init_algo", 0, state, inv, lambda L: [V.store(getattr(L, g["w"]))])
    r = V.call(cla._init_algo)
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    f, w = r.value
    if V.sym:
        i = g["i"]
        rank = V.order()[1]
        both = lambda j: filled(i + 1)(j) + V.ite(V.eq(rank(j), i), V.el(hi, j) - V.el(lo, j), 0)
        V.sum_le("one asset more at most", n, filled(i), both)
        V.sum_le("one asset more at least", n, both, filled(i))
        V.fact("the sums differ by one asset", V.eq(V.sum(n, filled(i)), V.sum(n, filled(i + 1)) +
                                                    V.el(hi, V.order()[0](i)) - V.el(lo, V.order()[0](i))))
        V.ordered(i)
    V.ensure("one free asset", V.eq(V.length(f), 1))
    if V.sym:
        V.ensure("the weights can be fractions", w.dtype == float)      # what _solve needs
    s = V.item(f, 0)
    x = lambda j: V.el(w, j, 0)
    V.ensure("an asset", V.and_(V.le(0, s), V.lt(s, n)))
    V.ensure("fully invested", V.eq(V.sum(n, x), 1))
    V.ensure("within the bounds", V.forall(n, lambda j: V.and_(V.le(V.el(lo, j), x(j)), V.le(x(j), V.el(hi, j)))))
    V.ensure("others at a bound", V.forall(n, lambda j: V.or_(V.eq(j, s), V.eq(x(j), V.el(lo, j)), V.eq(x(j), V.el(hi, j)))))
    V.ensure("upper bound only above the free asset", V.forall(n, lambda j: V.or_(
        V.eq(j, s), V.and_(V.eq(x(j), V.el(hi, j)), V.ge(V.el(mu, j), V.el(mu, s))),
        V.and_(V.eq(x(j), V.el(lo, j)), V.le(V.el(mu, j), V.el(mu, s))))))
    if V.sym:
        y = V.vec("any portfolio", n)
        V.assume(V.forall(n, lambda j: V.and_(V.le(V.el(lo, j), V.el(y, j)), V.le(V.el(y, j), V.el(hi, j)))))
        V.assume(V.eq(V.sum(n, lambda j: V.el(y, j)), 1))
        V.sum_le("no portfolio within the bounds has a higher return", n,
                 lambda j: (V.el(mu, j) - V.el(mu, s)) * V.el(y, j), lambda j: (V.el(mu, j) - V.el(mu, s)) * x(j))
    ret = lambda z: V.sum(n, lambda j: V.el(mu, j) * z(j))
    if V.sym:
        V.ensure("the highest return", V.le(ret(lambda j: V.el(y, j)), ret(x)))


def points(V, m, n, near=0.0):
    """a list of m portfolios with their lambdas, gammas and free sets (any values)"""
    def gen(r, m, n):
        out = []
        for _ in range(m):
            x = [r.choice([0, 0.05, r.random()]) for _ in range(n)]
            x[r.randrange(n)] += 0.1
            s = sum(x)
            x = [y / s for y in x]
            x[r.randrange(n)] += r.choice([0, 0, 0, 1e-10, -1e-11, 0.3, -0.2, 1e-7])
            out.append(x)
        return out
    W = V.mat("W", m, n, gen=gen)
    ls, gs, fs = V.vec("ls", m), V.vec("gs", m), V.vec("fs", m)
    return W, ls, gs, fs


@unit("C16", funcs=[C + "_purge_num_err"])
def purge(V):
    """keeps, in order and in step, exactly the turning points that are within tol of the bounds and of being fully invested"""
    n, mu, S, labels, cla, lo, hi = start_model(V)
    m = V.dim("m")
    W, ls, gs, fs = points(V, m, n)
    cla.w = V.columns(W)
    cla.ls, cla.g, cla.f = V.aslist(ls), V.aslist(gs), V.aslist(fs)
    tol = V.real("tol", lo=0, gen=lambda r: r.choice([1e-9, 1e-9, 1e-6, 0.01]))
    total = lambda t: V.sum(n, lambda j: V.el(W, t, j)) - 1
    fine = lambda t: V.and_(V.le(total(t), tol), V.ge(total(t), -tol), V.forall(n, lambda j: V.and_(
        V.ge(V.el(W, t, j) - V.el(lo, j), -tol), V.le(V.el(W, t, j) - V.el(hi, j), tol))))
    good = V.named("good", m, fine)
    own = {"w": lambda t: V.arr2(n, 1, lambda i, j: V.el(W, t, i)), "ls": lambda t: V.el(ls, t), "g": lambda t: V.el(gs, t),
           "f": lambda t: V.el(fs, t)}
    held = lambda: [cla.w, cla.ls, cla.g, cla.f]
    g = {}

    def state(L, _):
        u = V.fresh()
        i, M = V.unknown(u + "i", 0, sort="int"), V.unknown(u + "M", 0, sort="int")
        src, pos = (lambda q: V.unknown(u + "src", q, sort="int")), (lambda t: V.unknown(u + "pos", t, sort="int"))
        g.update(src=src, pos=pos, i=i, M=M)
        V.require(V.and_(V.le(0, i), V.le(i, M)))
        for x in own:
            V.listing(getattr(cla, x), M, lambda q, x=x: own[x](src(q)))
        return {g["n"]: i}

    def inv(L, _):
        if L._phase == "start":
            g["n"] = L.only(lambda v: V.is_number(v) and V.known(V.eq(v, 0)), changed=True)
            g.update(src=lambda q: q, pos=lambda t: t)
        i, M, src, pos = getattr(L, g["n"]), V.length(cla.w), g["src"], g["pos"]
        if L._phase == "after":
            a = g["i"]
            good.unfold(g["src"](a))
            if V.known(V.eq(M, g["M"])):
                pos = lambda t: V.ite(V.eq(t, a + m - M), a, g["pos"](t))
                V.fact("a point that stays is good", fine(g["src"](a)))
                V.fact("a point that stays is good", good(g["src"](a)))
            else:
                V.fact("a point that goes is not good", V.not_(fine(g["src"](a))))
                V.fact("a point that goes is not good", V.not_(good(g["src"](a))))
                src = lambda q: V.ite(V.lt(q, a), g["src"](q), lambda: g["src"](q + 1))
        yield "position", V.and_(V.le(0, i), V.le(i, M), V.le(M, m))
        yield "in step", V.and_(*[V.eq(V.length(getattr(cla, x)), M) for x in own])
        yield "of the original points", V.forall(M, lambda q: V.and_(V.le(0, src(q)), V.lt(src(q), m)))
        yield "in order", V.forall(M - 1, lambda q: V.lt(src(q), src(q + 1)))
        yield "weights", V.forall(M, lambda q: V.forall(n, lambda j: V.eq(V.el(V.item(cla.w, q), j, 0), V.el(W, src(q), j))))
        for x in ("ls", "g", "f"):
            yield x, V.forall(M, lambda q: V.eq(V.item(getattr(cla, x), q), own[x](src(q))))
        yield "good so far", V.forall(i, lambda q: good(src(q)))
        yield "the rest untouched", V.forall(M, lambda q: V.implies(V.ge(q, i), V.eq(src(q), q + m - M)))
        yield "none lost", V.forall(i + m - M, lambda t: V.implies(good(t), V.and_(V.le(0, pos(t)), V.lt(pos(t), i), V.eq(src(pos(t)), t))))
    V.loop("CLA._purge_num_err", 0, state, inv, lambda L: held())
    r = V.call(cla._purge_num_err, tol)
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    if V.conc:
        kept = [t for t in range(m) if V.holds(good(t))]
        V.ensure("as many", all(len(x) == len(kept) for x in held()))
        for q, t in enumerate(kept if all(len(x) == len(kept) for x in held()) else []):
            V.ensure("the good ones, in order and in step", all(abs(float(V.item(cla.w, q)[j][0]) - V.el(W, t, j)) == 0 for j in range(n))
                     and cla.ls[q] == ls[t] and cla.g[q] == gs[t] and cla.f[q] == fs[t])
        return
    M, src, pos = V.length(cla.w), g["src"], g["pos"]
    V.ensure("in step", V.and_(*[V.eq(V.length(getattr(cla, x)), M) for x in own]))
    V.ensure("in order", V.forall(M - 1, lambda q: V.lt(src(q), src(q + 1))))
    V.ensure("the weights", V.forall(M, lambda q: V.forall(n, lambda j: V.eq(V.el(V.item(cla.w, q), j, 0), V.el(W, src(q), j)))))
    for x in ("ls", "g", "f"):
        V.ensure("the " + x, V.forall(M, lambda q: V.eq(V.item(getattr(cla, x), q), own[x](src(q)))))
    V.ensure("all good", V.forall(M, lambda q: good(src(q))))
    V.ensure("none lost", V.forall(m, lambda t: V.implies(good(t), V.and_(V.le(0, pos(t)), V.lt(pos(t), M), V.eq(src(pos(t)), t)))))


@unit("C16", funcs=[C + "_purge_excess"])
def convex_hull(V):
    """drops, in step, points other than the first and the last until no mean return (but the first) is below a later one"""
    n, mu, S, labels, cla, lo, hi = start_model(V)
    m = V.dim("m", lo=2)
    W, ls, gs, fs = points(V, m, n)
    cla.w = V.columns(W)
    cla.ls, cla.g, cla.f = V.aslist(ls), V.aslist(gs), V.aslist(fs)
    mean = V.named("mean", m, lambda t: V.sum(n, lambda j: V.el(W, t, j) * V.el(mu, j)))
    own = {"w": lambda t: V.arr2(n, 1, lambda i, j: V.el(W, t, i)), "ls": lambda t: V.el(ls, t), "g": lambda t: V.el(gs, t),
           "f": lambda t: V.el(fs, t)}
    held = lambda L=None: [cla.w, cla.ls, cla.g, cla.f]
    g = {}
    flags = lambda L: [k for k in L._changed if isinstance(L._d.get(k), bool)]

    def state(L, _):
        u = V.fresh()
        i, M = V.unknown(u + "i", 0, sort="int"), V.unknown(u + "M", 0, sort="int")
        src = lambda q: V.unknown(u + "src", q, sort="int")
        V.require(V.and_(V.le(0, i), V.lt(i, M)))
        for x in own:
            V.listing(getattr(cla, x), M, lambda q, x=x: own[x](src(q)))
        again = V.split(V.unknown(u + "again", 0, sort="bool"))
        g.update(src=src, i=i, M=M)
        return {g["i name"]: i, g["again"]: again}

    def inv(L, _):
        if L._phase == "start":
            g["i name"] = L.only(lambda v: V.is_number(v) and not isinstance(v, bool), changed=True)
            g["again"] = L.only(lambda v: isinstance(v, bool), changed=True)
            g["src"] = lambda q: q
        i, again, M, src = getattr(L, g["i name"]), getattr(L, g["again"]), V.length(cla.w), g["src"]
        if L._phase == "after" and not V.known(V.eq(M, g["M"])):
            at = g["at"]
            src = lambda q: V.ite(V.lt(q, at), g["src"](q), lambda: g["src"](q + 1))
        if L._phase == "after" and again:
            mean.unfold(g["src"](g["at"]))
            mean.unfold(g["src"](g["j"]))
            yield "gone because it is dominated", V.lt(mean(g["src"](g["at"])), mean(g["src"](g["j"])))
        yield "position", V.and_(V.le(V.num(1 if again else 0), i), V.le(i, M - (1 if again else 2)), V.le(M, m))
        yield "in step", V.and_(*[V.eq(V.length(getattr(cla, x)), M) for x in own])
        yield "of the original points", V.forall(M, lambda q: V.and_(V.le(0, src(q)), V.lt(src(q), m)))
        yield "in order", V.forall(M - 1, lambda q: V.lt(src(q), src(q + 1)))
        yield "first and last", V.and_(V.eq(src(V.num(0)), 0), V.eq(src(M - 1), m - 1))
        yield "weights", V.forall(M, lambda q: V.forall(n, lambda j: V.eq(V.el(V.item(cla.w, q), j, 0), V.el(W, src(q), j))))
        for x in ("ls", "g", "f"):
            yield x, V.forall(M, lambda q: V.eq(V.item(getattr(cla, x), q), own[x](src(q))))
        seen = i if again else i + 1
        yield "descending so far", V.forall(seen, lambda p: V.implies(V.ge(p, 1), V.forall(M, lambda q: V.implies(
            V.gt(q, p), V.ge(mean(src(p)), mean(src(q)))))))

    def inner_state(L, _):
        g["j"] = V.unknown(V.fresh() + "j", 0, sort="int")
        return {g["j name"]: g["j"], **{k: L._d[k] for k in flags(L)}, **g["flags"]}

    def inner(L, _):
        if L._phase == "start":
            g["at"] = getattr(L, g["i name"])
            g["j name"] = L.only(lambda v: V.is_number(v) and not isinstance(v, bool), changed=True)
            g["flags"] = {k: L._d[k] for k in flags(L)}
        at, j, M, src = g["at"], getattr(L, g["j name"]), V.length(cla.w), g["src"]
        if L._phase == "after":
            mean.unfold(src(at))
            mean.unfold(src(g["j"]))
        yield "position", V.and_(V.lt(at, j), V.le(j, M))
        yield "not below those compared", V.forall(j, lambda q: V.implies(V.gt(q, at), V.ge(mean(src(at)), mean(src(q)))))
    V.loop("CLA._purge_excess", 0, state, inv, held)
    V.loop("CLA._purge_excess", 1, inner_state, inner, held)
    r = V.call(cla._purge_excess)
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    if V.conc:
        M = len(cla.w)
        V.ensure("in step", all(len(x) == M for x in held()))
        t = 0
        for q in range(M if all(len(x) == M for x in held()) else 0):
            same = lambda t: all(float(cla.w[q][j][0]) == V.el(W, t, j) for j in range(n)) and (cla.ls[q], cla.g[q], cla.f[q]) == (ls[t], gs[t], fs[t])
            while t < m and not same(t):
                if M > 1:
                    V.ensure("dropped because it is dominated", any(mean(t) < mean(p) + 1e-12 for p in range(t + 1, m)))
                t += 1
            V.ensure("an original point, in order and in step", t < m)
            t += 1
        means = [float(w[:, 0] @ cla.mean[:, 0]) for w in cla.w]
        V.ensure("descending", all(means[p] >= means[q] for p in range(1, M) for q in range(p + 1, M)))
        V.ensure("first and last", M >= 2 and all(float(cla.w[0][j][0]) == V.el(W, 0, j) and float(cla.w[-1][j][0]) == V.el(W, m - 1, j) for j in range(n)))
        return
    M, src = V.length(cla.w), g["src"]
    V.ensure("in step", V.and_(*[V.eq(V.length(getattr(cla, x)), M) for x in own]))
    V.ensure("in order", V.forall(M - 1, lambda q: V.lt(src(q), src(q + 1))))
    V.ensure("first and last", V.and_(V.eq(src(V.num(0)), 0), V.eq(src(M - 1), m - 1)))
    V.ensure("the weights", V.forall(M, lambda q: V.forall(n, lambda j: V.eq(V.el(V.item(cla.w, q), j, 0), V.el(W, src(q), j)))))
    for x in ("ls", "g", "f"):
        V.ensure("the " + x, V.forall(M, lambda q: V.eq(V.item(getattr(cla, x), q), own[x](src(q)))))
    V.ensure("descending", V.forall(M, lambda p: V.implies(V.ge(p, 1), V.forall(M, lambda q: V.implies(
        V.gt(q, p), V.ge(mean(src(p)), mean(src(q))))))))


@unit("C16", no_conc=True, search_with="C16.turning_points", limit=500, weight=5,
      funcs=[C + "_solve", C + "_infnone"])
def solve_first_step(V):
    """from the starting portfolio"""
    solve(V, True)


@unit("C16", no_conc=True, search_with="C16.turning_points", limit=500, weight=5,
      funcs=[C + "_solve", C + "_infnone"])
def solve_later_step(V):
    """from any later turning point"""
    solve(V, False)


def solve(V, first):
    """each step, by the contracts of the functions it calls: the weights outside the new free set stay at their bounds, the
    portfolio stays fully invested and the free assets are stationary for the lambda and gamma recorded with it"""
    n, mu, S, labels, cla, lo, hi = start_model(V)
    K = V.mod("cla").CLA
    bound = lambda i, x: V.or_(V.eq(x, V.el(lo, i)), V.eq(x, V.el(hi, i)))
    g = {"purged": []}

    def start(self):
        s = V.int("s", lo=0)
        V.require(V.lt(s, n))
        w = V.mat("w0", n, 1)
        V.require(V.eq(V.sum(n, lambda i: V.el(w, i, 0)), 1))
        V.require(V.forall(n, lambda i: V.or_(V.eq(i, s), bound(i, V.el(w, i, 0)))))
        return V.list([s]), V.copy(w)

    def others(self, f):
        """contract of _get_b"""
        k = V.length(f)
        V.ensure("_get_b: a list of assets", V.forall(k, lambda a: V.and_(V.le(0, V.item(f, a)), V.lt(V.item(f, a), n))))
        u = V.fresh()
        b = lambda q: V.unknown(u + "b", q, sort="int")
        V.require(V.forall(n - k, lambda q: V.and_(V.le(0, b(q)), V.lt(b(q), n), V.forall(k, lambda a: V.not_(V.eq(V.item(f, a), b(q)))))))
        g["others"] = b
        return V.seq(n - k, b)

    def matrices(self, f, w):
        """contract of _get_matrices: blocks of the covariance matrix for f; those of the others are only known by their sums"""
        k = V.length(f)
        at = lambda a: V.item(f, a)
        V.ensure("_get_matrices: distinct assets", V.and_(V.forall(k, lambda a: V.and_(V.le(0, at(a)), V.lt(at(a), n))),
                 V.forall(k, lambda a: V.forall(k, lambda b: V.or_(V.eq(a, b), V.not_(V.eq(at(a), at(b))))))))
        SF = V.arr2(k, k, lambda i, j: V.el(S, at(i), at(j)))
        V.nonsingular(SF)        # covariance matrix positive definite
        FB, wB = object(), object()        # only passed on; what they are is part of the contract of _compute_w
        m = V.arr2(k, 1, lambda i, j: V.el(mu, at(i)))
        g["last"] = dict(f=f, k=k, SF=SF, FB=FB, wB=wB, m=m, w=V.copy(w), w0=w)
        return SF, FB, m, wB

    def same_step(INV, FB, m, wB, zero=False):
        s = g["last"]
        ok = FB is s["FB"] and wB is s["wB"] and V.same_array(INV, V.inverse(s["SF"]))
        return V.and_(ok, V.or_(V.same_array(m, s["m"]), V.forall(s["k"], lambda i: V.eq(V.el(m, i, 0), 0)) if zero else False))

    def critical(self, INV, FB, m, wB, i, bi):
        """contract of _compute_lambda: some number and one of the bounds offered"""
        s = g["last"]
        V.ensure("_compute_lambda: the matrices of this free set", same_step(INV, FB, m, wB))
        V.ensure("_compute_lambda: a position", V.and_(V.le(0, i), V.lt(i, s["k"])))
        asset = V.item(s["f"], i)
        lam = V.unknown(g["step"] + "lam", asset)
        if isinstance(bi, list):
            V.ensure("_compute_lambda: the bounds of this asset", V.and_(
                V.eq(V.el(V.item(bi, 0), 0), V.el(lo, asset)), V.eq(V.el(V.item(bi, 1), 0), V.el(hi, asset))))
            up = V.unknown(g["step"] + "up", asset, sort="bool")
            return lam, V.ite(up, V.el(hi, asset), V.el(lo, asset))
        V.ensure("_compute_lambda: where the asset is", V.eq(V.el(bi, 0), V.el(g["w"], asset, 0)))
        return lam, bi

    def weights(self, INV, FB, m, wB):
        """contract of _compute_w with that of _get_matrices"""
        s = g["last"]
        k, f, w = s["k"], s["f"], s["w"]
        V.ensure("_compute_w: the matrices of the new free set", same_step(INV, FB, m, wB, zero=True))
        lam = V.item(cla.ls, -1)
        new, F = V.enumeration(f, n)
        G, was, kold, p, gone = g["F"], g["free"], g["k"], g["p"], None
        if p is not None and V.known(V.lt(k, kold)):        # hints: where the others are now
            V.fact("before the asset that leaves", V.forall(kold, lambda a: V.implies(V.lt(a, p), V.eq(V.position(new, G(a)), a))))
            V.fact("after the asset that leaves", V.forall(kold, lambda a: V.implies(V.gt(a, p), V.eq(V.position(new, G(a)), a - 1))))
            gone = G(p)
        elif V.known(V.ge(k, kold)):
            V.fact("those free before", V.forall(kold, lambda a: V.eq(V.position(new, G(a)), a)))
        V.fact("only the asset that leaves is no longer free", V.forall(n, lambda j: V.or_(
            V.member(new, j), V.not_(V.member(was, j)), False if gone is None else V.eq(j, gone))))
        V.fact("assets outside the new free set stay at a bound",
               V.forall(n, lambda j: V.or_(V.member(new, j), bound(j, V.el(w, j, 0)))))
        wb = V.unknown_mat("before", n, 1)        # from here on w is only known by this
        V.content(s["w0"], lambda j, c: V.el(wb, j, 0))
        V.assume(V.forall(n, lambda j: V.or_(V.member(new, j), bound(j, V.el(wb, j, 0)))))
        wF, gam = V.unknown_mat("wF", k, 1), V.unknown(V.fresh() + "gamma", 0)
        rest = lambda j: V.ind(V.not_(V.member(new, j))) * V.el(wb, j, 0)
        V.require(V.eq(V.sum(k, lambda a: V.el(wF, a, 0)) + V.sum(n, rest), 1))
        V.require(V.forall(k, lambda a: V.eq(
            V.sum(k, lambda b: V.el(S, F(a), F(b)) * V.el(wF, b, 0)) + V.sum(n, lambda j: V.el(S, F(a), j) * rest(j)),
            lam * V.el(m, a, 0) + gam)))
        V.assume(V.reindex(new, n, lambda j, a: V.el(wF, a, 0)))
        V.assume(V.forall(k, lambda a: V.reindex(new, n, lambda j, b: V.el(S, F(a), j) * V.el(wF, b, 0))))
        V.become(f, new)        # the same elements in the same order
        g.update(new=new, wF=wF, w_before=wb)
        return wF, gam
    for name, fn in (("_init_algo", start), ("_get_b", others), ("_get_matrices", matrices), ("_compute_lambda", critical),
                     ("_compute_w", weights), ("_purge_num_err", lambda self, tol: g["purged"].append(tol)),
                     ("_purge_excess", lambda self: g["purged"].append("hull"))):
        V.patch(K, name, fn)

    def turning_point(w, f, lam, gam, start):
        """the conditions on one turning point"""
        k = V.length(f)
        x = lambda j: V.el(w, j, 0)
        yield "free assets", V.and_(V.ge(k, 1), V.le(k, n), V.forall(k, lambda a: V.and_(V.le(0, V.item(f, a)), V.lt(V.item(f, a), n))),
                                    V.forall(k, lambda a: V.forall(k, lambda b: V.or_(V.eq(a, b), V.not_(V.eq(V.item(f, a), V.item(f, b)))))))
        yield "fully invested", V.eq(V.sum(n, x), 1)
        yield "the others at a bound", V.forall(n, lambda j: V.or_(V.member(f, j), bound(j, x(j))))
        if not start:
            yield "stationary", V.forall(k, lambda a: V.eq(V.sum(n, lambda j: V.el(S, V.item(f, a), j) * x(j)),
                                                           lam * V.el(mu, V.item(f, a)) + gam))
    names = {}

    def state(L, _):
        u = V.fresh()
        N, k = V.unknown(u + "N", 0, sort="int"), V.unknown(u + "k", 0, sort="int")
        V.require(V.and_(V.ge(N, 1), V.ge(k, 1), V.le(k, n)))
        V.require(V.eq(N, 1) if first else V.gt(N, 1))
        f, F = V.subset("free" + u, V.range_labels(n), n, k, outside=True)
        w = V.unknown_mat("w", n, 1)
        V.content(getattr(L, names["w"]), lambda i, j: V.el(w, i, j))
        V.become(getattr(L, names["f"]), f)
        V.listing(cla.w, N, lambda q: V.arr2(n, 1, lambda i, j: V.ite(V.eq(q, N - 1), V.el(w, i, 0), V.unknown(u + "W", q, i))))
        V.listing(cla.ls, N, (lambda q: None) if first else (lambda q: V.unknown(u + "ls", q)))
        V.listing(cla.g, N, (lambda q: None) if first else (lambda q: V.unknown(u + "g", q)))
        before = V.list([]) if first else V.some_list("before" + u, V.range_labels(n))
        V.listing(cla.f, N, lambda q: f if V.known(V.eq(q, N - 1)) else before)
        g.update(step=u, w=w, N=N, free=f, F=F, k=k, p=None, before=before)
        return {}

    def inv(L, _):
        if L._phase == "start":
            names["w"] = L.only(lambda v: V.is_ndarray(v) and V.rank(v) == 2)
            names["f"] = L.only(lambda v: isinstance(v, list))
        w, f = getattr(L, names["w"]), getattr(L, names["f"])
        N = V.length(cla.w)
        if L._phase == "after":
            yield "one more turning point", V.eq(N, g["N"] + 1)
        yield "in step", V.and_(*[V.eq(V.length(x), N) for x in (cla.ls, cla.g, cla.f)])
        last = V.item(cla.w, -1)
        yield "recorded", V.and_(V.forall(n, lambda j: V.eq(V.el(last, j, 0), V.el(w, j, 0))), V.same_list(V.item(cla.f, -1), f))
        yield from turning_point(w, f, V.item(cla.ls, -1), V.item(cla.g, -1), L._phase == "start" or L._phase == "any" and first)

    def count(L, t):
        """a position counted along with the assets, if the code keeps one"""
        return {c: t for c in names["counters"]}

    def a_state(L, t):
        t = V.num(t)
        if V.split(V.eq(t, 0)):
            return {**count(L, V.num(0)), "l_in": None}
        p = V.unknown(V.fresh() + "p", 0, sort="int")
        V.require(V.and_(V.le(0, p), V.lt(p, t)))
        i = V.item(getattr(L, names["f"]), p)
        g["p"] = p
        up = V.unknown(g["step"] + "up", i, sort="bool")
        return {**count(L, t), "l_in": V.unknown(g["step"] + "lam", i), "i_in": i, "bi_in": V.ite(up, V.el(hi, i), V.el(lo, i))}

    def a_inv(L, t):
        t = V.num(t)
        f = getattr(L, names["f"])
        if L._phase == "start":
            names["counters"] = [k for k in L._changed if type(L._d.get(k)) is int and L._d[k] == 0]
        for c in names["counters"]:
            yield "position", V.eq(getattr(L, c), t)
        if L.l_in is None:
            yield "no candidate", V.eq(t, 0)
            return
        yield "a candidate", V.exists(t, lambda p: V.eq(V.item(f, p), L.i_in))
        yield "its lambda", V.eq(L.l_in, V.unknown(g["step"] + "lam", L.i_in))
        yield "one of its bounds", bound(L.i_in, L.bi_in)
        yield "the largest", V.forall(t, lambda p: V.le(V.unknown(g["step"] + "lam", V.item(f, p)), L.l_in))

    lam_of = lambda i: V.unknown(g["step"] + "lam", i)
    # below the current lambda, up to rounding: not the asset bound by the previous step, whose lambda is the current one
    eligible = lambda i: V.or_(first, lambda: V.and_(V.lt(lam_of(i), V.item(cla.ls, -1)), V.not_(V.member(g["before"], i))))

    def b_state(L, t):
        t = V.num(t)
        if V.split(V.unknown(V.fresh() + "none yet", 0, sort="bool")):
            return {"l_out": None}
        p = V.unknown(V.fresh() + "p", 0, sort="int")
        V.require(V.and_(V.le(0, p), V.lt(p, t)))
        i = g["others"](p)
        return {"l_out": lam_of(i), "i_out": i}

    def b_inv(L, t):
        t, b = V.num(t), g["others"]
        if L.l_out is None:
            yield "no candidate", V.forall(t, lambda p: V.not_(eligible(b(p))))
            return
        yield "a candidate", V.exists(t, lambda p: V.eq(b(p), L.i_out))
        yield "its lambda", V.and_(V.eq(L.l_out, lam_of(L.i_out)), eligible(L.i_out))
        yield "the largest", V.forall(t, lambda p: V.or_(V.not_(eligible(b(p))), V.le(lam_of(b(p)), L.l_out)))

    def w_state(L, t):
        t = V.num(t)
        V.content(getattr(L, names["w"]), lambda j, c: written(t, j))

    def written(t, j):
        pos = V.position(g["new"], j)
        return V.ite(V.lt(pos, t), lambda: V.el(g["wF"], pos, 0), lambda: V.el(g["w_before"], j, 0))

    def w_inv(L, t):
        w = getattr(L, names["w"])
        yield "the first free weights are set", V.forall(n, lambda j: V.eq(V.el(w, j, 0), written(V.num(t), j)))
    V.loop("CLA._solve", 0, state, inv, lambda L: [cla.w, cla.ls, cla.g, cla.f, getattr(L, names["f"]), V.store(getattr(L, names["w"]))])
    V.loop("CLA._solve", 1, a_state, a_inv)
    V.loop("CLA._solve", 2, b_state, b_inv)
    V.loop("CLA._solve", 3, w_state, w_inv, lambda L: [V.store(getattr(L, names["w"]))])
    r = V.call(cla._solve)
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    V.ensure("numerical errors, then excess points are removed", len(g["purged"]) == 2 and g["purged"][1] == "hull")
    lam = V.item(cla.ls, -1)
    V.ensure("ends at lambda zero", V.eq(lam, 0))
    for name, c in turning_point(V.item(cla.w, -1), V.item(cla.f, -1), lam, V.item(cla.g, -1), False):
        V.ensure("last turning point: " + name, c)


@unit("C16", conc_only=True, conc=60, funcs=[C + "_solve", C + "_infnone"],
      bounded="whole runs of the algorithm, on random problems: every turning point satisfies the optimality conditions")
def turning_points(V):
    """every turning point of a solved problem satisfies the optimality conditions"""
    n, mu, S, labels, cla, lo, hi = start_model(V, V.choice("bounds", ["given", "one pair", "arrays", "pairs", "whole numbers", "whole lower bounds"]))
    V.assume(len({float(x) for x in mu}) == n)       # equal expected returns: the starting portfolio is not unique
    V.assume(V.forall(n, lambda i: V.le(V.el(lo, i), V.el(hi, i))))
    V.assume(V.lt(V.sum(n, lambda i: V.el(lo, i)), 0.999))
    V.assume(V.ge(V.sum(n, lambda i: V.el(hi, i)), 1.001))
    r = V.call(cla._solve)
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    import numpy as np
    m = len(cla.w)
    V.ensure("in step", len(cla.ls) == m and len(cla.g) == m and len(cla.f) == m and m >= 2)
    S, mu = np.array(S), np.array(mu)
    lo, hi = np.array(lo), np.array(hi)
    for q in range(m if len(cla.ls) == len(cla.g) == len(cla.f) == m else 0):
        w, f = np.asarray(cla.w[q])[:, 0], [int(i) for i in cla.f[q]]
        rest = [i for i in range(n) if i not in f]
        V.ensure("fully invested", abs(w.sum() - 1) < 1e-6)
        V.ensure("within the bounds", bool(np.all(w > lo - 1e-6) and np.all(w < hi + 1e-6)))
        V.ensure("the others at a bound", all(min(abs(w[i] - lo[i]), abs(w[i] - hi[i])) < 1e-7 for i in rest))
        if cla.ls[q] is None:
            continue
        lam, gam = cla.ls[q], cla.g[q]
        d = S @ w - lam * mu - gam
        V.ensure("the free assets are stationary", all(abs(d[i]) < 1e-6 for i in f))
        V.ensure("no bounded asset should move", all(
            d[i] > -1e-5 if abs(w[i] - lo[i]) < 1e-7 else d[i] < 1e-5 for i in rest if hi[i] - lo[i] > 1e-6))
    lams = [x for x in cla.ls if x is not None]
    V.ensure("lambda falls to zero", all(a >= b - 1e-9 * max(1, abs(a)) for a, b in zip(lams, lams[1:])) and lams[-1] == 0)
