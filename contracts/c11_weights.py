"""C11: setting, cleaning and saving weights keeps every asset's own weight."""
from vf.contract import unit
from .common import *

B = "base_optimizer.BaseOptimizer."


def base(V, n, named=True):
    labels = V.labels("tick", n) if named else V.range_labels(n)
    o = V.mod("base_optimizer").BaseOptimizer(n, labels if named else None)
    return o, labels


def gw(r, n):
    return [r.choice([0.0, 1e-5, -1e-5, 0.0001, -0.0001, 0.123456789, r.uniform(-1, 1), r.gauss(0, 1e-4), r.uniform(-1, 0)])
            for _ in range(n)]


@unit("C11", funcs=[B + "set_weights", B + "_make_output_weights", B + "__init__"])
def set_weights(V):
    n = V.dim("n")
    w = V.vec("w", n, gen=gw)
    o, labels = base(V, n, V.bool("named"))
    d = V.mapping(labels, w)
    r = V.call(o.set_weights, d)
    V.ensure("accepts a mapping", r.ok)
    V.vector("each asset has its own weight", o.weights, n, lambda i: V.el(w, i))
    V.wdict("and they come back under their own names", V.call(o._make_output_weights).value, labels, lambda i: V.el(w, i))
    x = V.vec("x", n, gen=gw)
    V.wdict("other weights likewise", V.call(o._make_output_weights, x).value, labels, lambda i: V.el(x, i))
    V.ensure("the mapping is unchanged", len(V.mutated()) == 0)


@unit("C11", funcs=[B + "clean_weights"])
def clean_weights(V):
    n = V.dim("n")
    w = V.vec("w", n, gen=gw)
    o, labels = base(V, n)
    V.call(o.set_weights, V.mapping(labels, w))
    cut = V.real("cutoff", lo=0, gen=lambda r: r.choice([1e-4, 0.01, 0.2, 0.0]))
    dflt = V.bool("default cutoff")
    how = V.choice("rounding", ["default", "none", 1, 3, 10])
    kw = {} if dflt else {"cutoff": cut}
    if how == "none":
        kw["rounding"] = None
    elif how != "default":
        kw["rounding"] = how
    c = V.q("1/10000") if dflt else cut
    r = V.call(o.clean_weights, **kw)
    V.ensure("returns", r.ok)
    if not r.ok:
        return
    k = 5 if how == "default" else how

    def exp(i):
        x = V.el(w, i)
        y = x if how == "none" else V.round(x, k)
        return V.ite(V.lt(V.abs(x), c), 0, y)
    V.wdict("cleaned weights", r.value, labels, exp, tol=1e-12)
    V.ensure("an OrderedDict", V.is_odict(r.value))
    V.floats("cleaned weights", r.value, labels)
    V.vector("the stored weights are unchanged", o.weights, n, lambda i: V.el(w, i))


@unit("C11", funcs=[B + "clean_weights", B + "save_weights_to_file"], files=True)
def refused(V):
    n = V.dim("n")
    w = V.vec("w", n, gen=gw)
    o, labels = base(V, n)
    expect_raises(V, "cleaning before there are weights raises AttributeError", V.call(o.clean_weights), "AttributeError")
    expect_raises(V, "saving before there are weights raises AttributeError", V.call(o.save_weights_to_file, "w.csv"),
                  "AttributeError")
    V.ensure("nothing written", len(V.files()) == 0)
    V.call(o.set_weights, V.mapping(labels, w))
    bad = V.choice("rounding", [0, -1, 1.3, "5"])
    expect_raises(V, "invalid rounding raises ValueError", V.call(o.clean_weights, rounding=bad), "ValueError")


@unit("C11", funcs=[B + "save_weights_to_file", B + "clean_weights"], files=True)
def saved(V):
    n = V.dim("n")
    w = V.vec("w", n, gen=gw)
    o, labels = base(V, n)
    V.call(o.set_weights, V.mapping(labels, w))
    name = V.choice("file", ["w.csv", "w.CSV", "a.b.json", "w.txt", "w.JSON", "w.Txt", "weights", "w.xls", "csv.pdf", "w.json.bak"])
    given = V.bool("named file")
    r = V.call(o.save_weights_to_file, V.scratch(name)) if given else V.call(o.save_weights_to_file)
    ext = name.split(".")[-1].lower() if given else "csv"
    c = V.call(o.clean_weights).value
    if ext not in ("csv", "json", "txt"):
        expect_raises(V, "other formats raise NotImplementedError", r, "NotImplementedError")
        V.ensure("nothing written", len(V.files()) == 0)
        return
    V.ensure("saves", r.ok)
    fs = V.files()
    V.ensure("one file with the given name", len(fs) == 1)
    if len(fs) != 1:
        return
    V.saved("holds each asset's cleaned weight", fs[0], V.scratch(name) if given else "weights.csv", ext, labels,
            lambda i: V.at(c, V.lab(labels, i)))
    V.vector("the stored weights are unchanged", o.weights, n, lambda i: V.el(w, i))
