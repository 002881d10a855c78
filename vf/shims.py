"""Module table seen by the code under verification: numpy, pandas, cvxpy, scipy, sklearn, matplotlib and the
few standard-library modules whose objects the package passes symbolic values to."""
import types
import collections as _coll
import warnings as _warn
import copy as _copy
import io
from . import term as tm
from . import prove as pv
from . import core
from . import npx
from . import pdx
from . import cpx
from .core import *
from .core import CTX, SNum, SBool, SLab, Seq, SList, SMap, Sym, Unsupported, as_dim, dim_val, touch, Axis
from .npx import SArr, asarr


class Mod:
    def __init__(self, name, d):
        self.__dict__.update(d)
        self.__name__ = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("%s.%s" % (self.__name__, k))


# ------------------------------------------------------------------ collections
class ODict:
    """collections.OrderedDict"""
    _vf_name = "OrderedDict"
    __name__ = "OrderedDict"

    def __call__(self, *a, **k):
        return core.mkdict_cls(_coll.OrderedDict)(*a, **k)

    def _vf_isinst(self, x):
        if isinstance(x, SMap):
            return x.cls is _coll.OrderedDict
        return isinstance(x, _coll.OrderedDict)


# ------------------------------------------------------------------ warnings
def warn(msg, category=UserWarning, *a, **k):
    CTX.warnings.append((category, str(msg)))


class _CatchWarnings:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return []

    def __exit__(self, *a):
        return False


# ------------------------------------------------------------------ copy
def vcopy(x):
    if isinstance(x, (SMap, SList)):
        return x.copy()
    if isinstance(x, SArr):
        return x.copy()
    h = getattr(type(x), "__copy__", None)
    if h is not None:
        return h(x)
    if isinstance(x, Sym):
        return x
    r = x.__class__.__new__(x.__class__) if hasattr(x, "__dict__") and not isinstance(x, type) else None
    if r is None:
        return _copy.copy(x)
    for k, v in x.__dict__.items():
        if k != "__slotjournal__":
            r.__dict__[k] = v
    return r


def vdeepcopy(x, memo=None):
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, (SArr,)):
        r = x.copy()
    elif getattr(x, "_pd", False):
        r = x.copy()
    elif isinstance(x, SMap):
        r = x.copy()
    elif isinstance(x, SList):
        s = x.seq()
        if s.concrete:
            r = SList([vdeepcopy(e, memo) for e in s])
        else:
            r = x.copy()
    elif isinstance(x, (list, tuple)) and not isinstance(x, Sym):
        r = type(x)(vdeepcopy(e, memo) for e in x)
    elif isinstance(x, dict):
        r = type(x)((k, vdeepcopy(v, memo)) for k, v in x.items())
    elif isinstance(x, (SNum, SBool, SLab, str, int, float, bool, type(None), types.FunctionType)):
        return x
    elif isinstance(x, Sym):
        h = getattr(x, "__deepcopy__", None)
        if h is None:
            return x
        r = h(memo)
    elif getattr(type(x), "__deepcopy__", None) is not None:
        r = x.__deepcopy__(memo)
    elif hasattr(x, "__dict__") and not isinstance(x, type):
        r = x.__class__.__new__(x.__class__)
        memo[id(x)] = r
        for k, v in x.__dict__.items():
            if k != "__slotjournal__":
                r.__dict__[k] = vdeepcopy(v, memo)
    else:
        return x
    memo[id(x)] = r
    return r


# ------------------------------------------------------------------ files
class SymFile:
    def __init__(self, name, mode):
        self.name, self.mode = name, mode

    def write(self, s):
        if "w" not in self.mode:
            raise Unsupported("file mode " + self.mode)
        if isinstance(s, core.SText) and s.kind == "json":
            CTX.files.append(("json", self.name, s.obj, {}))
        elif isinstance(s, core.SText):
            CTX.files.append(("text", self.name, s.obj, {}))
        else:
            CTX.files.append(("text", self.name, s, {}))

    def read(self, *a):
        raise Unsupported("reading a file")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def sym_open(name, mode="r", *a, **k):
    return SymFile(name, mode)


def json_dump(obj, fp, **k):
    CTX.files.append(("json", fp.name, obj, k))


def json_dumps(obj, **k):
    if k:
        raise Unsupported("json.dumps options")
    return core.SText("json", obj)


# ------------------------------------------------------------------ scipy.optimize
class ScoResult(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


def sco_minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(),
                 tol=None, callback=None, options=None):
    if jac is not None or hess is not None or callback is not None:
        raise Unsupported("minimize options")
    k = len(CTX.solves)
    x0 = asarr(x0)
    rec = cpx.Solve()
    rec.k, rec.kind = k, "scipy"
    rec.fun, rec.x0, rec.method, rec.bounds = fun, x0, method, bounds
    if not isinstance(args, tuple):
        args = (args,)
    rec.args = args
    rec.constraints = [constraints] if isinstance(constraints, dict) else list(as_seq(constraints))
    fn = "sco%d:x" % k
    ok = var("sco%d!success" % k, B)
    rec.x = SArr(x0._shape, lambda *i: app(fn, *i), "f")
    rec.success = SBool(ok)
    CTX.solves.append(rec)
    CTX.note("scipy.minimize", "scipy.optimize.minimize returns whatever point its algorithm stops at (any vector)")
    return ScoResult(x=SArr(x0._shape, lambda *i: app(fn, *i), "f"), success=SBool(ok),
                     fun=SNum(var("sco%d!fun" % k)), message="", status=SNum(var("sco%d!status" % k, I), "int"))


# ------------------------------------------------------------------ scipy.cluster / distance
class Linkage(Sym):
    def __init__(self, dist, method, key, n):
        self.dist, self.method, self.key, self.n = dist, method, key, n


class Tree:
    def __init__(self, link):
        self.link = link

    def pre_order(self, *a):
        return _leaf_order(self.link)


def _leaf_order(link):
    f, g = "perm:" + link.key, "perminv:" + link.key
    n = link.n
    core.PERM_INVERSE[f] = g
    core.PERM_INVERSE[g] = f
    tm.PERMS[f], tm.PERMS[g] = (canon(tt(n)), g, False), (canon(tt(n)), f, True)
    CTX.note("sch.leaves", "the leaf order of a hierarchical clustering of n items is a permutation of 0..n-1")
    if isinstance(n, int):
        perm = [SNum(app(f, num(i), sort=I), "int") for i in range(n)]
        for i in range(n):
            CTX.assume(and_(ge(perm[i].t, ZERO), lt(perm[i].t, num(n))))
            for j in range(i):
                CTX.assume(not_(eq(perm[i].t, perm[j].t)))
        return SList(perm)
    CTX.assume(forall(n, lambda i: and_(ge(app(f, i, sort=I), ZERO), lt(app(f, i, sort=I), tt(n)))))
    CTX.assume(forall(n, lambda i: and_(ge(app(g, i, sort=I), ZERO), lt(app(g, i, sort=I), tt(n)))))
    s = Seq(n, lambda i: SNum(app(f, i, sort=I), "int"))
    return SList(sym=s)


class Condensed(Sym):
    """condensed distance vector of a square matrix"""

    def __init__(self, mat):
        self.mat = mat
        n = tt(mat._shape[0])
        self.n = mat._shape[0]

    @property
    def shape(self):
        n = tt(self.n)
        return (SNum(core.intdiv_term(mul(n, sub(n, ONE)), num(2)), "int"),)


def squareform(X, force="no", checks=True):
    a = asarr(X)
    if a.rank != 2:
        raise Unsupported("squareform of a vector")
    if checks:
        raise Unsupported("squareform(checks=True)")
    return Condensed(a)


METHODS = {"single": 0, "complete": 1, "average": 2, "centroid": 3, "median": 4, "ward": 5, "weighted": 6}


def linkage(y, method="single", metric="euclidean", optimal_ordering=False):
    if not isinstance(y, Condensed):
        raise Unsupported("linkage of observations")
    if method not in METHODS:
        raise ValueError("Invalid method: %s" % method)
    key, fvs = npx.mat_key(y.mat)
    CTX.note("sch.linkage", "scipy.cluster.hierarchy.linkage is a function of the condensed distances and the method")
    r = Linkage(y, method, key + method, y.n)
    CTX.events.append(("linkage", y.mat, method))
    return r


def to_tree(link, rd=False):
    return Tree(link)


def leaves_list(link):
    return asarr(_leaf_order(link))


# ------------------------------------------------------------------ sklearn
def _skl(name):
    def f(X, *a, **k):
        if a or k:
            raise Unsupported("sklearn options")
        X = asarr(X)
        N = X._shape[1]
        m, nm = npx.opaque_mat("skl_%s" % name, X, (N, N))
        key, fvs = npx.mat_key(X)
        d = SNum(app("skld_%s:%s" % (name, key), ZERO, *fvs), "npfloat")
        tm.SYMMETRIC.add(nm)
        CTX.note("sklearn." + name, "sklearn.covariance.%s is a function of its input data" % name)
        return m, d
    return f


# ------------------------------------------------------------------ matplotlib (drawing is recorded, never modelled)
class Drawn:
    """an Axes/Figure-like recorder"""

    def __init__(self, name, log):
        object.__setattr__(self, "_d_name", name)
        object.__setattr__(self, "_d_log", log)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)

        def f(*a, **kw):
            CTX.events.append(("draw", self._d_name + "." + k, a, kw))
            return Drawn(self._d_name + "." + k + "()", None)
        return f

    def __setattr__(self, k, v):
        pass


class PLT:
    style = Drawn("plt.style", None)

    def __getattr__(self, k):
        if k == "subplots":
            return lambda *a, **kw: (Drawn("fig", None), Drawn("ax", None))
        if k == "gca":
            return lambda *a, **kw: Drawn("ax", None)
        return getattr(Drawn("plt", None), k)


class _Iterable:
    __name__ = "Iterable"
    _vf_name = "Iterable"

    def _vf_isinst(self, x):
        if isinstance(x, (cpx.CLeaf, cpx.CExpr, cpx.CCon)):
            return False
        h = getattr(x, "_py_is", None)
        if h is not None:
            return bool(h(self)) or isinstance(x, (SList, SMap, Seq, SArr)) or getattr(x, "_pd", False)
        import collections.abc
        return isinstance(x, collections.abc.Iterable)


def modules():
    sco = Mod("scipy.optimize", {"minimize": sco_minimize})
    sch = Mod("scipy.cluster.hierarchy", {"linkage": linkage, "to_tree": to_tree, "leaves_list": leaves_list,
                                          "_LINKAGE_METHODS": dict(METHODS),
                                          "dendrogram": lambda *a, **k: _dendro(a, k)})
    ssd = Mod("scipy.spatial.distance", {"squareform": squareform})
    scipy = Mod("scipy", {"optimize": sco, "cluster": Mod("scipy.cluster", {"hierarchy": sch}),
                          "spatial": Mod("scipy.spatial", {"distance": ssd})})
    skcov = Mod("sklearn.covariance", {k: _skl(k) for k in ("ledoit_wolf", "oas", "fast_mcd")})
    skl = Mod("sklearn", {"covariance": skcov})
    import collections.abc as cabc
    abc = Mod("collections.abc", {"Iterable": _Iterable(), "Sequence": cabc.Sequence, "Mapping": cabc.Mapping,
                                  "Callable": cabc.Callable})
    coll = Mod("collections", {"OrderedDict": ODict(), "abc": abc, "namedtuple": _coll.namedtuple})
    warns = Mod("warnings", {"warn": warn, "catch_warnings": _CatchWarnings, "simplefilter": lambda *a, **k: None,
                             "filterwarnings": lambda *a, **k: None})
    cp = Mod("copy", {"copy": vcopy, "deepcopy": vdeepcopy})
    js = Mod("json", {"dump": json_dump, "dumps": json_dumps})
    plt = PLT()
    mpl = Mod("matplotlib", {"pyplot": plt})
    mth = Mod("math", {"sqrt": npx.np_sqrt, "log": npx.np_log, "exp": npx.np_exp, "floor": npx.np_floor,
                       "ceil": npx.np_ceil, "isnan": npx.np_isnan, "inf": None, "fsum": core.vf_sum,
                       "isclose": lambda a, b, **k: npx.NPMOD.isclose(a, b, **k)})
    return {"numpy": npx.NPMOD, "pandas": pdx.PDMOD, "cvxpy": cpx.CPMOD, "scipy": scipy, "sklearn": skl,
            "collections": coll, "warnings": warns, "copy": cp, "json": js, "matplotlib": mpl, "math": mth}


def _dendro(a, k):
    raise Unsupported("dendrogram")
