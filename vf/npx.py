"""Contract model of numpy (assumed contracts of the dependency)."""
import itertools
from fractions import Fraction
from . import term as tm
from . import prove as pv
from . import core
from .core import *
from .core import CTX, SNum, SBool, SLab, Seq, SList, SMap, Sym, Unsupported, as_dim, dim_val, same_dim, touch

SEP = None


class DType:
    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        return isinstance(o, DType) and o.kind == self.kind or o in (float, int, object) and \
            {float: "f", int: "i", object: "O"}[o] == self.kind

    def __hash__(self):
        return hash(self.kind)

    @property
    def type(self):
        return self


SORT = {"f": R, "i": I, "b": B, "O": L}


class Store:
    __slots__ = ("shape", "fn", "nan", "dt", "owner", "_born", "log", "ver", "extra")

    def __init__(self, shape, fn, dt="f", nan=None, owner=None):
        self.shape = tuple(as_dim(d) for d in shape)
        self.fn, self.nan, self.dt, self.owner = fn, nan, dt, owner
        self._born = next(CTX.clock)
        self.log = ()
        self.ver = 0
        self.extra = None

    def _snap(self):
        return (self.fn, self.nan, self.log, self.ver)

    def _restore(self, s):
        self.fn, self.nan, self.log, self.ver = s

    def write(self, cond, val, nanval=None):
        """cond(idx) -> bool term, val(idx) -> term; later reads see ite(cond,val,old)"""
        touch(self)
        if self.owner:
            CTX.events.append(("write", self.owner))
        old, oldnan, dt = self.fn, self.nan, self.dt

        def fn(*idx):
            c = bnf(cond(*idx))
            if c is FALSE:
                return old(*idx)
            v = val(*idx)
            if c is TRUE:
                return v
            return ite(c, v, old(*idx))
        self.fn = fn
        if oldnan is not None or nanval is not None:
            def nan(*idx):
                c = bnf(cond(*idx))
                a = nanval(*idx) if nanval else FALSE
                b = oldnan(*idx) if oldnan else FALSE
                return or_(and_(c, a), and_(not_(c), b))
            self.nan = nan
        self.log = self.log + ((cond, val, nanval),)
        self.ver += 1

    def _havoc_elements(self, key):
        nm, srt, nan = fresh_name("hv:arr"), SORT[self.dt], None
        if self.nan is not None:
            nan = lambda *idx: app(nm + ":nan", *idx, sort=B)
        return (lambda *idx: app(nm, *idx, sort=srt)), nan, (), self.ver + 1

    # ---- loop summarisation protocol
    def _havoc_state(self, key):
        nm = fresh_name("hv:arr")
        srt = SORT[self.dt]
        return HArr(nm, lambda *idx: app(nm, *idx, sort=srt))

    def _enter_havoc(self, st):
        self.fn, self.nan, self.log = st.fn, None, ()

    def _summarise(self, init, h, effs, i, N, g, marks):
        fn0, nan0, log0, ver0 = init
        self._restore(init)
        writes = []
        for c, snap in effs:
            log = snap[2] if snap is not None else ()
            for cond, val, nv in log:
                writes.append((c, cond, val, nv))
        if not writes:
            return
        if g is not None:
            gi = g(i)
            writes = [(and_(c, gi), cond, val, nv) for c, cond, val, nv in writes]
        rank = len(self.shape)
        pr = [ivar(d, "wx") for d in self.shape]
        # classify by probing
        H = h.fn(*pr)
        kinds = set()
        for c, cond, val, nv in writes:
            cd, vl = bnf(cond(*pr)), canon(val(*pr))
            if nv is not None and core.mentions(canon(nv(*pr)), marks):
                raise Unsupported("loop-carried NaN")
            if core.mentions(cd, marks):
                raise Unsupported("loop-carried write position")
            if not core.mentions(vl, marks):
                kinds.add("set")
            elif not core.mentions(canon(sub(vl, H)), marks):
                kinds.add("add")
            elif not core.mentions(canon(div(vl, H)), marks):
                kinds.add("mul")
            else:
                vl2 = pv.simp_under(CTX.pc + pv.flat_and([c, cd]) +
                                    [f for v in pr + [i] for f in (ge(v, ZERO), lt(v, rng_of(v)))], vl)
                if not core.mentions(vl2, marks):
                    kinds.add("set2")
                else:
                    raise Unsupported("loop-carried array value")
        if "set2" in kinds:
            raise Unsupported("loop-carried array value (conditional)")
        if kinds != {"set"} and any(w[3] is not None for w in writes):
            raise Unsupported("NaN write in loop")
        newlog = None
        if kinds == {"add"}:
            def fn(*idx):
                tot = fn0(*idx)
                for c, cond, val, _ in writes:
                    d = sub(val(*idx), h.fn(*idx))
                    tot = add(tot, core._sum_to(i, N, mul(iv(and_(c, cond(*idx))), d)))
                return tot
            self.fn = fn
        elif kinds == {"mul"}:
            def fn(*idx):
                tot = fn0(*idx)
                for c, cond, val, _ in writes:
                    d = div(val(*idx), h.fn(*idx))
                    tot = mul(tot, core._prod_to(i, N, ite(and_(c, cond(*idx)), d, ONE)))
                return tot
            self.fn = fn
        elif kinds == {"set"}:
            hyps = CTX.pc + [f for v in pr for f in (ge(v, ZERO), lt(v, rng_of(v)))]
            # each write determines its iteration, or hits a fixed cell
            for k, (c, cond, val, _) in enumerate(writes):
                cd = and_(c, cond(*pr))
                sol = solve_index(cd, i)
                if sol is None and i in bnf(cd).fv:
                    raise Unsupported("cannot solve write position for the loop index")
            # distinct iterations must not collide
            i2 = ivar(rng_of(i), "it2")
            for a in range(len(writes)):
                for b in range(len(writes)):
                    ca = and_(writes[a][0], writes[a][1](*pr))
                    cb = subst(and_(writes[b][0], writes[b][1](*pr)), {i: i2})
                    va = writes[a][2](*pr)
                    vb = subst(writes[b][2](*pr), {i: i2})
                    hs = hyps + pv.flat_and([ca, cb, lt(i, i2), ge(i, ZERO), lt(i2, N)])
                    if solve_index(ca, i) is None and a == b:
                        continue      # same fixed cell: last iteration wins
                    if not pv.entails(hs, FALSE, 3000) and not pv.entails(hs, eq(va, vb), 3000):
                        raise Unsupported("loop iterations write the same cell")

            def done(w, idx):
                """condition that the loop writes cell idx by w, and the iteration that does"""
                c, cond, val, nv = w
                cd = and_(c, cond(*idx))
                sol = solve_index(cd, i)
                if sol is None:
                    k = canon(sub(N, ONE))
                    return bnf(and_(gt(N, ZERO), subst(cd, {i: k}))), k
                return bnf(and_(subst(cd, {i: sol}), ge(sol, ZERO), lt(sol, N))), sol

            def entry(w):
                at = lambda f: (lambda *idx: subst(f(*idx), {i: done(w, idx)[1]}))
                return (lambda *idx: done(w, idx)[0]), at(w[2]), at(w[3]) if w[3] is not None else None
            newlog = tuple(entry(w) for w in writes)

            def fn(*idx):
                r = fn0(*idx)
                for cond, val, _ in newlog:
                    cc = cond(*idx)
                    if cc is TRUE:
                        r = val(*idx)
                    elif cc is not FALSE:
                        r = ite(cc, val(*idx), r)
                return r
            self.fn = fn
            if nan0 is not None or any(w[3] is not None for w in writes):
                def nan(*idx):
                    r = nan0(*idx) if nan0 is not None else FALSE
                    for cond, _, nv in newlog:
                        cc = cond(*idx)
                        r = or_(and_(cc, nv(*idx) if nv else FALSE), and_(not_(cc), r))
                    return r
                self.nan = nan
        else:
            raise Unsupported("mixed array effects in loop")
        self.ver = ver0 + 1
        self.log = log0 + (newlog if newlog is not None else ((lambda *idx: TRUE, self.fn, None),))
        touch(self)
        if self.owner:
            CTX.events.append(("write", self.owner))


class HArr:
    def __init__(self, nm, fn):
        self.nm, self.fn = nm, fn

    def _havoc_marks(self):
        return (), (self.nm,)


def solve_index(cd, i):
    """solution of i from an equation conjunct of cd, or None"""
    cd = bnf(cd)
    for c in pv.flat_and([cd]):
        if c.op == "eq":
            p = tm.nf(c.args[0])
            for m, a in p.items():
                if len(m) == 1 and m[0][0] is i and m[0][1] == 1 and abs(a) == 1:
                    rest = {x: y for x, y in p.items() if x is not m}
                    if any(i in y.fv for x in rest for y, _ in x):
                        continue
                    if not tm.is_int_poly(rest):
                        continue
                    return tm.pterm(tm.pscale(rest, Fraction(-1) / a))
    return None


def const_arr(t, dt=None):
    """0-d array of term t"""
    return SArr((), lambda: t, dt or ("f" if t.sort == R else "i"))


class SArr(Sym):
    """numpy ndarray of possibly symbolic shape"""
    __array_priority__ = 10
    _vf_priority = 1

    def __init__(self, shape, fn=None, dt="f", nan=None, store=None, view=None, owner=None):
        if store is None:
            store = Store(shape, fn, dt, nan, owner)
            view = None
        self.store = store
        self.view = view
        self._shape = tuple(as_dim(d) for d in shape)

    # ---- access
    @property
    def dt(self):
        return self.store.dt

    @property
    def rank(self):
        return len(self._shape)

    def sidx(self, idx):
        if self.view is None:
            return idx
        out = []
        for spec in self.view:
            if spec[0] == "f":
                out.append(spec[1])
            else:
                _, k, off, step = spec
                t = idx[k]
                if step == -1:
                    t = canon(sub(off, t))
                elif off is not ZERO:
                    t = canon(add(off, t))
                out.append(t)
        return tuple(out)

    def _numeric_seq(self):
        if self.rank != 1 or self.hasnan or self.dt not in ("f", "i"):
            return None
        return self._shape[0], self.frozen()[0]

    def elem(self, *idx):
        return self.store.fn(*self.sidx(tuple(tt(i) for i in idx)))

    def nanat(self, *idx):
        if self.store.nan is None:
            return FALSE
        return self.store.nan(*self.sidx(tuple(tt(i) for i in idx)))

    @property
    def hasnan(self):
        return self.store.nan is not None

    def frozen(self):
        """(elem fn, nan fn) of the present content"""
        fn, nan, view = self.store.fn, self.store.nan, self.view
        probe = SArr(self._shape, store=_FakeStore(fn, nan, self.dt), view=view)
        return (lambda *i: probe.elem(*i)), ((lambda *i: probe.nanat(*i)) if nan else None)

    @property
    def shape(self):
        return tuple(dim_val(d) for d in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    @property
    def dtype(self):
        return DType(self.dt)

    @property
    def flat(self):
        return self.ravel()._as_seq()

    def vf_len(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        return dim_val(self._shape[0])

    def __len__(self):
        d = self._shape[0]
        if isinstance(d, int):
            return d
        raise Unsupported("native len of symbolic array")

    def scalar(self, t, nan=FALSE):
        if self.dt == "b":
            return SBool(t)
        if self.dt == "O":
            return SLab(t)
        if nan is not FALSE:
            n = bnf(nan)
            if n is TRUE:
                return NaN()
            if n is not FALSE:
                return MaybeNaN(t, n, "npint" if self.dt == "i" else "npfloat")
        return SNum(t, "npint" if self.dt == "i" else "npfloat")

    def _scalar_term(self):
        if all(isinstance(d, int) and d == 1 for d in self._shape):
            return self.elem(*([ZERO] * self.rank))
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def item(self, *a):
        if a:
            r = self[tuple(a)]
            return r
        for d in self._shape:
            if not (isinstance(d, int) and d == 1):
                if not CTX.decide(eq(tt(d), ONE)):
                    raise ValueError("can only convert an array of size 1 to a Python scalar")
        return SNum(self.elem(*([ZERO] * self.rank)), "float")

    def __bool__(self):
        if all(isinstance(d, int) and d == 1 for d in self._shape):
            t = self._scalar_term()
            return CTX.decide(t if t.sort == B else not_(eq(t, ZERO)))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __float__(self):
        raise Unsupported("float(array)")

    def _as_seq(self):
        if self.rank == 0:
            raise TypeError("iteration over a 0-d array")
        if self.rank == 1:
            return Seq(self._shape[0], lambda i: self.scalar(self.elem(i), self.nanat(i)))
        return Seq(self._shape[0], lambda i: self._row(i))

    def _row(self, i):
        return self._index((i,), raw=True)

    def __iter__(self):
        s = self._as_seq()
        return iter(s)

    def __contains__(self, x):
        return bool((self == x).any())

    def _py_is(self, c):
        return getattr(c, "_vf_name", None) == "ndarray" or c is object or getattr(c, "__name__", "") in \
            ("Iterable", "Sized")

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "<array %s>" % (self._shape,)

    def __format__(self, spec):
        return "<arr>"

    def tolist(self):
        if self.rank == 1:
            return SList(sym=Seq(self._shape[0], lambda i: SNum(self.elem(i), "int" if self.dt == "i" else "float")
                                 if self.dt in "fi" else self.scalar(self.elem(i)))) \
                if not isinstance(self._shape[0], int) else SList([_py(self.scalar(self.elem(num(k))))
                                                                  for k in range(self._shape[0])])
        raise Unsupported("tolist of matrix")

    # ---- indexing
    def _parse(self, key):
        """list of per-axis specs"""
        if not isinstance(key, tuple):
            key = (key,)
        nreal = sum(1 for k in key if k is not None and k is not Ellipsis)
        out = []
        for k in key:
            if k is Ellipsis:
                out.extend([slice(None)] * (self.rank - nreal))
            else:
                out.append(k)
        nreal = sum(1 for k in out if k is not None)
        if nreal > self.rank:
            raise IndexError("too many indices for array")
        out.extend([slice(None)] * (self.rank - nreal))
        return out

    def __getitem__(self, key):
        if isinstance(key, Grid):
            if len(key.axes) != self.rank:
                raise Unsupported("ix_ of another rank")
            r = self
            for a, k in enumerate(key.axes):
                r = r[(slice(None),) * a + (k,)]
            return r
        if isinstance(key, SArr) and key.dt == "b":
            return self._mask_get(key)
        if isinstance(key, tuple) and any(isinstance(k, SArr) and k.dt == "b" for k in key):
            if len(key) == 2 and isinstance(key[0], SArr) and key[0].dt == "b" and self.rank == 2 and \
                    key[1] == slice(None):
                return self._mask_get(key[0])
            raise Unsupported("mask in tuple index")
        return self._index(key)

    def _mask_get(self, m):
        if m.rank == self.rank and all(same_dim(a, b) for a, b in zip(m._shape, self._shape)):
            return Masked(self, m)
        if m.rank == 1 and self.rank == 2:
            return Masked(self, m)
        raise Unsupported("boolean indexing")

    def _index(self, key, raw=False):
        specs = self._parse(key)
        if any(isinstance(k, (list, SArr, Seq)) or _is_series(k) for k in specs):
            return self._fancy(specs)
        ax = 0
        view, shape = [], []
        base = self.view if self.view is not None else [("v", k, ZERO, 1) for k in range(self.rank)]
        axspec = []
        for k in specs:
            if k is None:
                shape.append(1)
                continue
            n = self._shape[ax]
            if isinstance(k, slice):
                a, ln, st = slice_bounds(k, n)
                if st not in (1, -1):
                    raise Unsupported("strided slice")
                axspec.append(("v", len(shape), a, st))
                shape.append(as_dim(ln))
            elif isinstance(k, (int, SNum, T)) or hasattr(k, "_scalar_term"):
                if isinstance(k, bool):
                    raise Unsupported("bool index")
                if isinstance(k, SNum) and not k.py.endswith("int"):
                    raise IndexError("only integers, slices are valid indices")
                t = k if raw and isinstance(k, T) else norm_index(k, n, IndexError, "index out of bounds")
                axspec.append(("f", t))
            else:
                raise Unsupported("index %r" % (k,))
            ax += 1
        # compose with existing view
        for spec in base:
            if spec[0] == "f":
                view.append(spec)
            else:
                _, k, off, step = spec
                s2 = axspec[k]
                if s2[0] == "f":
                    t = canon(add(off, s2[1])) if step == 1 else canon(sub(off, s2[1]))
                    view.append(("f", t))
                else:
                    _, k2, off2, st2 = s2
                    if step == 1:
                        view.append(("v", k2, canon(add(off, off2)), st2))
                    else:
                        view.append(("v", k2, canon(sub(off, off2)), -st2))
        r = self._like(tuple(shape), view)
        if not shape:
            return r.scalar(r.elem(), r.nanat())
        return r

    def _like(self, shape, view):
        return SArr(shape, store=self.store, view=view)

    def _fancy(self, specs):
        if any(k is None for k in specs):
            raise Unsupported("newaxis with fancy index")
        arrs = []
        for ax, k in enumerate(specs):
            if isinstance(k, (list, Seq)) or isinstance(k, SArr):
                s = k._as_seq() if isinstance(k, SArr) else as_seq(k)
                arrs.append((ax, s))
        if len(arrs) != 1:
            raise Unsupported("several fancy indices")
        ax, s = arrs[0]
        if s.concrete and s.length and isinstance(s.at(ZERO), (bool, SBool)):
            return self._mask_get(np_array(k_list(s), None))
        if not s.concrete:
            i = ivar(s.length, "fz")
            if isinstance(s.at(i), (SBool, bool)):
                # boolean list mask on this axis
                m = SArr((s.length,), lambda j: term(s.at(j)), "b")
                if self.rank == 1:
                    return self._mask_get(m)
                raise Unsupported("mask on axis")
        f, nn = self.frozen()
        shape = []
        for a, k in enumerate(specs):
            if a == ax:
                shape.append(s.length)
            elif isinstance(k, slice):
                b0, ln, st = slice_bounds(k, self._shape[a])
                shape.append(as_dim(ln))
        n = self._shape[ax]

        def conv(fn):
            def g(*idx):
                idx = list(idx)
                full = []
                p = 0
                for a, k in enumerate(specs):
                    if a == ax:
                        full.append(norm_index(s.at(idx[p]), n, check=False))
                        p += 1
                    elif isinstance(k, slice):
                        b0, ln, st = slice_bounds(k, self._shape[a])
                        full.append(canon(add(b0, mul(st, idx[p]))))
                        p += 1
                    else:
                        full.append(norm_index(k, self._shape[a]))
                return fn(*full)
            return g
        return SArr(tuple(shape), conv(f), self.dt, conv(nn) if nn else None)

    def __setitem__(self, key, v):
        if self.store.extra == "derived":
            raise Unsupported("write through a reshaped view")
        val = self._valfn(v)
        if isinstance(key, SArr) and key.dt == "b":
            return self._mask_set(key, v)
        specs = self._parse(key)
        if any(isinstance(k, (list, Seq)) or isinstance(k, SArr) for k in specs):
            raise Unsupported("fancy assignment")
        tgt = self._index(tuple(specs) if len(specs) != 1 else specs[0]) if False else None
        # build target view even for scalars
        ax = 0
        shape, axspec = [], []
        for k in specs:
            if k is None:
                shape.append(1)
                continue
            n = self._shape[ax]
            if isinstance(k, slice):
                a, ln, st = slice_bounds(k, n)
                if st not in (1, -1):
                    raise Unsupported("strided slice assignment")
                axspec.append(("v", len(shape), a, st, ln))
                shape.append(as_dim(ln))
            else:
                t = norm_index(k, n, IndexError, "index out of bounds")
                axspec.append(("f", t))
            ax += 1
        vs, vf, vn = val
        bidx = bcast_index(vs, tuple(shape))
        base = self.view if self.view is not None else [("v", k, ZERO, 1) for k in range(self.rank)]
        conv = self._conv

        def locate(sidx):
            """store index -> (cond, view idx)"""
            cond = []
            vidx = [ZERO] * len(shape)
            sel = [None] * self.rank
            for a, spec in enumerate(base):
                if spec[0] == "f":
                    cond.append(eq(sidx[a], spec[1]))
                else:
                    _, k, off, step = spec
                    x = canon(sub(sidx[a], off)) if step == 1 else canon(sub(off, sidx[a]))
                    cond.append(and_(ge(x, ZERO), lt(x, tt(self._shape[k]))))
                    sel[k] = x
            for k, s2 in enumerate(axspec):
                x = sel[k]
                if x is None:
                    raise Unsupported("assignment through broadcast view")
                if s2[0] == "f":
                    cond.append(eq(x, s2[1]))
                else:
                    _, k2, off2, st2, ln = s2
                    y = canon(sub(x, off2)) if st2 == 1 else canon(sub(off2, x))
                    if not (off2 is ZERO and st2 == 1 and ln is canon(tt(self._shape[k]))):
                        cond.append(and_(ge(y, ZERO), lt(y, tt(ln))))
                    vidx[k2] = y
            return and_(*cond), tuple(vidx)
        full = self.view is None
        shp = self._shape

        def cnd(*sidx):
            c, _ = locate(sidx)
            return c

        def vl(*sidx):
            return conv(vf(*bidx(locate(sidx)[1])))
        nv = (lambda *sidx: vn(*bidx(locate(sidx)[1]))) if vn else None
        if full:
            c0 = cnd

            def cnd(*sidx):
                # indices of the store are always in range
                c = c0(*sidx)
                return drop_range(c, sidx, shp)
        self.store.write(cnd, vl, nv)

    def _conv(self, t):
        if self.dt == "f":
            if t.sort == B:
                return iv(t)
            return t
        if self.dt == "i":
            if t.sort == B:
                return iv(t)
            return trunc_term(t)
        if self.dt == "b":
            return t if t.sort == B else not_(eq(t, ZERO))
        return t

    def _valfn(self, v):
        if isinstance(v, MaybeNaN):
            return (), (lambda: v.t), (lambda: v.nan)
        if isinstance(v, NaN):
            return (), (lambda: ZERO), (lambda: TRUE)
        if is_scalar(v) or isinstance(v, (SLab, str)):
            t = term(v)
            return (), (lambda: t), None
        if v is None:
            return (), (lambda: ZERO), (lambda: TRUE)
        a = asarr(v)
        f, n = a.frozen()
        return a._shape, f, n

    def _mask_set(self, m, v):
        if self.view is not None:
            raise Unsupported("mask assignment through a view")
        mf, _ = m.frozen()
        if is_scalar(v) or isinstance(v, MaybeNaN) or (isinstance(v, SArr) and v.rank == 0):
            t = term(v) if not isinstance(v, SArr) else v.elem()
            nv = (lambda *i: v.nan) if isinstance(v, MaybeNaN) else None
            if m.rank == self.rank:
                if not all(same_dim(a, b) for a, b in zip(m._shape, self._shape)):
                    raise IndexError("boolean index did not match indexed array")
                self.store.write(lambda *i: mf(*i), lambda *i: self._conv(t), nv)
                return
            raise Unsupported("mask rank")
        if isinstance(v, Masked):
            # a[mask] = b[mask]
            k = [ivar(d, "mk") for d in self._shape]
            if bnf(v.mask.elem(*k)) is bnf(m.elem(*k)):
                f, n = v.arr.frozen()
                self.store.write(lambda *i: mf(*i), lambda *i: self._conv(f(*i)), n)
                return
            raise Unsupported("mask to mask assignment")
        a = asarr(v)
        if m.rank == 2 and self.rank == 2 and a.rank == 1:
            x, y = ivar(self._shape[0], "mx"), ivar(self._shape[1], "my")
            if bnf(tm.iff(mf(x, y), eq(x, y))) is TRUE or (
                    pv.entails(CTX.pc + pv.flat_and([mf(x, y)]), eq(x, y)) and
                    pv.entails(CTX.pc + [bnf(eq(x, y))], mf(x, y))):
                f, n = a.frozen()
                if not same_dim(a._shape[0], self._shape[0]):
                    raise ValueError("NumPy boolean array indexing assignment cannot assign")
                self.store.write(lambda i, j: eq(i, j), lambda i, j: self._conv(f(i)))
                return
        if m.rank == 1 and self.rank == 1 and a.rank == 1:
            pass
        raise Unsupported("mask assignment of an array")

    def fill(self, v):
        self[...] = v

    # ---- loop protocol
    def _vsubst(self, m):
        f, n = self.frozen()
        return SArr(tuple(subst(tt(d), m) for d in self._shape), lambda *i: subst(f(*i), m), self.dt,
                    (lambda *i: subst(n(*i), m)) if n else None)

    def _vmerge(self, c, o):
        if not isinstance(o, SArr) or o.rank != self.rank:
            return None
        if not all(same_dim(a, b) for a, b in zip(self._shape, o._shape)):
            return None
        f, fn_ = self.frozen()
        g, gn = o.frozen()
        nan = None
        if fn_ or gn:
            nan = lambda *i: ite(c, fn_(*i) if fn_ else FALSE, gn(*i) if gn else FALSE)
        return SArr(self._shape, lambda *i: ite(c, f(*i), g(*i)), self.dt if self.dt == o.dt else "f", nan)

    def _havoc(self, tag):
        nm = fresh_name("hv:" + tag)
        srt = SORT[self.dt]
        r = SArr(self._shape, lambda *i: app(nm, *i, sort=srt), self.dt)
        r._hv = nm
        return r

    def _havoc_marks(self):
        return ((), (self._hv,)) if hasattr(self, "_hv") else ((), ())

    def _probe_terms(self):
        k = [ivar(d, "pt") for d in self._shape]
        return [canon(self.elem(*k))]

    def _summarise_acc(self, h, v0, i, N, g, marks):
        f, _ = self.frozen()
        hf, _ = h.frozen()
        k = [ivar(d, "pt") for d in self._shape]
        d = canon(sub(f(*k), hf(*k)))
        if mentions(d, marks):
            raise Unsupported("loop-carried array")
        w, _ = v0.frozen() if isinstance(v0, SArr) else ((lambda *ix: term(v0)), None)

        def fn(*ix):
            b = sub(f(*ix), hf(*ix))
            if g:
                b = mul(iv(g(i)), b)
            return add(w(*ix), core._sum_to(i, N, b))
        return SArr(self._shape, fn, self.dt)

    def _seq_sum(self, s, i, start):
        """builtin sum over a symbolic sequence of arrays"""
        rows = s.at(i)
        f, _ = rows.frozen()
        n = tt(s.length)
        st = None if isinstance(start, int) and start == 0 else start
        r = SArr(rows._shape, lambda *ix: mksum(n, lambda j: subst(f(*ix), {i: j})), rows.dt)
        return r if st is None else r + st

    # ---- arithmetic
    def __add__(self, o):
        return ew2(self, o, add)

    def __radd__(self, o):
        return ew2(o, self, add)

    def __sub__(self, o):
        return ew2(self, o, sub)

    def __rsub__(self, o):
        return ew2(o, self, sub)

    def __mul__(self, o):
        return ew2(self, o, mul)

    def __rmul__(self, o):
        return ew2(o, self, mul)

    def __truediv__(self, o):
        return ew2(self, o, div, "f")

    def __rtruediv__(self, o):
        return ew2(o, self, div, "f")

    def __floordiv__(self, o):
        return ew2(self, o, core.intdiv_term)

    def __rfloordiv__(self, o):
        return ew2(o, self, core.intdiv_term)

    def __mod__(self, o):
        return ew2(self, o, core.mod_term)

    def __pow__(self, o):
        return ew2(self, o, core._pow)

    def __rpow__(self, o):
        return ew2(o, self, core._pow)

    def __neg__(self):
        return ew1(self, neg)

    def __pos__(self):
        return ew1(self, lambda t: t)

    def __abs__(self):
        return ew1(self, tabs)

    def __matmul__(self, o):
        if getattr(o, "_vf_priority", 0) > self._vf_priority:
            return NotImplemented
        return np_matmul(self, o)

    def __rmatmul__(self, o):
        return np_matmul(o, self)

    def _inplace(self, o, f):
        r = f(self, o)
        if r is NotImplemented:
            return r
        if not isinstance(r, SArr) or _is_series(r):
            return r
        if len(r._shape) != len(self._shape):
            raise ValueError("non-broadcastable output operand")
        if self.dt == "i" and r.dt == "f":
            raise TypeError("Cannot cast ufunc output from float64 to int64")
        self[...] = r
        return self

    def __iadd__(self, o):
        return self._inplace(o, lambda a, b: ew2(a, b, add))

    def __isub__(self, o):
        return self._inplace(o, lambda a, b: ew2(a, b, sub))

    def __imul__(self, o):
        return self._inplace(o, lambda a, b: ew2(a, b, mul))

    def __itruediv__(self, o):
        return self._inplace(o, lambda a, b: ew2(a, b, div, "f"))

    def __ipow__(self, o):
        return self._inplace(o, lambda a, b: ew2(a, b, core._pow))

    def __lt__(self, o):
        return ewc(self, o, lt)

    def __le__(self, o):
        return ewc(self, o, le)

    def __gt__(self, o):
        return ewc(self, o, gt)

    def __ge__(self, o):
        return ewc(self, o, ge)

    def __eq__(self, o):
        return ewc(self, o, eq)

    def __ne__(self, o):
        return ewc(self, o, lambda a, b: not_(eq(a, b)), nanval=TRUE)

    def __invert__(self):
        return ew1(self, not_)

    def __and__(self, o):
        return ew2(self, o, and_, "b")

    def __or__(self, o):
        return ew2(self, o, or_, "b")

    # ---- methods
    @property
    def T(self):
        if self.rank < 2:
            return self
        base = self.view if self.view is not None else [("v", k, ZERO, 1) for k in range(self.rank)]
        r = self.rank
        view = [s if s[0] == "f" else ("v", r - 1 - s[1], s[2], s[3]) for s in base]
        return self._like(self._shape[::-1], view)

    def transpose(self, *a):
        if a and a not in (((1, 0),), (1, 0)):
            raise Unsupported("transpose axes")
        return self.T

    def copy(self, *a, **k):
        f, n = self.frozen()
        return SArr(self._shape, f, self.dt, n)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, t, **k):
        dt = dtype_of(t)
        f, n = self.frozen()
        if dt == "i" and self.dt != "i":
            if self.dt == "b":
                return SArr(self._shape, lambda *i: iv(f(*i)), "i")
            return SArr(self._shape, lambda *i: trunc_term(f(*i)), "i")
        if dt == "f" and self.dt == "b":
            return SArr(self._shape, lambda *i: iv(f(*i)), "f")
        if dt == "b" and self.dt != "b":
            return SArr(self._shape, lambda *i: not_(eq(f(*i), ZERO)), "b")
        return SArr(self._shape, f, dt, n)

    def reshape(self, *shape, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, Seq)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self, *a):
        return reshape(self, (-1,))

    def flatten(self, *a):
        r = reshape(self, (-1,))
        return r.copy()

    def squeeze(self, *a):
        keep = [k for k, d in enumerate(self._shape) if not (isinstance(d, int) and d == 1)]
        if len(keep) == self.rank:
            return self
        f, n = self.frozen()

        def conv(fn):
            def g(*idx):
                full = [ZERO] * self.rank
                for p, k in enumerate(keep):
                    full[k] = idx[p]
                return fn(*full)
            return g
        r = SArr(tuple(self._shape[k] for k in keep), conv(f), self.dt, conv(n) if n else None)
        r.store.extra = "derived"
        return r

    def sum(self, axis=None, **k):
        return np_sum(self, axis, **k)

    def mean(self, axis=None, **k):
        return np_mean(self, axis, **k)

    def prod(self, axis=None):
        return np_prod(self, axis)

    def var(self, axis=None, ddof=0):
        return np_var(self, axis, ddof)

    def std(self, axis=None, ddof=0):
        return np_sqrt(np_var(self, axis, ddof))

    def max(self, axis=None, **k):
        return np_extreme(self, axis, True)

    def min(self, axis=None, **k):
        return np_extreme(self, axis, False)

    def argmax(self, axis=None):
        return np_arg(self, True, axis)

    def argmin(self, axis=None):
        return np_arg(self, False, axis)

    def any(self, axis=None):
        return np_any(self, axis)

    def all(self, axis=None):
        return np_all(self, axis)

    def dot(self, o):
        return np_dot(self, o)

    def round(self, nd=0, **k):
        return np_round(self, nd)

    def trace(self):
        return SNum(mksum(self._shape[0], lambda i: self.elem(i, i)), "npfloat")

    def diagonal(self):
        return np_diag(self)

    def clip(self, lo=None, hi=None, **k):
        return np_clip(self, lo, hi, **k)

    def cumsum(self, axis=None):
        return np_cumsum(self, axis)

    def conj(self):
        return self

    @property
    def value(self):
        raise AttributeError("'numpy.ndarray' object has no attribute 'value'")

    def sort(self, *a, **k):
        raise Unsupported("array sort")


class _FakeStore:
    def __init__(self, fn, nan, dt):
        self.fn, self.nan, self.dt = fn, nan, dt
        self.extra = None


def _py(x):
    if isinstance(x, SNum):
        return SNum(x.t, "int" if x.py.endswith("int") else "float")
    return x


def k_list(s):
    return [s.at(num(k)) for k in range(s.length)]


class NaN(Sym):
    """the concrete float nan"""

    def _py_is(self, c):
        return c is float or c is object

    def _arith(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = _arith
    __pow__ = __rpow__ = _arith

    def _f(self, o):
        return False
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _f

    def __ne__(self, o):
        return True

    def __hash__(self):
        return 3


class MaybeNaN(SNum):
    """scalar that may be NaN"""
    __slots__ = ("nan",)

    def __init__(self, t, nan, py="npfloat"):
        SNum.__init__(self, t, py)
        self.nan = nan

    def _dec(self):
        if CTX.decide(self.nan):
            return NaN()
        return SNum(self.t, self.py)

    def _op(name):
        def f(self, *a):
            return getattr(self._dec(), name)(*a)
        return f
    for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__",
               "__pow__", "__neg__", "__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__", "__abs__"):
        locals()[_n] = _op(_n)

    def __hash__(self):
        return hash(self.t)


class Masked(Sym):
    """result of boolean indexing: reductions and counting only"""
    _vf_priority = 1

    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask

    @property
    def size(self):
        return SNum(nsum(self.mask._shape, lambda *i: iv(self.mask.elem(*i))), "int")

    @property
    def shape(self):
        return (self.size,) + tuple(dim_val(d) for d in self.arr._shape[self.mask.rank:])

    def vf_len(self):
        return self.size

    def sum(self, axis=None):
        m = self.mask
        if axis is None:
            return SNum(nsum(self.arr._shape, lambda *i: mul(iv(m.elem(*i[:m.rank])), self.arr.elem(*i))), "npfloat")
        raise Unsupported("masked sum axis")

    def _as_seq(self):
        if self.mask.rank == 1:
            return Seq(self.mask._shape[0], lambda i: self.arr.scalar(self.arr.elem(i)) if self.arr.rank == 1
                       else self.arr._row(i), lambda i: self.mask.elem(i))
        raise Unsupported("iterate masked")

    def mean(self):
        return self.sum() / self.size

    def _py_is(self, c):
        return getattr(c, "_vf_name", None) == "ndarray" or c is object


def drop_range(c, idx, shape):
    """remove conjuncts that merely say a store index is in range"""
    keep = []
    triv = set()
    for t, d in zip(idx, shape):
        triv.add(bnf(ge(t, ZERO)))
        triv.add(bnf(lt(t, tt(d))))
    for x in pv.flat_and([c]):
        y = bnf(x)
        if y is TRUE or y in triv:
            continue
        keep.append(y)
    return and_(*keep)


def nsum(shape, f):
    """nested sum over all axes"""
    def go(k, idx):
        if k == len(shape):
            return f(*idx)
        return mksum(shape[k], lambda i: go(k + 1, idx + (i,)))
    return go(0, ())


def _is_series(x):
    return getattr(x, "_pd", False)


def asarr(x, dt=None):
    """array-like -> SArr (no copy for arrays)"""
    if isinstance(x, SArr):
        return x
    if _is_series(x):
        return x.arr
    if isinstance(x, (SNum, SBool, int, float, Fraction, bool)):
        t = term(x)
        k = "b" if t.sort == B else ("i" if pyof(x).endswith("int") else "f")
        nan = (lambda: x.nan) if isinstance(x, MaybeNaN) else None
        return SArr((), lambda: t, k, nan)
    if isinstance(x, NaN):
        return SArr((), lambda: ZERO, "f", lambda: TRUE)
    if isinstance(x, (SLab, str)):
        t = term(x)
        return SArr((), lambda: t, "O")
    if x is None:
        return SArr((), lambda: ZERO, "f", lambda: TRUE)
    if isinstance(x, Masked):
        raise Unsupported("masked array as operand")
    if hasattr(x, "_to_arr"):
        return x._to_arr()
    s = as_seq(x)
    return stack_seq(s, dt)


def stack_seq(s, dt=None):
    if s.guard is not None:
        raise Unsupported("array of a filtered sequence")
    if s.concrete:
        xs = [asarr(e) for e in k_list(s)]
        if not xs:
            return SArr((0,), lambda i: ZERO, "f")
        r = max(x.rank for x in xs)
        if any(x.rank != r for x in xs):
            raise ValueError("setting an array element with a sequence. inhomogeneous shape")
        for x in xs[1:]:
            for a, b in zip(x._shape, xs[0]._shape):
                if not same_dim(a, b):
                    raise ValueError("inhomogeneous shape")
        kinds = {x.dt for x in xs}
        k = "f" if "f" in kinds else ("O" if "O" in kinds else ("i" if "i" in kinds else "b"))
        if k != "b" and "b" in kinds:
            xs = [x.astype(float) if x.dt == "b" else x for x in xs]
        fs = [x.frozen() for x in xs]

        def fn(i, *rest):
            c = canon(i)
            if c.op == "num":
                return fs[int(c.args[0])][0](*rest)
            rr = fs[-1][0](*rest)
            for q in range(len(fs) - 2, -1, -1):
                rr = ite(eq(c, num(q)), fs[q][0](*rest), rr)
            return rr
        nan = None
        if any(f[1] for f in fs):
            def nan(i, *rest):
                rr = FALSE
                for q in range(len(fs)):
                    if fs[q][1]:
                        rr = or_(rr, and_(eq(i, num(q)), fs[q][1](*rest)))
                return rr
        return SArr((len(xs),) + xs[0]._shape, fn, k, nan)
    i = ivar(s.length, "ar")
    e = s.at(i)
    a = asarr(e)
    f, n = a.frozen()
    return SArr((s.length,) + a._shape, lambda j, *rest: subst(f(*rest), {i: tt(j)}), a.dt,
                (lambda j, *rest: subst(n(*rest), {i: tt(j)})) if n else None)


def dtype_of(t):
    if t is None:
        return None
    if isinstance(t, DType):
        return t.kind
    nm = getattr(t, "__name__", None) or str(t)
    if nm.startswith("float") or nm in ("f8", "double"):
        return "f"
    if nm.startswith("int") or nm in ("i8", "uint8"):
        return "i"
    if nm in ("bool", "bool_"):
        return "b"
    if nm == "object":
        return "O"
    raise Unsupported("dtype %r" % (t,))


def np_array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(dtype, (list,)):
        raise Unsupported("structured array")
    dt = dtype_of(dtype)
    a = asarr(x)
    if a is x or _is_series(x):
        a = a.copy() if type(a) is SArr else SArr(a._shape, *_fz(a))
    if a.dt == "O" and dt is None and not isinstance(x, SArr):
        a = a
    if dt and dt != a.dt:
        a = a.astype(dtype)
    return a


def _fz(a):
    f, n = a.frozen()
    return f, a.dt, n


def np_asarray(x, dtype=None, **k):
    a = asarr(x)
    dt = dtype_of(dtype)
    if dt and dt != a.dt:
        return a.astype(dtype)
    return a


def bshape(s1, s2):
    """broadcast two shapes"""
    n = max(len(s1), len(s2))
    a = (1,) * (n - len(s1)) + tuple(s1)
    b = (1,) * (n - len(s2)) + tuple(s2)
    out = []
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int):
            if x == y or y == 1:
                out.append(x)
            elif x == 1:
                out.append(y)
            else:
                raise ValueError("operands could not be broadcast together")
        elif isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        elif same_dim(x, y):
            out.append(x)
        else:
            if CTX.decide(eq(tt(x), tt(y))):
                out.append(x)
            elif CTX.decide(eq(tt(x), ONE)):
                out.append(y)
            elif CTX.decide(eq(tt(y), ONE)):
                out.append(x)
            else:
                raise ValueError("operands could not be broadcast together")
    return tuple(out)


def bcast_index(src, dst):
    """index map from dst index tuple to src index tuple (broadcast src to dst)"""
    if len(src) > len(dst):
        lead = src[:len(src) - len(dst)]
        if all(isinstance(d, int) and d == 1 for d in lead):
            inner = bcast_index(src[len(lead):], dst)
            return lambda idx: (ZERO,) * len(lead) + inner(idx)
        raise ValueError("could not broadcast input array into shape")
    off = len(dst) - len(src)
    sel = []
    for k, d in enumerate(src):
        e = dst[off + k]
        if isinstance(d, int) and d == 1 and not (isinstance(e, int) and e == 1):
            sel.append(None)
        else:
            if not same_dim(d, e):
                if not (isinstance(d, int) and isinstance(e, int)) and CTX.decide(eq(tt(d), tt(e))):
                    sel.append(off + k)
                    continue
                raise ValueError("could not broadcast input array into shape")
            sel.append(off + k)
    return lambda idx: tuple(ZERO if s is None else idx[s] for s in sel)


def numterm(t):
    return iv(t) if t.sort == B else t


def result(shape, fn, dt, nan=None):
    a = SArr(shape, fn, dt, nan)
    if not shape:
        return a.scalar(fn(), nan() if nan else FALSE)
    return a


def ew1(a, f, dt=None, nan=True):
    if _is_series(a):
        return a._ew1(f, dt)
    if isinstance(a, SNum) or isinstance(a, (int, float)):
        if isinstance(a, MaybeNaN):
            a = a._dec()
        if isinstance(a, NaN):
            return a
        t = f(term(a))
        return SBool(t) if t.sort == B else SNum(t, "npfloat")
    a = asarr(a)
    g, n = a.frozen()
    d = dt or a.dt
    return result(a._shape, lambda *i: f(g(*i)), d, n if nan else None)


def ew2(a, b, f, dt=None):
    if getattr(a, "_vf_priority", 0) > 1 or getattr(b, "_vf_priority", 0) > 1:
        return NotImplemented
    if b is None or a is None or isinstance(a, str) or isinstance(b, str):
        raise TypeError("unsupported operand type(s)")
    x, y = asarr(a), asarr(b)
    sh = bshape(x._shape, y._shape)
    fx, nx = x.frozen()
    fy, ny = y.frozen()
    ix, iy = bcast_index(x._shape, sh), bcast_index(y._shape, sh)
    nan = None
    if nx or ny:
        nan = lambda *i: or_(nx(*ix(i)) if nx else FALSE, ny(*iy(i)) if ny else FALSE)
    if dt is None:
        ks = {x.dt, y.dt}
        dt = "f" if "f" in ks else ("i" if ks & {"i"} else "i" if f is not and_ else "b")
    if dt == "b":
        return result(sh, lambda *i: f(fx(*ix(i)), fy(*iy(i))), "b")
    return result(sh, lambda *i: f(numterm(fx(*ix(i))), numterm(fy(*iy(i)))), dt, nan)


def ewc(a, b, f, nanval=FALSE):
    """elementwise comparison"""
    if getattr(b, "_vf_priority", 0) > 1:
        return NotImplemented
    if b is None or isinstance(b, str):
        if f is eq or f is None:
            return False
        b = b if isinstance(b, str) else None
        if b is None:
            return True if nanval is TRUE else False
    x, y = asarr(a), asarr(b)
    try:
        sh = bshape(x._shape, y._shape)
    except ValueError:
        raise
    fx, nx = x.frozen()
    fy, ny = y.frozen()
    ix, iy = bcast_index(x._shape, sh), bcast_index(y._shape, sh)

    def fn(*i):
        p, q = fx(*ix(i)), fy(*iy(i))
        if p.sort == B and q.sort != B:
            p = iv(p)
        if q.sort == B and p.sort != B:
            q = iv(q)
        c = f(p, q)
        nn = or_(nx(*ix(i)) if nx else FALSE, ny(*iy(i)) if ny else FALSE)
        if nn is FALSE:
            return c
        return or_(and_(nn, nanval), and_(not_(nn), c))
    return result(sh, fn, "b")


def reshape(a, shape):
    shape = tuple(as_dim(d) if not (isinstance(d, int) and d == -1) else -1 for d in shape)
    dims = a._shape
    f, n = a.frozen()

    def mkr(sh, conv):
        r = SArr(sh, lambda *i: f(*conv(i)), a.dt, (lambda *i: n(*conv(i))) if n else None)
        r.store.extra = "derived"
        return r
    ones = lambda s: [d for d in s if not (isinstance(d, int) and d == 1)]
    if -1 in shape:
        k = shape.index(-1)
        known = [d for d in shape if d != -1]
        src = ones(dims)
        kn = ones(known)
        rest = list(src)
        okk = True
        for d in kn:
            hit = [r for r in rest if same_dim(r, d)]
            if not hit:
                okk = False
                break
            rest.remove(hit[0])
        if okk and len(rest) <= 1:
            shape = shape[:k] + ((rest[0] if rest else 1),) + shape[k + 1:]
        elif len(shape) == 1:
            tot = ONE
            for d in dims:
                tot = mul(tot, tt(d))
            shape = (as_dim(tot),)
        else:
            raise Unsupported("reshape with -1")
    so, sn = ones(dims), ones(shape)
    if len(so) == len(sn) and all(same_dim(x, y) for x, y in zip(so, sn)):
        pos_old = [k for k, d in enumerate(dims) if not (isinstance(d, int) and d == 1)]
        pos_new = [k for k, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]

        def conv(i):
            full = [ZERO] * len(dims)
            for p, q in zip(pos_old, pos_new):
                full[p] = i[q]
            return tuple(full)
        return mkr(shape, conv)
    if all(isinstance(d, int) for d in dims + shape):
        tot = 1
        for d in dims:
            tot *= d
        tn = 1
        for d in shape:
            tn *= d
        if tot != tn:
            raise ValueError("cannot reshape array")

        def conv(i):
            if all(canon(x).op == "num" for x in i):
                lin = 0
                for x, d in zip(i, shape):
                    lin = lin * d + int(canon(x).args[0])
                out = []
                for d in reversed(dims):
                    out.append(num(lin % d))
                    lin //= d
                return tuple(reversed(out))
            raise Unsupported("symbolic index in reshaped array")
        return mkr(shape, conv)
    if len(so) == 1 and len(sn) == 1:
        if CTX.decide(eq(tt(so[0]), tt(sn[0]))):
            return reshape(a, tuple(so[0] if d is sn[0] else d for d in shape))
        raise ValueError("cannot reshape array")
    # flattening a matrix (row major): keep dims product
    if len(sn) == 1 and len(so) == 2:
        m = tt(so[1])
        pos_old = [k for k, d in enumerate(dims) if not (isinstance(d, int) and d == 1)]
        pn = [k for k, d in enumerate(shape) if not (isinstance(d, int) and d == 1)][0]

        def conv(i):
            full = [ZERO] * len(dims)
            full[pos_old[0]] = core.intdiv_term(i[pn], m)
            full[pos_old[1]] = core.mod_term(i[pn], m)
            return tuple(full)
        r = mkr(shape, conv)
        r._flat_of = (a, so)
        return r
    raise Unsupported("reshape %s -> %s" % (dims, shape))


def _axis(a, axis):
    if axis is None:
        return None
    axis = unwrap_int(axis) if not isinstance(axis, str) else {"index": 0, "columns": 1}[axis]
    if axis < 0:
        axis += a.rank
    if axis >= a.rank:
        raise ValueError("axis out of bounds")
    return axis


def reduce_axis(a, axis, f, fnan=None, dt=None):
    """f(dim, elemfn(k)) -> term"""
    g, n = a.frozen()
    sh = tuple(d for k, d in enumerate(a._shape) if k != axis)

    def fn(*idx):
        return f(a._shape[axis], lambda k: g(*(idx[:axis] + (k,) + idx[axis:])))
    nan = None
    if n and fnan:
        nan = lambda *idx: fnan(a._shape[axis], lambda k: n(*(idx[:axis] + (k,) + idx[axis:])))
    return result(sh, fn, dt or a.dt, nan)


def any_nan(d, n):
    return exists(d, n)


def np_sum(a, axis=None, keepdims=False, **k):
    if getattr(a, "_vf_priority", 0) > 1 and hasattr(a, "_cp_sum"):
        return a._cp_sum(axis)
    if isinstance(a, Masked):
        return a.sum(axis)
    if _is_series(a):
        return a.sum(axis=axis) if axis is not None or a.arr.rank == 1 else np_sum(a.arr) if False else a.sum(axis=axis)
    a = asarr(a)
    if a.dt == "b":
        a = a.astype(int)
    axis = _axis(a, axis)
    if axis is None:
        g, n = a.frozen()
        fo = getattr(a, "_flat_of", None)
        if fo is not None:
            return np_sum(fo[0])
        t = nsum(a._shape, g)
        if n:
            nn = _nexists(a._shape, n)
            return a.scalar(t, nn)
        return a.scalar(t)
    r = reduce_axis(a, axis, lambda d, e: mksum(d, e), any_nan)
    if keepdims:
        sh = list(a._shape)
        sh[axis] = 1
        return reshape(asarr(r), tuple(sh)) if True else r
    return r


def _nexists(shape, f):
    def go(k, idx):
        if k == len(shape):
            return f(*idx)
        return exists(shape[k], lambda i: go(k + 1, idx + (i,)))
    return go(0, ())


def _nforall(shape, f):
    def go(k, idx):
        if k == len(shape):
            return f(*idx)
        return forall(shape[k], lambda i: go(k + 1, idx + (i,)))
    return go(0, ())


def _count(a, axis):
    if axis is None:
        t = ONE
        for d in a._shape:
            t = mul(t, tt(d))
        return SNum(t, "int")
    return dim_val(a._shape[axis])


def np_mean(a, axis=None, keepdims=False, **k):
    if isinstance(a, Masked):
        return a.mean()
    if _is_series(a):
        return a.mean(axis=axis) if axis is not None else a.mean()
    a = asarr(a)
    ax = _axis(a, axis)
    return np_sum(a, ax, keepdims) / _count(a, ax)


def np_prod(a, axis=None):
    if _is_series(a):
        return a.prod()
    a = asarr(a)
    ax = _axis(a, axis)
    if ax is None:
        if a.rank != 1:
            raise Unsupported("prod of matrix")
        ax = 0
    return reduce_axis(a, ax, lambda d, e: mkprod(d, e), any_nan)


def np_var(a, axis=None, ddof=0):
    a = asarr(a)
    ax = _axis(a, axis)
    if ax is None:
        m = np_mean(a)
        return np_sum((a - m) ** 2) / (_count(a, None) - ddof)
    m = np_mean(a, ax, keepdims=True)
    return np_sum((a - m) ** 2, ax) / (_count(a, ax) - ddof)


def np_std(a, axis=None, ddof=0):
    if _is_series(a):
        return a.std()
    return np_sqrt(np_var(a, axis, ddof))


def np_extreme(a, axis, is_max):
    if _is_series(a):
        return a.max() if is_max else a.min()
    a = asarr(a)
    ax = _axis(a, axis)
    op = "amax" if is_max else "amin"
    pick2 = tmax if is_max else tmin

    def red(d, e):
        if isinstance(d, int):
            r = e(ZERO)
            for k in range(1, d):
                r = pick2(r, e(num(k)))
            return r
        i = ivar(d, "ex")
        CTX.note("extreme", "np.max/np.min return an attained bound of the elements")
        return mk(op, (i, e(i)), R if a.dt == "f" else a.dt == "i" and I or R)
    if ax is None:
        if a.rank == 2:
            inner = reduce_axis(a, 1, red)
            return reduce_axis(asarr(inner), 0, red)
        ax = 0
    return reduce_axis(a, ax, red)


def extreme_facts(t):
    """defining facts of an amax/amin/argmax/argmin term (canonical), as list of terms"""
    v, b = t.args[0], t.args[1]
    n = rng_of(v)
    j = ivar(n, "xf")
    up = t.op in ("amax", "argmax")
    cmpf = ge if up else le
    if t.op in ("amax", "amin"):
        att = app("att:" + t.k[:10], *sorted(t.fv, key=lambda x: x.args[0]), sort=I)
        return [mk("forall", (j, cmpf(t, subst(b, {v: j}))), B), eq(t, subst(b, {v: att})), ge(att, ZERO), lt(att, n)]
    return [mk("forall", (j, cmpf(subst(b, {v: t}), subst(b, {v: j}))), B), ge(t, ZERO), lt(t, n),
            mk("forall", (j, or_(ge(j, t), (gt if up else lt)(subst(b, {v: t}), subst(b, {v: j})))), B)]


def np_arg(a, is_max, axis=None):
    a = asarr(a)
    if axis is not None and a.rank != 1:
        raise Unsupported("argmax axis")
    if a.rank != 1:
        raise Unsupported("argmax of matrix")
    d = a._shape[0]
    if isinstance(d, int):
        if d == 0:
            raise ValueError("attempt to get argmax of an empty sequence")
        bi, bv = ZERO, a.elem(ZERO)
        for k in range(1, d):
            e = a.elem(num(k))
            c = gt(e, bv) if is_max else lt(e, bv)
            bi, bv = ite(c, num(k), bi), ite(c, e, bv)
        return SNum(bi, "npint")
    i = ivar(d, "am")
    f, _ = a.frozen()
    t = canon(mk("argmax" if is_max else "argmin", (i, f(i)), I))
    CTX.note("argmax", "np.argmax/argmin return the first extremal position")
    for fct in extreme_facts(t):
        CTX.assume(fct)
    return SNum(t, "npint")


def np_any(a, axis=None):
    if _is_series(a):
        return a.any(axis=axis) if axis is not None else (np_any(a.arr))
    if isinstance(a, (bool, SBool)):
        return a
    a = asarr(a)
    tr = (lambda t: t) if a.dt == "b" else (lambda t: not_(eq(t, ZERO)))
    if axis is None:
        return SBool(_nexists(a._shape, lambda *i: tr(a.elem(*i))))
    return reduce_axis(a, _axis(a, axis), lambda d, e: exists(d, lambda k: tr(e(k))), None, "b")


def np_all(a, axis=None):
    if isinstance(a, (bool, SBool)):
        return a
    a = asarr(a)
    tr = (lambda t: t) if a.dt == "b" else (lambda t: not_(eq(t, ZERO)))
    if axis is None:
        return SBool(_nforall(a._shape, lambda *i: tr(a.elem(*i))))
    return reduce_axis(a, _axis(a, axis), lambda d, e: forall(d, lambda k: tr(e(k))), None, "b")


def np_matmul(a, b):
    for x in (a, b):
        if getattr(x, "_vf_priority", 0) > 1 and not _is_series(x):
            return x._mm(a, b)
    if _is_series(a) or _is_series(b):
        from . import pdx
        return pdx.pd_matmul(a, b)
    x, y = asarr(a), asarr(b)
    if x.rank == 0 or y.rank == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if x.dt == "b":
        x = x.astype(float)
    if y.dt == "b":
        y = y.astype(float)
    fx, nx = x.frozen()
    fy, ny = y.frozen()
    k = x._shape[-1]
    k2 = y._shape[0] if y.rank == 1 else y._shape[-2]
    if x.rank > 2 or y.rank > 2:
        raise Unsupported("matmul rank")
    if not same_dim(k, k2):
        if isinstance(k, int) and isinstance(k2, int) or not CTX.decide(eq(tt(k), tt(k2))):
            raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    dt = "i" if x.dt == y.dt == "i" else "f"
    sh = x._shape[:-1] + (y._shape[1:] if y.rank == 2 else ())

    def fn(*idx):
        ia = idx[:x.rank - 1]
        ib = idx[x.rank - 1:]
        return mksum(k, lambda q: mul(fx(*ia, q), fy(q, *ib)))
    nan = None
    if nx or ny:
        def nan(*idx):
            ia = idx[:x.rank - 1]
            ib = idx[x.rank - 1:]
            return exists(k, lambda q: or_(nx(*ia, q) if nx else FALSE, ny(q, *ib) if ny else FALSE))
    return result(sh, fn, dt, nan)


def np_dot(a, b):
    if hasattr(a, "_vf_dot"):
        return a._vf_dot(b)
    if is_scalar(a) or is_scalar(b):
        return a * b
    if getattr(a, "_vf_priority", 0) > 1 and not _is_series(a) or getattr(b, "_vf_priority", 0) > 1 and not _is_series(b):
        return a @ b
    x, y = asarr(a), asarr(b)
    if x.rank == 0 or y.rank == 0:
        return x * y
    return np_matmul(x, y)


def np_outer(a, b):
    a, b = asarr(a), asarr(b)
    a = reshape(a, (-1,)) if a.rank != 1 else a
    b = reshape(b, (-1,)) if b.rank != 1 else b
    fa, na = a.frozen()
    fb, nb = b.frozen()
    nan = (lambda i, j: or_(na(i) if na else FALSE, nb(j) if nb else FALSE)) if na or nb else None
    return SArr((a._shape[0], b._shape[0]), lambda i, j: mul(fa(i), fb(j)), "f", nan)


def np_diag(a, k=0):
    if k != 0:
        raise Unsupported("diag offset")
    a = asarr(a)
    f, n = a.frozen()
    if a.rank == 1:
        return SArr((a._shape[0], a._shape[0]), lambda i, j: ite(eq(i, j), f(i), ZERO), a.dt,
                    (lambda i, j: and_(eq(i, j), n(i))) if n else None)
    if not same_dim(a._shape[0], a._shape[1]):
        raise Unsupported("diag of non-square")
    return SArr((a._shape[0],), lambda i: f(i, i), a.dt, (lambda i: n(i, i)) if n else None)


def shape_arg(shape):
    if isinstance(shape, (tuple, list, Seq)):
        return tuple(as_dim(d) for d in shape)
    return (as_dim(shape),)


def np_full(shape, v, dtype=None, **k):
    t = term(v)
    dt = dtype_of(dtype) or ("i" if pyof(v).endswith("int") else "f")
    return SArr(shape_arg(shape), lambda *i: t, dt)


class SRec(Sym):
    """one-dimensional structured array"""

    def __init__(self, names, seq):
        self.names, self.seq = names, seq
        self._born = next(CTX.clock)

    def _snap(self): return self.seq
    def _restore(self, s): self.seq = s
    def _as_seq(self): return self.seq
    def vf_len(self): return core.dim_val(self.seq.length)

    @property
    def shape(self): return (core.dim_val(self.seq.length),)

    @property
    def size(self): return core.dim_val(self.seq.length)

    def copy(self): return SRec(self.names, self.seq)

    def _py_is(self, c): return c is object

    def __setitem__(self, i, v):
        if not (isinstance(i, slice) and i == slice(None)):
            raise Unsupported("assignment into a structured array")
        q = as_seq(v)
        if q.guard is not None or not same_dim(q.length, self.seq.length):
            raise Unsupported("assignment into a structured array")
        n = len(self.names)

        def row(j):
            r = q.at(j)
            if not isinstance(r, tuple) or len(r) != n:
                raise Unsupported("rows of a structured array")
            return tuple(SNum(term(x), "npint" if d == "i" else "npfloat") for x, (_, d) in zip(r, self.names))
        core.touch(self)
        self.seq = Seq(self.seq.length, row)

    def __getitem__(self, i):
        if isinstance(i, str):
            k = [n for n, _ in self.names].index(i)
            return SArr((self.seq.length,), lambda j: term(self.seq.at(j)[k]), self.names[k][1])
        if isinstance(i, slice):
            return SRec(self.names, core.slice_seq(self.seq, i))
        return SRow(self.names, self.seq[i])


class SRow:
    def __init__(self, names, vals):
        self.names, self.vals = names, vals

    def __getitem__(self, i):
        return self.vals[[n for n, _ in self.names].index(i) if isinstance(i, str) else i]


def np_argsort(a, **k):
    a = asarr(a)
    if a.rank != 1 or k.get("kind") not in (None, "stable", "quicksort", "mergesort", "heapsort"):
        raise Unsupported("argsort")
    f, n = a.frozen()
    if n is not None:
        raise Unsupported("sorting NaN")
    q = as_seq(core.vf_sorted(Seq(a._shape[0], lambda i: SNum(i, "npint")), key=lambda i: SNum(f(term(i)))))
    return SArr((q.length,), lambda j: term(q.at(j)), "i")


def np_sort(a, axis=-1, kind=None, order=None, **k):
    if isinstance(a, SRec):
        names = [n for n, _ in a.names]
        key = names.index(order if isinstance(order, str) else list(order)[0] if order is not None else names[0])
        return SRec(a.names, as_seq(core.vf_sorted(a.seq, key=lambda r: r[key])))
    a = asarr(a)
    if a.rank != 1:
        raise Unsupported("sort")
    f, n = a.frozen()
    if n is not None:
        raise Unsupported("sorting NaN")
    q = as_seq(core.vf_sorted(Seq(a._shape[0], lambda i: SNum(f(i), "npfloat"))))
    return SArr((q.length,), lambda j: term(q.at(j)), a.dt)


class Grid:
    """np.ix_: the rows and columns of a sub-matrix"""

    def __init__(self, axes):
        self.axes = axes


def np_ix_(*axes):
    if not all(isinstance(a, (list, Seq, SArr)) for a in axes):
        raise Unsupported("ix_")
    return Grid(axes)


def np_zeros(shape, dtype=None, **k):
    if isinstance(dtype, list):
        sh = shape_arg(shape)
        if len(sh) != 1:
            raise Unsupported("structured array")
        names = [(n, dtype_of(d)) for n, d in dtype]
        if any(d not in ("i", "f") for _, d in names):
            raise Unsupported("structured array")
        return SRec(names, Seq(sh[0], lambda i: tuple(SNum(ZERO, "npint" if d == "i" else "npfloat") for _, d in names)))
    return SArr(shape_arg(shape), lambda *i: ZERO, dtype_of(dtype) or "f")


def np_ones(shape, dtype=None, **k):
    return SArr(shape_arg(shape), lambda *i: ONE, dtype_of(dtype) or "f")


def _like_shape(a):
    return asarr(a)._shape


def np_eye(n, M=None, **k):
    n = as_dim(n)
    return SArr((n, n if M is None else as_dim(M)), lambda i, j: ite(eq(i, j), ONE, ZERO), "f")


def np_tile(a, reps):
    a = asarr(a)
    reps = shape_arg(reps)
    nd = max(a.rank, len(reps))
    sh = (1,) * (nd - a.rank) + a._shape
    rp = (1,) * (nd - len(reps)) + reps
    f, n = a.frozen()
    off = nd - a.rank
    out = []
    for d, r in zip(sh, rp):
        if isinstance(d, int) and isinstance(r, int):
            out.append(d * r)
        else:
            out.append(as_dim(mul(tt(d), tt(r))))

    def conv(idx):
        full = []
        for k in range(nd):
            d, r = sh[k], rp[k]
            if isinstance(d, int) and d == 1:
                full.append(ZERO)
            elif isinstance(r, int) and r == 1:
                full.append(idx[k])
            else:
                full.append(core.mod_term(idx[k], tt(d)))
        return tuple(full[off:])
    return SArr(tuple(out), lambda *i: f(*conv(i)), a.dt, (lambda *i: n(*conv(i))) if n else None)


def np_append(a, b, axis=None):
    a, b = asarr(a), asarr(b)
    if axis is None:
        a, b = reshape(a, (-1,)) if a.rank != 1 else a, reshape(b, (-1,)) if b.rank != 1 else b
        axis = 0
    return np_concatenate([a, b], axis)


def np_concatenate(arrs, axis=0, **k):
    xs = [asarr(x) for x in (arrs if isinstance(arrs, (list, tuple)) else list(as_seq(arrs)))]
    axis = _axis(xs[0], axis)
    r = xs[0]
    for y in xs[1:]:
        r = _cat2(r, y, axis)
    return r


def _cat2(a, b, axis):
    if a.rank != b.rank:
        raise ValueError("all the input array dimensions must match")
    for k in range(a.rank):
        if k != axis and not same_dim(a._shape[k], b._shape[k]):
            if isinstance(a._shape[k], int) and isinstance(b._shape[k], int) or \
                    not CTX.decide(eq(tt(a._shape[k]), tt(b._shape[k]))):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    na = tt(a._shape[axis])
    fa, ma = a.frozen()
    fb, mb = b.frozen()
    sh = list(a._shape)
    sh[axis] = as_dim(add(na, tt(b._shape[axis])))

    def sel(p, q, default):
        def g(*idx):
            i = idx[axis]
            c = bnf(lt(i, na))
            jdx = idx[:axis] + (canon(sub(i, na)),) + idx[axis + 1:]
            if c is not TRUE and c is not FALSE and CTX.frames:
                if pv.entails(CTX.pc, c):
                    c = TRUE
                elif pv.entails(CTX.pc, not_(c)):
                    c = FALSE
            if c is TRUE:
                return p(*idx) if p else default
            if c is FALSE:
                return q(*jdx) if q else default
            return ite(c, p(*idx) if p else default, q(*jdx) if q else default)
        return g
    dt = "f" if "f" in (a.dt, b.dt) else a.dt
    return SArr(tuple(sh), sel(fa, fb, ZERO), dt, sel(ma, mb, FALSE) if ma or mb else None)


def np_vstack(arrs):
    xs = [asarr(x) for x in (arrs if isinstance(arrs, (list, tuple)) else list(as_seq(arrs)))]
    xs = [reshape(x, (1, x._shape[0])) if x.rank == 1 else x for x in xs]
    return np_concatenate(xs, 0)


def np_hstack(arrs):
    xs = [asarr(x) for x in arrs]
    return np_concatenate(xs, 0 if xs[0].rank == 1 else 1)


def np_column_stack(arrs):
    xs = [asarr(x) for x in arrs]
    xs = [reshape(x, (x._shape[0], 1)) if x.rank == 1 else x for x in xs]
    return np_concatenate(xs, 1)


def np_where(c, a=None, b=None):
    if a is None:
        raise Unsupported("np.where with one argument")
    pdw = next((x for x in (c, a, b) if _is_series(x)), None)
    cc, x, y = asarr(c), asarr(a), asarr(b)
    sh = bshape(bshape(cc._shape, x._shape), y._shape)
    ic, ix, iy = bcast_index(cc._shape, sh), bcast_index(x._shape, sh), bcast_index(y._shape, sh)
    fc, _ = cc.frozen()
    fx, nx = x.frozen()
    fy, ny = y.frozen()
    nan = None
    if nx or ny:
        nan = lambda *i: ite(fc(*ic(i)), nx(*ix(i)) if nx else FALSE, ny(*iy(i)) if ny else FALSE)
    dt = "f" if "f" in (x.dt, y.dt) else x.dt
    return result(sh, lambda *i: ite(fc(*ic(i)), numterm(fx(*ix(i))), numterm(fy(*iy(i)))), dt, nan)


def np_fmin2(a, b, f, is_fm):
    pdw = a if _is_series(a) else b if _is_series(b) else None
    if pdw is not None:
        r = np_fmin2(a.arr if _is_series(a) else a, b.arr if _is_series(b) else b, f, is_fm)
        return pdw._wrap(asarr(r))
    x, y = asarr(a), asarr(b)
    sh = bshape(x._shape, y._shape)
    ix, iy = bcast_index(x._shape, sh), bcast_index(y._shape, sh)
    fx, nx = x.frozen()
    fy, ny = y.frozen()
    nan = None

    def fn(*i):
        p, q = fx(*ix(i)), fy(*iy(i))
        r = f(p, q)
        if is_fm:
            if nx:
                r = ite(nx(*ix(i)), q, r)
            if ny:
                r = ite(ny(*iy(i)), p, r)
        return r
    if nx or ny:
        op = and_ if is_fm else or_
        nan = lambda *i: op(nx(*ix(i)) if nx else FALSE, ny(*iy(i)) if ny else FALSE)
    return result(sh, fn, "f" if "f" in (x.dt, y.dt) else x.dt, nan)


def np_clip(a, lo=None, hi=None, a_min=None, a_max=None, out=None):
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    r = a
    if lo is not None:
        r = np_fmin2(r, lo, tmax, False)
    if hi is not None:
        r = np_fmin2(r, hi, tmin, False)
    return r


def np_sqrt(a):
    return ew1(a, sqrt, "f")


def np_square(a):
    return ew1(a, lambda t: power(t, 2))


def np_abs(a):
    if hasattr(a, "_cp_abs"):
        return a._cp_abs()
    return ew1(a, tabs)


def np_log(a):
    return ew1(a, lambda t: app("log", t), "f")


def np_exp(a):
    return ew1(a, lambda t: app("exp", t), "f")


def np_sign(a):
    return ew1(a, lambda t: sub(iv(gt(t, ZERO)), iv(lt(t, ZERO))))


def np_ceil(a):
    return ew1(a, lambda t: neg(floor_term(neg(t))), "f")


def np_floor(a):
    return ew1(a, lambda t: floor_term(t), "f")


def np_rint(a):
    return ew1(a, lambda t: core.round_term(t, ZERO), "f")


def np_round(a, nd=0, decimals=None):
    nd = decimals if decimals is not None else nd
    if _is_series(a):
        return a.round(nd)
    c = canon(term(nd))
    if c.op == "num" and c.args[0] >= 12:
        CTX.note("round16", "rounding to >= 12 decimals is the identity (machine arithmetic treated as real)")
        return ew1(a, lambda t: t)
    return ew1(a, lambda t: core.round_term(t, c))


def np_isnan(a):
    if isinstance(a, NaN):
        return True
    if isinstance(a, MaybeNaN):
        return SBool(a.nan)
    if is_scalar(a):
        return False
    if _is_series(a):
        return a._wrap(np_isnan(a.arr))
    a = asarr(a)
    f, n = a.frozen()
    if a.dt == "O":
        raise TypeError("ufunc 'isnan' not supported for the input types")
    return SArr(a._shape, (lambda *i: n(*i)) if n else (lambda *i: FALSE), "b")


def np_isinf(a):
    if is_scalar(a):
        return SBool(or_(eq(term(a), INF), eq(term(a), neg(INF))))
    if _is_series(a):
        return a._wrap(np_isinf(a.arr))
    a = asarr(a)
    f, n = a.frozen()
    return SArr(a._shape, lambda *i: or_(eq(f(*i), INF), eq(f(*i), neg(INF))), "b")


def np_isfinite(a):
    if is_scalar(a):
        return SBool(not_(or_(eq(term(a), INF), eq(term(a), neg(INF)))))
    if _is_series(a):
        return a._wrap(np_isfinite(a.arr))
    a = asarr(a)
    f, n = a.frozen()
    return SArr(a._shape, lambda *i: not_(or_(n(*i) if n else FALSE, eq(f(*i), INF), eq(f(*i), neg(INF)))), "b")


def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    CTX.note("nan_to_num", "np.nan_to_num leaves finite values unchanged (inf -> max float read as inf)")
    if isinstance(x, NaN):
        return nan if is_scalar(nan) else nan
    if isinstance(x, MaybeNaN):
        return SNum(ite(x.nan, term(nan), x.t), x.py)
    if is_scalar(x):
        return x
    a = asarr(x)
    f, n = a.frozen()
    t = term(nan)
    r = SArr(a._shape, (lambda *i: ite(n(*i), t, f(*i))) if n else f, a.dt)
    if not copy and isinstance(x, SArr):
        x[...] = r
        return x
    return r


def np_isscalar(x):
    if isinstance(x, (SNum, SBool, SLab, str, int, float, NaN)):
        return True
    return False


def np_linspace(a, b, n=50, **k):
    n_ = as_dim(n)
    ta, tb = term(a), term(b)
    if isinstance(n_, int) and n_ <= 1:
        return SArr((n_,), lambda i: ta, "f")
    m = sub(tt(n_), ONE)
    if k.get("endpoint") is False or k.get("endpoint", True) is not True:
        m = tt(n_)

    def fn(i):
        if isinstance(n_, int):
            return add(ta, mul(i, div(sub(tb, ta), m)))
        return ite(eq(tt(n_), ONE), ta, add(ta, mul(i, div(sub(tb, ta), m))))
    if k.get("retstep"):
        raise Unsupported("linspace retstep")
    return SArr((n_,), fn, "f")


def np_arange(*a, **k):
    s = core.vf_range(*a)
    q = as_seq(s)
    return SArr((q.length,), lambda i: term(q.at(i)), "i")


def np_cumsum(a, axis=None):
    if _is_series(a):
        return a.cumsum()
    a = asarr(a)
    if a.rank != 1:
        raise Unsupported("cumsum rank")
    f, _ = a.frozen()
    return SArr(a._shape, lambda i: cumsum_term(f, i), a.dt)


def cumsum_term(f, i):
    c = canon(i)
    if c.op == "num":
        return add(*[f(num(k)) for k in range(int(c.args[0]) + 1)])
    return mksum(add(i, ONE), f)


def np_fromiter(it, dtype=None, count=-1):
    a = asarr(core.vf_list(it))
    dt = dtype_of(dtype)
    if dt and dt != a.dt:
        a = a.astype(dtype)
    return a


def np_cov(m, y=None, rowvar=True, bias=False, ddof=None):
    a = asarr(m)
    rv = rowvar if isinstance(rowvar, bool) else bool(rowvar)
    if rv:
        a = a.T
    f, _ = a.frozen()
    t, n = a._shape
    T_ = tt(t)
    dd = (0 if bias else 1) if ddof is None else ddof
    mean = lambda j: div(mksum(t, lambda s: f(s, j)), T_)
    return SArr((n, n), lambda i, j: div(mksum(t, lambda s: mul(sub(f(s, i), mean(i)), sub(f(s, j), mean(j)))),
                                         sub(T_, term(dd))), "f")


def np_shape(a):
    if is_scalar(a):
        return ()
    return asarr(a).shape


# ------------------------------------------------------------------ linear algebra
def mat_key(a):
    """(digest, free variables) identifying a matrix as a function of its indices"""
    k = [var("#%d" % q, I, tt(d)) for q, d in enumerate(a._shape)]
    t = canon(a.elem(*k))
    fvs = sorted([v for v in t.fv if v not in k and (rng_of(v) is not None or "!" in v.args[0])],
                 key=lambda v: v.args[0])
    if fvs:
        t = canon(subst(t, {v: var("#f%d" % q, v.sort, rng_of(v)) for q, v in enumerate(fvs)}))
    dims = ",".join(canon(tt(d)).k for d in a._shape)
    import hashlib
    return hashlib.md5((t.k + dims).encode()).hexdigest()[:12], fvs


MATS = {}     # key -> (SArr defining matrix) for axioms


def opaque_mat(op, a, shape, dt="f"):
    key, fvs = mat_key(a)
    nm = "%s:%s" % (op, key)
    MATS.setdefault(nm, a)
    srt = SORT[dt]
    return SArr(shape, lambda *i: app(nm, *i, *fvs, sort=srt), dt), nm


class LinAlgError(Exception):
    pass


class Linalg:
    LinAlgError = LinAlgError

    @staticmethod
    def inv(a):
        a = asarr(a)
        n = a._shape[0]
        if a.rank != 2 or not same_dim(a._shape[0], a._shape[1]):
            raise LinAlgError("Last 2 dimensions of the array must be square")
        singular_fork(a)
        CTX.note("inv", "np.linalg.inv(A) is the inverse of A (A nonsingular)")
        r, nm = opaque_mat("inv", a, (n, n))
        sym_check(a, nm)
        return r

    @staticmethod
    def pinv(a, **k):
        a = asarr(a)
        CTX.note("pinv", "np.linalg.pinv is the Moore-Penrose inverse")
        r, nm = opaque_mat("pinv", a, (a._shape[1], a._shape[0]))
        sym_check(a, nm)
        return r

    @staticmethod
    def solve(a, b):
        a, b = asarr(a), asarr(b)
        singular_fork(a)
        CTX.note("solve", "np.linalg.solve(A,b) = inv(A) b (A nonsingular)")
        r, nm = opaque_mat("inv", a, (a._shape[0], a._shape[0]))
        sym_check(a, nm)
        return np_matmul(r, b)

    @staticmethod
    def lstsq(a, b, rcond=None):
        a, b = asarr(a), asarr(b)
        CTX.note("lstsq", "np.linalg.lstsq(A,b)[0] = pinv(A) b")
        r, nm = opaque_mat("pinv", a, (a._shape[1], a._shape[0]))
        sym_check(a, nm)
        return (np_matmul(r, b), None, None, None)

    @staticmethod
    def norm(a, ord=None, axis=None):
        a = asarr(a)
        if axis is not None:
            return np_sqrt(np_sum(a * a, axis))
        if ord in (None, "fro") or isinstance(ord, int) and ord == 2 and a.rank == 1:
            return np_sqrt(np_sum(a * a))
        if isinstance(ord, int) and ord == 1 and a.rank == 1:
            return np_sum(np_abs(a))
        raise Unsupported("norm order")

    @staticmethod
    def multi_dot(xs):
        xs = list(xs)
        r = asarr(xs[0])
        for y in xs[1:]:
            r = np_matmul(r, asarr(y))
        return r

    @staticmethod
    def eigh(a, **k):
        a = asarr(a)
        n = a._shape[0]
        CTX.note("eigh", "np.linalg.eigh(A): A symmetric = V diag(q) V^T, V orthogonal, q ascending")
        q, nm1 = opaque_mat("eigval", a, (n,))
        V, nm2 = opaque_mat("eigvec", a, (n, n))
        EIG[nm2] = (nm1, a)
        return q, V

    @staticmethod
    def eigvalsh(a, **k):
        a = asarr(a)
        q, nm1 = opaque_mat("eigval", a, (a._shape[0],))
        CTX.note("eigh", "np.linalg.eigh(A): A symmetric = V diag(q) V^T, V orthogonal, q ascending")
        return q

    @staticmethod
    def posdef(a):
        key, fvs = mat_key(a)
        CTX.note("cholesky", "np.linalg.cholesky(M) raises LinAlgError iff M is not positive definite")
        MATS.setdefault("posdef:" + key, a)
        return app("posdef:" + key, *fvs, sort=B)

    @staticmethod
    def cholesky(a):
        a = asarr(a)
        if not CTX.decide(Linalg.posdef(a)):
            raise LinAlgError("Matrix is not positive definite")
        r, nm = opaque_mat("chol", a, a._shape)
        return r

    @staticmethod
    def det(a):
        key, fvs = mat_key(asarr(a))
        return SNum(app("det:" + key, *fvs), "npfloat")

    @staticmethod
    def matrix_rank(a, *k):
        raise Unsupported("matrix_rank")


EIG = {}


def singular_fork(a, never=False):
    key, fvs = mat_key(a)
    c = app("singular:" + key, *fvs, sort=B)
    MATS.setdefault("singular:" + key, a)
    if never:
        return CTX.assume(not_(c))
    if CTX.decide(c):
        raise LinAlgError("Singular matrix")


def sym_check(a, nm):
    """if a(i,j) == a(j,i) then the opaque inverse is symmetric too"""
    if nm in tm.SYMMETRIC:
        return
    if not same_dim(a._shape[0], a._shape[1]):
        return
    i, j = var("#0", I, tt(a._shape[0])), var("#1", I, tt(a._shape[1]))
    try:
        if canon(a.elem(i, j)) is canon(a.elem(j, i)):
            tm.SYMMETRIC.add(nm)
    except tm.Budget:
        pass


# ------------------------------------------------------------------ module object
class NDArrayType:
    _vf_name = "ndarray"
    __name__ = "ndarray"

    def _vf_isinst(self, x):
        return isinstance(x, (SArr, Masked)) and not _is_series(x)


class ScalarType:
    def __init__(self, name, kinds):
        self.__name__ = name
        self.kinds = kinds

    def _vf_isinst(self, x):
        return isinstance(x, SNum) and x.py in self.kinds

    def __call__(self, x):
        return SNum(term(x), self.kinds[0])


class NP:
    ndarray = NDArrayType()
    floating = ScalarType("floating", ("npfloat",))
    float64 = ScalarType("float64", ("npfloat",))
    float32 = ScalarType("float32", ("npfloat",))
    integer = ScalarType("integer", ("npint",))
    int64 = ScalarType("int64", ("npint",))
    int32 = ScalarType("int32", ("npint",))
    number = ScalarType("number", ("npfloat", "npint"))
    generic = ScalarType("generic", ("npfloat", "npint"))
    bool_ = bool
    newaxis = None
    pi = SNum(app("const:pi"), "float")
    array = staticmethod(np_array)
    asarray = staticmethod(np_asarray)
    atleast_1d = staticmethod(lambda a: reshape(asarr(a), (1,)) if asarr(a).rank == 0 else asarr(a))
    ix_ = staticmethod(np_ix_)
    zeros = staticmethod(np_zeros)
    sort = staticmethod(np_sort)
    argsort = staticmethod(np_argsort)
    ones = staticmethod(np_ones)
    empty = staticmethod(np_zeros)
    full = staticmethod(np_full)
    eye = staticmethod(np_eye)
    identity = staticmethod(np_eye)
    zeros_like = staticmethod(lambda a, **k: _wrap_like(a, np_zeros(_like_shape(a))))
    ones_like = staticmethod(lambda a, **k: _wrap_like(a, np_ones(_like_shape(a))))
    full_like = staticmethod(lambda a, v, **k: _wrap_like(a, np_full(_like_shape(a), v)))
    sum = staticmethod(np_sum)
    mean = staticmethod(np_mean)
    average = staticmethod(lambda a, axis=None, weights=None: np_mean(a, axis) if weights is None else
                           np_sum(asarr(a) * asarr(weights)) / np_sum(weights))
    prod = staticmethod(np_prod)
    var = staticmethod(np_var)
    std = staticmethod(np_std)
    max = staticmethod(lambda a, axis=None, **k: np_extreme(a, axis, True))
    min = staticmethod(lambda a, axis=None, **k: np_extreme(a, axis, False))
    amax, amin = max, min
    argmax = staticmethod(lambda a, axis=None: np_arg(a, True, axis))
    argmin = staticmethod(lambda a, axis=None: np_arg(a, False, axis))
    any = staticmethod(np_any)
    all = staticmethod(np_all)
    dot = staticmethod(np_dot)
    matmul = staticmethod(np_matmul)
    inner = staticmethod(np_dot)
    vdot = staticmethod(np_dot)
    outer = staticmethod(np_outer)
    diag = staticmethod(np_diag)
    diagonal = staticmethod(np_diag)
    trace = staticmethod(lambda a: asarr(a).trace())
    tile = staticmethod(np_tile)
    append = staticmethod(np_append)
    concatenate = staticmethod(np_concatenate)
    vstack = staticmethod(np_vstack)
    hstack = staticmethod(np_hstack)
    column_stack = staticmethod(np_column_stack)
    stack = staticmethod(lambda xs, axis=0: np_array(list(xs)) if axis == 0 else np_column_stack(xs))
    where = staticmethod(np_where)
    fmin = staticmethod(lambda a, b: np_fmin2(a, b, tmin, True))
    fmax = staticmethod(lambda a, b: np_fmin2(a, b, tmax, True))
    minimum = staticmethod(lambda a, b: np_fmin2(a, b, tmin, False))
    maximum = staticmethod(lambda a, b: np_fmin2(a, b, tmax, False))
    clip = staticmethod(np_clip)
    sqrt = staticmethod(np_sqrt)
    square = staticmethod(np_square)
    power = staticmethod(lambda a, b: a ** b)
    abs = staticmethod(np_abs)
    absolute = staticmethod(np_abs)
    fabs = staticmethod(np_abs)
    log = staticmethod(np_log)
    log1p = staticmethod(lambda a: np_log(1 + a))
    exp = staticmethod(np_exp)
    expm1 = staticmethod(lambda a: np_exp(a) - 1)
    sign = staticmethod(np_sign)
    ceil = staticmethod(np_ceil)
    floor = staticmethod(np_floor)
    rint = staticmethod(np_rint)
    round = staticmethod(np_round)
    around = staticmethod(np_round)
    isnan = staticmethod(np_isnan)
    isinf = staticmethod(np_isinf)
    isfinite = staticmethod(np_isfinite)
    nan_to_num = staticmethod(np_nan_to_num)
    isscalar = staticmethod(np_isscalar)
    linspace = staticmethod(np_linspace)
    arange = staticmethod(np_arange)
    cumsum = staticmethod(np_cumsum)
    fromiter = staticmethod(np_fromiter)
    cov = staticmethod(np_cov)
    shape = staticmethod(np_shape)
    ndim = staticmethod(lambda a: len(np_shape(a)))
    copy = staticmethod(lambda a: asarr(a).copy())
    transpose = staticmethod(lambda a: a.T)
    reshape = staticmethod(lambda a, s: asarr(a).reshape(s))
    ravel = staticmethod(lambda a: asarr(a).ravel())
    squeeze = staticmethod(lambda a: asarr(a).squeeze())
    add = staticmethod(lambda a, b: a + b)
    subtract = staticmethod(lambda a, b: a - b)
    multiply = staticmethod(lambda a, b: a * b)
    divide = staticmethod(lambda a, b: a / b)
    true_divide = divide
    negative = staticmethod(lambda a: -a)
    logical_and = staticmethod(lambda a, b: a & b)
    logical_or = staticmethod(lambda a, b: a | b)
    logical_not = staticmethod(lambda a: ~a)
    greater = staticmethod(lambda a, b: a > b)
    less = staticmethod(lambda a, b: a < b)
    linalg = Linalg

    @property
    def inf(self):
        return SNum(INF, "float")

    @property
    def nan(self):
        return NaN()

    @staticmethod
    def allclose(a, b, *r, **k):
        raise Unsupported("allclose")

    @staticmethod
    def issubdtype(a, b):
        nm = getattr(b, "__name__", "")
        kind = a.kind if isinstance(a, DType) else dtype_of(a)
        return {"number": kind in "fi", "floating": kind == "f", "integer": kind == "i"}[nm]


    def __getattr__(self, k):
        raise Unsupported("numpy." + k)


def _wrap_like(a, r):
    return a._wrap(r) if _is_series(a) else r


NPMOD = NP()
