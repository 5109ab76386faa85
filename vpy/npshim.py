"""numpy, as seen by the code under verification: pointwise contents for arrays
of arbitrary length, axiomatised reductions.  Calls whose arguments are all
concrete go to the real numpy; a symbolic call without a contract here raises
Unsupported (the unit is then undecided, never silently passed)."""
import builtins
import numpy as _np
import z3

from . import terms as T
from .terms import Unsupported, Dual
from .engine import (Sym, SymArray, Ctx, ctx, elementwise, as_array, dim_term,
                     norm_dim, generic_check, quiet, kind_of_dtype, bidx,
                     require_dims, _out_assign, broadcast_shapes, lift_bool,
                     _welldef, _b_and, _b_or, _b_xor, _np_div, _np_pow,
                     _np_mod, _np_floordiv, dims_equal, INF)


def is_sym(x, depth=0):
    if isinstance(x, (Sym, SymArray)):
        return True
    if getattr(x, "fam", None) is not None:
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        if type(x).__name__ in ("SymList", "Seq"):
            return True
        return builtins.any(is_sym(y, depth + 1) for y in x)
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return builtins.any(is_sym(y) for y in x.flat)
    return False


class _DT(type):
    def __instancecheck__(cls, o):
        if isinstance(o, Sym):
            return o.kind == cls._kind
        return isinstance(o, cls._real)

    def __call__(cls, x=0, *a, **k):
        if isinstance(x, Sym):
            t = x.t
            if cls._kind == "real":
                return Sym(t if isinstance(t, Dual)
                           else T.to_real(T.to_arith(t)))
            if cls._kind == "int":
                return Sym(T.t_trunc(t))
            return Sym(T.t_bool(t))
        if isinstance(x, SymArray):
            return x.astype(cls)
        return cls._real(x, *a, **k)

    def __eq__(cls, o):
        if cls is o:
            return True
        try:
            return _np.dtype(cls._real) == _np.dtype(
                getattr(o, "_real", o))
        except TypeError:
            return False

    def __hash__(cls):
        return hash(cls._real)

    @property
    def kind(cls):
        return {"real": "f", "int": "i", "bool": "b"}[cls._kind]

    @property
    def name(cls):
        return cls._real.__name__


def _mkdt(name, real, kind):
    return _DT(name, (), {"_kind": kind, "_real": real, "dtype": real})


float64 = _mkdt("float64", _np.float64, "real")
float32 = _mkdt("float32", _np.float32, "real")
int64 = _mkdt("int64", _np.int64, "int")
int32 = _mkdt("int32", _np.int32, "int")
bool_ = _mkdt("bool_", _np.bool_, "bool")


class _AbsMeta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, Sym):
            return o.kind in cls._kinds
        return isinstance(o, cls._real)


integer = _AbsMeta("integer", (), {"_kinds": ("int",), "_real": _np.integer})
floating = _AbsMeta("floating", (), {"_kinds": ("real",),
                                     "_real": _np.floating})
number = _AbsMeta("number", (), {"_kinds": ("int", "real"),
                                 "_real": _np.number})
generic = _AbsMeta("generic", (), {"_kinds": ("int", "real", "bool"),
                                   "_real": _np.generic})


class _NdMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (SymArray, _np.ndarray))

    def __call__(cls, *a, **k):
        raise Unsupported("np.ndarray constructor")


class ndarray(metaclass=_NdMeta):
    def __class_getitem__(cls, _):
        return cls


# -- assignment -------------------------------------------------------------
def assign(dst, value):
    """dst[...] = value (broadcast)"""
    if not isinstance(dst, SymArray):
        if is_sym(value):
            raise Unsupported("symbolic value stored in a concrete array")
        dst[...] = value
        return
    src = as_array(value)
    if src is None:
        t = T.lift(value)
        dst.write(lambda idx: t)
        return
    while src.ndim > dst.ndim and isinstance(src._shape[0], int) and \
            src._shape[0] == 1:
        src = src[0]
    if src.ndim > dst.ndim:
        raise ValueError("could not broadcast input array")
    shp = src._shape
    for d, s in zip(dst._shape[dst.ndim - src.ndim:], shp):
        if isinstance(s, int) and s == 1:
            continue
        require_dims(d, s, "assignment")
    f = src.snap()
    dst.write(lambda idx: f(bidx(idx, shp)))


# -- index sets ---------------------------------------------------------------
class IndexInfo:
    """membership predicate and position function of an index array"""

    def __init__(self, n, N, idx, mem, pos, injective):
        self.n, self.N = n, N
        self.idx, self.mem, self.pos = idx, mem, pos
        self.injective = injective


def index_info(a):
    if a.prov is not None and a.prov[1] is a.buf.f:
        return a.prov[0]
    c = ctx()
    if isinstance(a._shape[0], int) and a._shape[0] == 0:
        return IndexInfo(0, None, lambda j: z3.IntVal(0),
                         lambda k: z3.BoolVal(False),
                         lambda k: z3.IntVal(0), True)
    key = ("idxinfo", id(a.buf.f), a.vmap is None)
    if a.vmap is None and key in c.ghost:
        return c.ghost[key][0]
    f = a.snap()
    n = a._shape[0]
    memf = c.fresh_fn("mem", T.I, z3.BoolSort())
    posf = c.fresh_fn("pos", T.I, T.I)
    c.fact(lambda j: memf(f((j,))), (dim_term(n),))
    c.fact(lambda k: z3.Implies(memf(k), z3.And(
        posf(k) >= 0, posf(k) < dim_term(n), f((posf(k),)) == k)), (None,))
    info = IndexInfo(n, None, lambda j: f((j,)), lambda k: memf(k),
                     lambda k: c.note_idx(posf(k)), False)
    if a.vmap is None:
        c.ghost[key] = (info, a.buf.f)
    return info


def make_index_array(name, N, mem=None, injective=True, sorted_=True,
                     n=None):
    """a fresh duplicate-free index array into [0,N) with membership
    predicate mem (a python function of an index term, or fresh)"""
    c = ctx()
    nn = n if n is not None else c.fresh(f"n_{name}", T.I)
    nt = dim_term(nn)
    if n is None:
        c.assume(nn >= 0)
    Nt = dim_term(N)
    c.assume(nt <= Nt)
    idxf = c.fresh_fn(name, T.I, T.I)
    posf = c.fresh_fn(f"pos_{name}", T.I, T.I)
    if mem is None:
        memf = c.fresh_fn(f"in_{name}", T.I, z3.BoolSort())
        mem = lambda k: memf(k)
    c.fact(lambda j: z3.And(idxf(j) >= 0, idxf(j) < Nt, mem(idxf(j)),
                            posf(idxf(j)) == j), (nt,))
    c.fact(lambda k: z3.Implies(mem(k), z3.And(
        posf(k) >= 0, posf(k) < nt, idxf(posf(k)) == k)), (Nt,))
    if sorted_ and not c.family:
        c.fact(lambda i, j: z3.Implies(i < j, idxf(i) < idxf(j)), (nt, nt))
    if not c.family and injective:
        c.ghost.setdefault("enumerations", []).append((idxf, mem, nt, Nt))

    def idx(i):
        t = idxf(i[0])
        c.note_idx(t)
        return t
    a = SymArray((nn,), idx, "int", name)
    info = IndexInfo(nn, N, lambda j: idx((j,)), mem,
                     lambda k: c.note_idx(posf(k)), injective)
    info.sorted = sorted_
    a.prov = (info, a.buf.f)
    return a


def searchsorted(a, v, side="left", sorter=None):
    if not (is_sym(a) or is_sym(v)):
        return _np.searchsorted(a, v, side=side, sorter=sorter)
    a = as_array(a)
    if sorter is not None or side != "left" or a.ndim != 1:
        raise Unsupported("searchsorted form")
    info = index_info(a)
    if not getattr(info, "sorted", False) or not info.injective:
        raise Unsupported("searchsorted on an array not known to be sorted")
    va = as_array(v)
    if va is None:
        t = T.lift(v)
        if not ctx().provable(info.mem(t)):
            raise Unsupported("searchsorted of a value that may be absent")
        return Sym(info.pos(t))
    f = va.snap()

    def chk(idx):
        t = ctx().note_idx(f(idx))
        if not ctx().provable(info.mem(t), 4000):
            raise Unsupported("searchsorted of a value that may be absent")
        return z3.BoolVal(True)
    generic_check(va._shape, chk)
    return SymArray(va._shape, lambda i: info.pos(f(i)), "int")


def nonzero1(mask):
    """np.flatnonzero for a 1-D mask (cached on the mask's meaning)"""
    c = ctx()
    b = z3.Const("_b", T.I)
    f = mask.snap()
    with quiet():
        key = ("nz", f((b,)).get_id(), str(mask._shape[0]))
    hit = c.ghost.get(key)
    if hit is not None:
        return hit[0]
    if z3.is_true(z3.simplify(f((b,)))):
        a = _identity(mask._shape[0])
        c.ghost[key] = (a, f((b,)))
        return a

    def mem(k):
        with quiet():
            return z3.And(T.t_bool(f((k,))), k >= 0,
                          k < dim_term(mask._shape[0]))
    a = make_index_array("nz", mask._shape[0], mem)
    c.ghost[key] = (a, f((b,)))
    return a


def _identity(n):
    nt = dim_term(n)
    a = SymArray((n,), lambda i: ctx().note_idx(i[0]), "int", "all")
    info = IndexInfo(n, n, lambda j: j, lambda k: z3.And(k >= 0, k < nt),
                     lambda k: k, True)
    info.sorted = True
    a.prov = (info, a.buf.f)
    return a


def to_bool_mask(m):
    if m.kind == "bool":
        return m
    return elementwise(T.t_bool, m, dtype="bool")


def fancy_get(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    if builtins.any(k is None for k in key):
        return _newaxis_get(a, key)
    if builtins.any(isinstance(k, slice) and k.step not in (None, 1)
                    for k in key):
        key = tuple(_expand_slice(k, d) for k, d in zip(key, a._shape))
    arrs = [as_array(k) if isinstance(k, (SymArray, _np.ndarray, list))
            else None for k in key]
    for k in arrs:
        if k is not None and k.kind == "bool":
            if len(key) == 1 and k.ndim == a.ndim == 1 or (
                    len(key) == 1 and k.ndim == 1):
                require_dims(a._shape[0], k._shape[0], "boolean index")
                return fancy_get(a, (nonzero1(k),))
            if len([x for x in arrs if x is not None]) == 1 and k.ndim == 1:
                key = tuple(nonzero1(k) if x is k else kk
                            for x, kk in zip(arrs, key))
                return fancy_get(a, key)
            if len(key) == 1 and k.ndim == a.ndim and all(
                    isinstance(d, int) for d in k._shape + a._shape):
                return _concrete_mask_get(a, k)
            raise Unsupported("boolean mask indexing form")
    key = key + (slice(None),) * (a.ndim - len(key))
    arrs = arrs + [None] * (a.ndim - len(arrs))
    if len(key) > a.ndim:
        raise IndexError("too many indices")
    advpos = [i for i, x in enumerate(arrs) if x is not None]
    contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
    if not contiguous:
        raise Unsupported("non-adjacent advanced indices")
    bshape = broadcast_shapes([arrs[i]._shape for i in advpos])
    # result dims
    out_shape = []
    pieces = []
    for i, k in enumerate(key):
        if arrs[i] is not None:
            if i == advpos[0]:
                base = len(out_shape)
                out_shape += list(bshape)
            pieces.append(("a", base, arrs[i]))
        elif isinstance(k, slice):
            st, ln = a._slice(k, a._shape[i])
            pieces.append(("s", len(out_shape), st))
            out_shape.append(ln)
        else:
            pieces.append(("i", T.val(T.lift(k)), None))
    f = a.snap()
    snaps = {id(x): x.snap() for x in arrs if x is not None}
    nb = len(bshape)

    def g(idx):
        b = []
        for p in pieces:
            if p[0] == "a":
                bi = idx[p[1]:p[1] + nb]
                b.append(snaps[id(p[2])](bidx(bi, p[2]._shape)))
            elif p[0] == "s":
                i = idx[p[1]]
                b.append(T.t_add(i, p[2]) if p[2] is not None else i)
            else:
                b.append(p[1])
        return f(tuple(b))

    # bounds
    def chk(idx):
        for j, i in enumerate(advpos):
            x = arrs[i]
            t = snaps[id(x)](bidx(idx, x._shape))
            d = dim_term(a._shape[i])
            ctx().note_idx(t)
            T.welldef("index in bounds", z3.And(t >= 0, t < d))
        return z3.BoolVal(True)
    # negative literals
    for i in advpos:
        x = arrs[i]
        if all(isinstance(d, int) for d in x._shape):
            pass
    generic_check(bshape, chk)
    out = SymArray(tuple(out_shape), g, a.kind)
    if a.ndim == 1 and a.kind == "int" and arrs[0].ndim == 1 and \
            arrs[0].prov is not None and \
            arrs[0].prov[1] is arrs[0].buf.f:
        _selection(a, f, out, arrs[0].prov[0])
    return out


def _selection(a, f, out, key):
    """values of an integer array at selected positions: membership"""
    c = ctx()
    memf = c.fresh_fn("sel", T.I, z3.BoolSort())
    posf = c.fresh_fn("selpos", T.I, T.I)
    n = dim_term(out._shape[0])
    h = out.buf.f

    def at(p):
        with quiet():
            return f((p,))
    c.fact(lambda p: z3.Implies(key.mem(p), memf(at(p))),
           (dim_term(a._shape[0]),))
    c.fact(lambda k: z3.Implies(memf(k), z3.And(
        posf(k) >= 0, posf(k) < n, _quietly(h, posf(k)) == k)), (None,))
    try:
        inner = index_info(a)
    except Unsupported:
        inner = None

    def mem(k):
        if inner is not None and inner.pos is not None:
            inner.pos(k)
        key.idx(posf(k))
        return memf(k)
    out.prov = (IndexInfo(
        out._shape[0], None, lambda j: h((j,)), mem,
        lambda k: c.note_idx(posf(k)),
        key.injective and inner is not None and inner.injective), h)


def _quietly(f, *i):
    with quiet():
        return f(tuple(i))


def _expand_slice(k, d):
    if isinstance(k, slice) and k.step not in (None, 1):
        if isinstance(d, int):
            return _np.arange(d)[k]
        if k.start is None and k.stop is None and k.step == -1:
            n = dim_term(d)
            return SymArray((d,), lambda i: n - 1 - i[0], "int")
        raise Unsupported("strided slice of a symbolic-length array")
    return k


def _newaxis_get(a, key):
    key2 = []
    newax = []
    pos = 0
    for k in key:
        if k is None:
            newax.append(pos)
            pos += 1
        else:
            key2.append(k)
            if isinstance(k, slice):
                pos += 1
            elif isinstance(k, SymArray):
                raise Unsupported("newaxis with advanced index")
    rest = a.ndim - len([k for k in key2 if k is not Ellipsis])
    base = a[tuple(key2)] if key2 else a
    f = base.snap()
    shape = list(base._shape)
    for p in newax:
        if builtins.any(k is Ellipsis for k in key) and p > 0:
            p = len(shape)
        shape.insert(p, 1)
    keep = []
    it = 0
    sh2 = list(base._shape)
    src = list(range(len(base._shape)))
    marks = []
    tmp = list(src)
    for p in newax:
        if builtins.any(k is Ellipsis for k in key) and p > 0:
            p = len(tmp)
        tmp.insert(p, None)
    pick = [i for i, m in enumerate(tmp) if m is not None]
    return SymArray(tuple(shape), lambda idx: f(tuple(idx[i] for i in pick)),
                    a.kind)


def _concrete_mask_get(a, k):
    raise Unsupported("n-d boolean mask")


def fancy_set(a, key, value):
    if isinstance(key, tuple) and len(key) == 1:
        key = key[0]
    if key is None:
        # a[None] is a view with a leading axis: a[None] = v writes all of a
        assign(a, value)
        return
    if isinstance(key, tuple):
        return _fancy_set_tuple(a, key, value)
    if isinstance(key, slice):
        key = _expand_slice(key, a._shape[0])
    k = as_array(key)
    if k is None:
        raise Unsupported(f"assignment key {type(key)}")
    if k.kind == "bool":
        if k.ndim == a.ndim:
            v = as_array(value)
            kf = k.snap()
            for d1, d2 in zip(a._shape, k._shape):
                require_dims(d1, d2, "boolean index")
            if v is None:
                t = T.lift(value)
                a.write(lambda i: t, lambda i: kf(i))
                return
            if a.ndim == 1 and v.ndim == 1:
                nz = nonzero1(k)
                info = nz.prov[0]
                require_dims(nz._shape[0], v._shape[0], "masked assignment")
                vf = v.snap()
                a.write(lambda i: vf((info.pos(i[0]),)),
                        lambda i: kf(i))
                return
            raise Unsupported("masked assignment form")
        if k.ndim == 1:
            k = nonzero1(k)
        else:
            raise Unsupported("masked assignment form")
    if k.ndim != 1:
        raise Unsupported("assignment with n-d index array")
    if isinstance(k._shape[0], int) and k._shape[0] == 0:
        return
    if a.ndim == 1 and isinstance(k._shape[0], int) and k._shape[0] <= 16:
        # finitely many positions: explicit updates
        kf0 = k.snap()
        v = as_array(value)
        if v is not None:
            require_dims(k._shape[0], v._shape[0], "indexed assignment")
        vf0 = None if v is None else v.snap()
        for j in range(k._shape[0]):
            tj = kf0((z3.IntVal(j),))
            T.welldef("index in bounds",
                      z3.And(tj >= 0, tj < dim_term(a._shape[0])))
            vv = T.lift(value) if v is None else vf0((z3.IntVal(j),))
            a.write(lambda i, vv=vv: vv,
                    lambda i, tj=tj: T.t_eq(i[0], tj))
        return
    info = index_info(k)
    kf = k.snap()
    n = dim_term(a._shape[0])

    def chk(idx):
        t = kf(idx)
        ctx().note_idx(t)
        T.welldef("index in bounds", z3.And(t >= 0, t < n))
        return z3.BoolVal(True)
    generic_check(k._shape, chk)
    v = as_array(value)
    if v is None:
        t = T.lift(value)
        a.write(lambda i: t, lambda i: info.mem(i[0]))
        return
    if v.ndim == a.ndim:
        require_dims(k._shape[0], v._shape[0], "indexed assignment") \
            if not (isinstance(v._shape[0], int) and v._shape[0] == 1) \
            else None
        vf = v.snap()
        one = isinstance(v._shape[0], int) and v._shape[0] == 1
        a.write(lambda i: vf(bidx(
            ((z3.IntVal(0) if one else info.pos(i[0])),) + i[1:],
            v._shape)), lambda i: info.mem(i[0]))
        return
    raise Unsupported("indexed assignment form")


def _fancy_set_tuple(a, key, value):
    arrs = [as_array(k) if isinstance(k, (SymArray, _np.ndarray, list))
            else None for k in key]
    adv = [i for i, x in enumerate(arrs) if x is not None]
    if len(adv) == 1 and all(
            isinstance(k, slice) and k == slice(None)
            for i, k in enumerate(key) if i not in adv):
        v = as_array(value)
        i0 = adv[0]
        k = arrs[i0]
        if k.kind == "bool":
            k = nonzero1(k)
        info = index_info(k)
        if v is None:
            t = T.lift(value)
            a.write(lambda i: t, lambda i: info.mem(i[i0]))
            return
        vf = v.snap()
        vs = v._shape

        def g(i):
            j = list(i)
            j[i0] = info.pos(i[i0])
            return vf(bidx(tuple(j), vs))
        a.write(g, lambda i: info.mem(i[i0]))
        return
    raise Unsupported("assignment with this index tuple")


# -- ufuncs -------------------------------------------------------------------
class UFunc:
    def __init__(self, name, op, nin, real, dtype=None):
        self.name, self.op, self.nin = name, op, nin
        self.real, self.dtype = real, dtype
        self.__name__ = name

    def __call__(self, *args, out=None, where=True, dtype=None, **kw):
        if len(args) == self.nin + 1:
            out = args[-1]
            args = args[:-1]
        if isinstance(out, tuple):
            out = out[0]
        if not (builtins.any(is_sym(a) for a in args) or is_sym(out)
                or is_sym(where)):
            k2 = dict(kw)
            if dtype is not None:
                k2["dtype"] = getattr(dtype, "_real", dtype)
            if where is not True:
                k2["where"] = where
            return self.real(*args, out=out, **k2) if out is not None \
                else self.real(*args, **k2)
        kw.pop("casting", None)
        if kw:
            raise Unsupported(f"np.{self.name} options {list(kw)}")
        if where is not True:
            return self._where(args, out, where)
        try:
            inf = [isinstance(a, float) and a in (INF, -INF) for a in args]
        except Exception:
            inf = [False]
        if builtins.any(inf):
            return self._inf(args, inf, out)
        r = elementwise(self.op, *args, dtype=self.dtype)
        if out is not None:
            return _out_assign(out, r)
        return r

    def _inf(self, args, inf, out):
        if self.name in ("maximum", "minimum") and len(args) == 2:
            other = args[1] if inf[0] else args[0]
            v = args[0] if inf[0] else args[1]
            keep = (v == -INF) == (self.name == "maximum")
            if keep:
                r = asarray(other) if isinstance(other, SymArray) else other
                return _out_assign(out, r) if out is not None else r
        raise Unsupported("ufunc with infinite argument")

    def _where(self, args, out, where):
        w = as_array(where)
        # the partial operation is only evaluated where the mask holds
        c = ctx()
        shapes = [x._shape for x in map(as_array, args) if x is not None]
        if w is None:
            raise Unsupported("scalar where=")
        shapes.append(w._shape)
        shape = broadcast_shapes(shapes)
        wf = w.snap()
        ops = []
        for a in args:
            x = as_array(a)
            ops.append((None, T.lift(a)) if x is None
                       else (x._shape, x.snap()))

        def f(idx):
            return self.op(*[t if s is None else t(bidx(idx, s))
                             for s, t in ops])

        def chk(idx):
            m = wf(bidx(idx, w._shape))
            n0 = len(c.pc)
            c.pc.append(T.t_bool(m))
            f(idx)
            del c.pc[n0:]
            return m
        generic_check(shape, chk)
        if out is None:
            raise Unsupported("where= without out=")

        def q(idx):
            with quiet():
                return f(idx)
        out.write(q, lambda idx: T.t_bool(wf(bidx(idx, w._shape))))
        return out

    def reduce(self, a, axis=0, **k):
        r = {"add": np_sum, "maximum": np_max, "minimum": np_min,
             "logical_or": np_any, "logical_and": np_all}.get(self.name)
        if r is None or not is_sym(a):
            if not is_sym(a):
                return self.real.reduce(a, axis=axis, **k)
            raise Unsupported(f"{self.name}.reduce")
        return r(a, axis=axis)

    def at(self, a, idx, b=None):
        if not (is_sym(a) or is_sym(idx) or is_sym(b)):
            return self.real.at(a, idx, b) if b is not None else \
                self.real.at(a, idx)
        if self.name == "add" and isinstance(a, SymArray):
            return scatter_add(a, idx, b)
        raise Unsupported(f"np.{self.name}.at")

    def outer(self, *a):
        raise Unsupported("ufunc.outer")


def t_square(a):
    return T.t_mul(a, a)


def t_recip(a):
    return T.t_div(z3.RealVal(1), a, True)


def t_sign(a):
    return T.t_if(T.t_gt(a, z3.IntVal(0)), z3.IntVal(1),
                  T.t_if(T.t_lt(a, z3.IntVal(0)), z3.IntVal(-1),
                         z3.IntVal(0)))


def _lnot(a):
    return z3.Not(T.t_bool(a))


def _land(a, b):
    return z3.And(T.t_bool(a), T.t_bool(b))


def _lor(a, b):
    return z3.Or(T.t_bool(a), T.t_bool(b))


def t_floor_r(a):
    a = T.val(a)
    if T.is_int(a):
        return a
    return z3.ToReal(z3.ToInt(a))


def t_ceil_r(a):
    return T.t_neg(t_floor_r(T.t_neg(a)))


def t_log1p(a):
    return T.t_log(T.t_add(z3.RealVal(1), a), True)


def t_expm1(a):
    return T.t_sub(T.t_exp(a), z3.RealVal(1))


def t_copysign(a, b):
    m = T.t_abs(a)
    return T.t_if(T.t_ge(b, z3.IntVal(0)), m, T.t_neg(m))


from . import engine as _e
_e.PARTIAL |= {t_recip, t_log1p}
_e._REALRES |= {t_recip, t_log1p, t_expm1}

_UF = {
    "add": (T.t_add, 2), "subtract": (T.t_sub, 2), "multiply": (T.t_mul, 2),
    "divide": (_np_div, 2), "true_divide": (_np_div, 2),
    "floor_divide": (_np_floordiv, 2), "mod": (_np_mod, 2),
    "remainder": (_np_mod, 2),
    "power": (_np_pow, 2), "float_power": (_np_pow, 2),
    "maximum": (T.t_max, 2), "minimum": (T.t_min, 2),
    "fmax": (T.t_max, 2), "fmin": (T.t_min, 2),
    "negative": (T.t_neg, 1), "positive": (lambda a: a, 1),
    "absolute": (T.t_abs, 1), "fabs": (T.t_abs, 1), "abs": (T.t_abs, 1),
    "square": (t_square, 1), "reciprocal": (t_recip, 1),
    "tanh": (T.t_tanh, 1), "cosh": (T.t_cosh, 1), "sinh": (T.t_sinh, 1),
    "exp": (T.t_exp, 1), "log": (T.t_log, 1), "log1p": (t_log1p, 1),
    "expm1": (t_expm1, 1),
    "sqrt": (T.t_sqrt, 1), "sin": (T.t_sin, 1), "cos": (T.t_cos, 1),
    "sign": (t_sign, 1), "copysign": (t_copysign, 2),
    "floor": (t_floor_r, 1), "ceil": (t_ceil_r, 1),
    "greater": (T.t_gt, 2, "bool"), "greater_equal": (T.t_ge, 2, "bool"),
    "less": (T.t_lt, 2, "bool"), "less_equal": (T.t_le, 2, "bool"),
    "equal": (T.t_eq, 2, "bool"), "not_equal": (T.t_ne, 2, "bool"),
    "logical_not": (_lnot, 1, "bool"), "logical_and": (_land, 2, "bool"),
    "logical_or": (_lor, 2, "bool"),
    "isfinite": (lambda a: z3.BoolVal(True), 1, "bool"),
    "isnan": (lambda a: z3.BoolVal(False), 1, "bool"),
    "isinf": (lambda a: z3.BoolVal(False), 1, "bool"),
    "bitwise_and": (_b_and, 2, "bool"), "bitwise_or": (_b_or, 2, "bool"),
    "invert": (_lnot, 1, "bool"),
}
UFUNCS = {k: UFunc(k, v[0], v[1], getattr(_np, k),
                   v[2] if len(v) > 2 else None) for k, v in _UF.items()}


# -- construction -------------------------------------------------------------
def _shape_arg(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(norm_dim(d) for d in shape)
    return (norm_dim(shape),)


def _const_array(shape, t, kind):
    if kind == "real":
        t = T.to_real(T.to_arith(t)) if not isinstance(t, Dual) else t
    elif kind == "int":
        t = T.t_trunc(t)
    else:
        t = T.t_bool(t)
    return SymArray(shape, lambda i: t, kind)


def _want_sym():
    return Ctx.cur is not None


def full(shape, v, dtype=None, **k):
    sh = _shape_arg(shape)
    kind = kind_of_dtype(dtype) if dtype is not None else (
        v.kind if isinstance(v, Sym) else
        {"f": "real", "i": "int", "b": "bool"}[_np.asarray(v).dtype.kind])
    return _const_array(sh, T.lift(v), kind)


def zeros(shape, dtype=float, order="C", **k):
    if _real_dtype_only(dtype):
        return _np.zeros(shape, dtype=dtype)
    return _const_array(_shape_arg(shape), z3.IntVal(0),
                        kind_of_dtype(dtype))


def ones(shape, dtype=float, order="C", **k):
    if _real_dtype_only(dtype):
        return _np.ones(shape, dtype=dtype)
    return _const_array(_shape_arg(shape), z3.IntVal(1),
                        kind_of_dtype(dtype))


def _real_dtype_only(dtype):
    try:
        kind_of_dtype(dtype)
        return False
    except Exception:
        return True


def empty(shape, dtype=float, order="C", **k):
    if _real_dtype_only(dtype):
        return _np.empty(shape, dtype=dtype)
    return havoc_array(_shape_arg(shape), kind_of_dtype(dtype), "empty")


def havoc_array(shape, kind, name="arr"):
    c = ctx()
    sort = {"real": T.R, "int": T.I, "bool": z3.BoolSort()}[kind]
    if len(shape) == 0:
        v = c.fresh(name, sort)
        return SymArray((), lambda i: v, kind)
    fn = c.fresh_fn(name, *([T.I] * len(shape) + [sort]))
    return SymArray(shape, lambda i: fn(*i), kind, name)


def _like(a, dtype):
    a = as_array(a)
    if a is None:
        raise Unsupported("_like of a scalar")
    return a, (kind_of_dtype(dtype) if dtype is not None else a.kind)


def empty_like(a, dtype=None, **k):
    a, kd = _like(a, dtype)
    return havoc_array(a._shape, kd, "empty")


def zeros_like(a, dtype=None, **k):
    if as_array(a) is None:
        return 0.0
    a, kd = _like(a, dtype)
    return _const_array(a._shape, z3.IntVal(0), kd)


def ones_like(a, dtype=None, **k):
    a, kd = _like(a, dtype)
    return _const_array(a._shape, z3.IntVal(1), kd)


def full_like(a, v, dtype=None, **k):
    a, kd = _like(a, dtype)
    return _const_array(a._shape, T.lift(v), kd)


def array(x, dtype=None, copy=True, ndmin=0, **k):
    if type(x).__name__ == "SymList":
        from .loops import Opaque
        return Opaque("array of an untracked list")
    if type(x).__name__ in ("Seq", "FamList") and _is_seq(x):
        a = _array_seq(x)
        return a if dtype is None else a.astype(dtype)
    if not is_sym(x):
        dt = getattr(dtype, "_real", dtype)
        return _np.array(x, dtype=dt)
    if isinstance(x, Sym):
        return x if dtype is None else Sym(
            {"real": lambda t: t if isinstance(t, Dual) else
             T.to_real(T.to_arith(t)), "int": T.t_trunc,
             "bool": T.t_bool}[kind_of_dtype(dtype)](x.t))
    if isinstance(x, (list, tuple)) and len(x) and builtins.any(
            isinstance(y, SymArray) and not builtins.all(
                isinstance(d, int) for d in y._shape) for y in x):
        return stack(x, axis=0)
    if isinstance(x, (list, tuple)) and len(x) and builtins.all(
            isinstance(y, (list, tuple)) for y in x) and builtins.any(
            isinstance(z, SymArray) and z.ndim for y in x for z in y):
        return stack([array(y) for y in x], axis=0)
    a = as_array(x)
    if dtype is not None:
        return a.astype(dtype)
    return a.copy() if isinstance(x, SymArray) else a


def asarray(x, dtype=None, **k):
    if isinstance(x, SymArray):
        if dtype is None or kind_of_dtype(dtype) == x.kind:
            return x
        return x.astype(dtype)
    return array(x, dtype)


def atleast_1d(x):
    if isinstance(x, Sym):
        t = x.t
        return SymArray((1,), lambda i: t, x.kind)
    if isinstance(x, SymArray):
        if x.ndim == 0:
            t = x.at()
            return SymArray((1,), lambda i: t, x.kind)
        return x
    return _np.atleast_1d(x) if not is_sym(x) else as_array(x)


def copy(a, **k):
    return a.copy()


def copyto(dst, src, where=True, **k):
    if where is not True:
        w = as_array(where)
        wf = w.snap()
        s = as_array(src)
        if s is None:
            t = T.lift(src)
            dst.write(lambda i: t, lambda i: T.t_bool(wf(bidx(i, w._shape))))
        else:
            sf = s.snap()
            dst.write(lambda i: sf(bidx(i, s._shape)),
                      lambda i: T.t_bool(wf(bidx(i, w._shape))))
        return
    assign(dst, src)


def arange(*a, dtype=None, **k):
    if not builtins.any(is_sym(x) for x in a):
        dt = getattr(dtype, "_real", dtype)
        return _np.arange(*a, dtype=dt)
    if len(a) == 1:
        st, en = z3.IntVal(0), T.val(T.lift(a[0]))
    elif len(a) == 2:
        st, en = T.val(T.lift(a[0])), T.val(T.lift(a[1]))
    else:
        raise Unsupported("arange with a step")
    if not (T.is_int(st) and T.is_int(en)):
        raise Unsupported("arange of reals")
    n = z3.simplify(T.t_max(T.t_sub(en, st), z3.IntVal(0)))
    if T.const_val(st) == 0 and not ctx().feasible(en < 0):
        n = z3.simplify(en)
    arr = SymArray((norm_dim(n),), lambda i: T.t_add(st, i[0]), "int")
    c = ctx()
    info = IndexInfo(arr._shape[0], None, lambda j: T.t_add(st, j),
                     lambda q: z3.And(q >= st, q < en),
                     lambda q: T.t_sub(q, st), True)
    arr.prov = (info, arr.buf.f)
    return arr


def stack(xs, axis=0):
    if _is_seq(xs):
        return _stack_seq(xs, axis % 2)
    xs = [as_array(x) for x in xs]
    sh = xs[0]._shape
    for x in xs[1:]:
        for p, q in zip(sh, x._shape):
            require_dims(p, q, "stack")
    nd = len(sh) + 1
    axis %= nd
    fs = [x.snap() for x in xs]
    kinds = [x.kind for x in xs]
    kd = "real" if "real" in kinds else kinds[0]

    def f(idx):
        j = idx[axis]
        rest = idx[:axis] + idx[axis + 1:]
        c = T.const_val(j)
        if c is not None:
            return fs[int(c)](rest)
        r = fs[-1](rest)
        for k in range(len(fs) - 2, -1, -1):
            r = T.t_if(j == k, fs[k](rest), r)
        return r
    return SymArray(sh[:axis] + (len(xs),) + sh[axis:], f, kd)


def _array_seq(xs):
    """array of the items of a list of symbolic length"""
    from . import loops
    c = ctx()
    n = loops.seq_len(xs)
    if not c.decide(n > 0):
        return _np.array([])
    k = c.fresh_idx(n, "item")
    g = xs.at(k)
    if isinstance(g, SymArray) and g.ndim:
        return _stack_seq(xs, 0)
    if isinstance(g, (list, tuple)) and not loops.is_seq(g):
        m = len(g)
        if not m or builtins.any(isinstance(y, (list, tuple, SymArray))
                                 for y in g):
            raise Unsupported("array of nested symbolic lists")

        def f(i):
            ts = [T.to_real(T.to_arith(T.lift(y))) for y in xs.at(i[0])]
            r = ts[-1]
            for j in range(m - 2, -1, -1):
                r = z3.If(T.lift(i[1]) == j, ts[j], r)
            return z3.simplify(r) if T.const_val(T.lift(i[1])) is not None \
                else r
        return SymArray((norm_dim(n), m), f, "real")
    kd = {"Real": "real", "Int": "int", "Bool": "bool"}[
        T.lift(g).sort().name()]
    return SymArray((norm_dim(n),), lambda i: T.lift(xs.at(i[0])), kd)


def _stack_seq(xs, axis):
    """1-D arrays of equal length in a list of symbolic length"""
    from . import loops
    c = ctx()
    n = loops.seq_len(xs)
    if not c.decide(n > 0):
        raise ValueError("need at least one array to stack")
    k = c.fresh_idx(n, "col")
    g = xs.at(k)
    if not isinstance(g, SymArray) or g.ndim != 1:
        raise Unsupported("stack of a symbolic list of non-vectors")
    m = dim_term(g.dims[0])
    if _contains(m, k):
        m0 = dim_term(xs.at(z3.IntVal(0)).dims[0])
        c.oblige("stacked columns have one length", m == m0, kind="welldef")
        m = m0

    def f(idx):
        i, d = idx[axis], idx[1 - axis]
        return T.lift(xs.at(i).at(d))
    shape = (n, m) if axis == 0 else (m, n)
    return SymArray(shape, f, g.kind)


def column_stack(xs):
    if type(xs).__name__ in ("Seq", "FamList") and _is_seq(xs):
        return _stack_seq(xs, 1)
    xs = [as_array(x) for x in xs]
    if builtins.all(x.ndim == 1 for x in xs):
        return stack(xs, axis=1)
    return concatenate([x if x.ndim == 2 else x[:, None] for x in xs],
                       axis=1)


def _is_seq(x):
    from . import loops
    return loops.is_seq(x)


def vstack(xs):
    if _is_seq(xs):
        return _stack_seq(xs, 0)
    xs = [as_array(x) for x in xs]
    if builtins.all(x.ndim == 1 for x in xs):
        return stack(xs, axis=0)
    return concatenate(xs, axis=0)


def concatenate(xs, axis=0, **k):
    from . import sparse
    seg = sparse.concat_family(xs)
    if seg is not None:
        return seg
    xs = [as_array(x) for x in xs]
    if len(xs) == 1:
        return xs[0].copy()
    fs = [x.snap() for x in xs]
    kinds = [x.kind for x in xs]
    kd = "real" if "real" in kinds else ("int" if "int" in kinds
                                         else kinds[0])
    offs = [z3.IntVal(0)]
    for x in xs:
        offs.append(z3.simplify(T.t_add(offs[-1], dim_term(x._shape[axis]))))

    def f(idx):
        j = idx[axis]
        r = None
        for q in range(len(xs) - 1, -1, -1):
            if offs[q].eq(offs[q + 1]) and len(xs) > 1 and (
                    r is not None or q > 0):
                continue            # nothing there
            jj = T.t_sub(j, offs[q])
            loc = idx[:axis] + (jj,) + idx[axis + 1:]
            cj = T.const_val(j)
            if cj is not None and T.const_val(offs[q]) is not None and \
                    T.const_val(offs[q + 1]) is not None:
                if T.const_val(offs[q]) <= cj < T.const_val(offs[q + 1]):
                    return fs[q](idx[:axis] + (z3.simplify(jj),)
                                 + idx[axis + 1:])
                continue
            v = fs[q](loc)
            r = v if r is None else T.t_if(j < offs[q + 1], v, r)
        return r
    sh = list(xs[0]._shape)
    sh[axis] = norm_dim(offs[-1])
    out = SymArray(tuple(sh), f, kd)
    if out.ndim == 1 and kd == "int" and ctx().ghost.get("quantified"):
        c, cat = ctx(), ctx().fresh_fn("cat", T.I, T.I)
        for x, fx, o in zip(xs, fs, offs):
            n, o = dim_term(x._shape[0]), dim_term(o)
            c.fact(lambda j, fx=fx, o=o: cat(o + j) == fx((j,)), (n,))
            c.fact(lambda j, fx=fx, o=o, n=n: z3.Implies(
                z3.And(j >= o, j < o + n), cat(j) == fx((j - o,))))
        out = SymArray(tuple(sh), lambda i: cat(i[0]), kd)
    full_ = [x for x in xs if not (isinstance(x._shape[0], int)
                                   and x._shape[0] == 0)]
    if out.ndim == 1 and builtins.all(
            x.kind == "int" or x.prov is not None and x.prov[1] is x.buf.f
            for x in full_):
        try:
            ms = [_mem_of(x) for x in full_]
        except Unsupported:
            return out
        out.prov = (IndexInfo(
            out._shape[0], None, lambda j: out.buf.f((j,)),
            lambda k: z3.Or(*[m(k) for m in ms]) if ms
            else z3.BoolVal(False), None, False), out.buf.f)
    return out


def reshape(a, shape):
    shape = tuple(norm_dim(d) if not (isinstance(d, int) and d == -1) else -1
                  for d in (shape if isinstance(shape, (tuple, list))
                            else (shape,)))
    if builtins.all(isinstance(d, int) for d in a._shape):
        total = 1
        for d in a._shape:
            total *= d
        if -1 in shape:
            k = 1
            for d in shape:
                if d != -1:
                    k *= d
            shape = tuple(total // k if d == -1 else d for d in shape)
        f = a.snap()
        src = a._shape

        def g(idx):
            cs = [T.const_val(z3.simplify(i)) for i in idx]
            if builtins.any(c is None for c in cs):
                raise Unsupported("symbolic index after reshape")
            flat = 0
            for c, d in zip(cs, shape):
                flat = flat * d + int(c)
            out = []
            for d in reversed(src):
                out.append(z3.IntVal(flat % d))
                flat //= d
            return f(tuple(reversed(out)))
        return SymArray(shape, g, a.kind)
    if a.ndim == 1 and shape in ((-1,),) or (
            len(shape) == 1 and a.ndim == 1 and
            (shape[0] == -1 or dims_equal(shape[0], a._shape[0]))):
        return SymArray.view(a.buf, a._shape, a.vmap)
    if a.ndim == 1 and len(shape) == 2 and shape[1] == 1:
        f = a.snap()
        return SymArray((a._shape[0], 1), lambda i: f((i[0],)), a.kind)
    if a.ndim == 1 and len(shape) == 2 and shape[0] == 1:
        f = a.snap()
        return SymArray((1, a._shape[0]), lambda i: f((i[1],)), a.kind)
    if shape == (-1,):
        return _ravel(a)
    raise Unsupported("reshape of a symbolic-length array")


def _ravel(a):
    sh = a._shape
    ones = [d for d in sh if isinstance(d, int) and d == 1]
    if len(ones) == len(sh) - 1:
        q = [i for i, d in enumerate(sh) if not (isinstance(d, int)
                                                 and d == 1)][0]
        vm = [("i", z3.IntVal(0)) if i != q else ("d", 0, None)
              for i in range(len(sh))]
        if a.vmap is None:
            return SymArray.view(a.buf, (sh[q],), vm)
    small = [i for i, d in enumerate(sh) if isinstance(d, int)]
    if len(sh) == 2 and len(small) == 1 and sh[small[0]] <= 16:
        return _ravel2(a, small[0])
    raise Unsupported("reshape of a symbolic-length array")


def _ravel2(a, q):
    """row-major ravel of a (k, n) or (n, k) array, k a small constant"""
    c = ctx()
    k, n = a._shape[q], dim_term(a._shape[1 - q])
    f = a.snap()
    K = z3.IntVal(k)

    def split(i):
        if q == 1:
            return (i / K, i % K)
        # (k, n): row a holds positions a*n .. a*n+n-1
        r = z3.IntVal(0)
        for j in range(1, k):
            r = z3.If(i >= j * n, z3.IntVal(j), r)
        return (r, i - r * n)

    def g(i):
        ix = split(i[0])
        c.note_idx(ix[1 - q])
        if q == 0:
            r = f((z3.IntVal(0), ix[1]))
            for j in range(1, k):
                r = T.t_if(ix[0] == j, f((z3.IntVal(j), ix[1])), r)
            return r
        return f(ix)
    out = SymArray((z3.simplify(K * n),), g, a.kind)
    if q == 0:
        out.blk = (k, n, lambda x, e: f((z3.IntVal(x), e)), out.buf.f)
    if a.kind != "int":
        return out
    memf = c.fresh_fn("mem", T.I, z3.BoolSort())
    posf = c.fresh_fn("pos", T.I, T.I)

    def ent(j, e):
        return f((z3.IntVal(j), e) if q == 0 else (e, z3.IntVal(j)))
    c.fact(lambda e: z3.And(*[memf(ent(j, e)) for j in range(k)]), (n,))
    c.fact(lambda x: z3.Implies(memf(x), z3.And(
        posf(x) >= 0, posf(x) < n,
        z3.Or(*[ent(j, posf(x)) == x for j in range(k)]))), (None,))

    def mem(x):
        c.note_idx(posf(x))
        return memf(x)
    info = IndexInfo(out._shape[0], None, lambda j: out.snap()((j,)), mem,
                     None, False)
    out.prov = (info, out.buf.f)
    return out


def _blocks(x):
    """(m, n, f(block, position)) of an array that is m blocks of n"""
    if x.ndim == 2 and isinstance(x._shape[0], int):
        f = x.snap()
        return (x._shape[0], dim_term(x._shape[1]),
                lambda a, e: f((z3.IntVal(a), e)))
    if x.ndim == 1:
        if x.blk is not None and x.blk[3] is x.buf.f:
            return x.blk[:3]
        f = x.snap()
        return 1, dim_term(x._shape[0]), lambda a, e: f((e,))
    raise Unsupported("scatter of this shape")


def scatter_sum(idx, v):
    """i -> sum of v[j] over the positions j with idx[j] = i"""
    c = ctx()
    m, n, ix = _blocks(idx)
    if isinstance(v, SymArray) and v.ndim:
        if v.ndim == 1 and idx.ndim == 2:
            require_dims(v._shape[0], idx._shape[1], "scatter")
            f = v.snap()
            val = lambda a, e: f((e,))                      # noqa: E731
        else:
            if v.ndim == idx.ndim:
                for p, q in zip(v._shape, idx._shape):
                    require_dims(p, q, "scatter")
            m2, n2, val = _blocks(v)
            if m2 != m or not (n2.eq(n) or c.provable(n2 == n)):
                f = v.snap()
                if v.ndim != 1:
                    raise Unsupported("scatter of this shape")
                val = lambda a, e: f((a * n + e,))          # noqa: E731
    else:
        t = v.at() if isinstance(v, SymArray) else T.lift(v)
        val = lambda a, e: t                                # noqa: E731

    def g(i):
        c = ctx()
        c.note_idx(T.lift(i))
        r = z3.RealVal(0)
        for a in range(m):
            r = T.t_add(r, sum_term(lambda e: z3.If(
                T.lift(ix(a, e)) == i, T.to_real(T.lift(val(a, e))),
                z3.RealVal(0)), n))
        return r
    return g


def scatter_add(a, idx, v):
    """np.add.at: repeated indices add up"""
    idx = as_array(idx)
    if a.ndim != 1 or idx.kind != "int":
        raise Unsupported("add.at of this shape")
    g = scatter_sum(idx, v)
    N, c = dim_term(a._shape[0]), ctx()
    m, n, ix = _blocks(idx)
    e = c.fresh("j", T.I)
    c.note_idx(e)
    for b in range(m):
        with quiet():
            t = T.lift(ix(b, e))
        c.oblige("welldef: index in bounds", z3.Implies(
            z3.And(e >= 0, e < n), z3.And(t >= -N, t < N)), kind="welldef")
    f0 = a.snap()
    neg = z3.Implies(z3.And(e >= 0, e < n), z3.And(*[
        T.lift(ix(b, e)) >= 0 for b in range(m)]))
    if not c.provable(neg):
        raise Unsupported("add.at with negative indices")
    a.write(lambda i: T.t_add(T.to_real(T.lift(f0(i))), g(i[0])))


def bincount(x, weights=None, minlength=0):
    if not (is_sym(x) or is_sym(weights)):
        return _np.bincount(x, weights, minlength)
    x = as_array(x)
    g = scatter_sum(x, 1 if weights is None else weights)
    N, c = dim_term(minlength), ctx()
    m, n, ix = _blocks(x)
    e = c.fresh("j", T.I)
    c.note_idx(e)
    if not c.provable(z3.Implies(z3.And(e >= 0, e < n), z3.And(*[
            z3.And(T.lift(ix(b, e)) >= 0, T.lift(ix(b, e)) < N)
            for b in range(m)]))):
        raise Unsupported("bincount without a length")
    return SymArray((N,), lambda i: g(i[0]), "real")


def where(cond, *ab):
    if not ab:
        c = as_array(cond)
        if c.ndim != 1:
            raise Unsupported("np.where on n-d mask")
        return (nonzero1(to_bool_mask(c)),)
    if not (is_sym(cond) or is_sym(ab[0]) or is_sym(ab[1])):
        return _np.where(cond, *ab)

    def op(c, a, b):
        return T.t_if(T.t_bool(c), a, b)
    a0, b0 = ab
    ks = []
    for x in (a0, b0):
        y = as_array(x)
        ks.append(y.kind if y is not None else Sym(T.lift(x)).kind)
    kd = "real" if "real" in ks else ("int" if "int" in ks else "bool")
    return elementwise(op, cond, a0, b0, dtype=kd)


def nonzero(a):
    return (nonzero1(to_bool_mask(as_array(a))),)


def flatnonzero(a):
    return nonzero1(to_bool_mask(as_array(a)))


argwhere = None


def clip(a, lo=None, hi=None, out=None, a_min=None, a_max=None, **k):
    if lo is None:
        lo = a_min
    if hi is None:
        hi = a_max
    if k:
        lo = k.pop("min", lo)
        hi = k.pop("max", hi)
        if k:
            raise Unsupported(f"clip options {list(k)}")
    if not (is_sym(a) or is_sym(lo) or is_sym(hi) or is_sym(out)):
        return _np.clip(a, lo, hi, out=out)
    if isinstance(lo, float) and lo == -INF:
        lo = None
    if isinstance(hi, float) and hi == INF:
        hi = None
    r = a
    if lo is not None:
        r = elementwise(T.t_max, r, lo)
    if hi is not None:
        r = elementwise(T.t_min, r, hi)
    if lo is None and hi is None:
        r = a.copy()
    if out is not None:
        return _out_assign(out, r)
    return r


# -- sets ---------------------------------------------------------------------
def _mem_of(a):
    a = as_array(a)
    if a.ndim > 1:
        a = a.reshape(-1)
    if isinstance(a._shape[0] if a.ndim else 0, int) and a.ndim == 1 and \
            a._shape[0] <= 16:
        f = a.snap()
        ts = [f((z3.IntVal(j),)) for j in range(a._shape[0])]
        return lambda k: z3.Or(*[k == t for t in ts]) if ts \
            else z3.BoolVal(False)
    info = index_info(a)
    return info.mem


def isin(a, b, assume_unique=False, invert=False, **kw):
    if not (is_sym(a) or is_sym(b)):
        return _np.isin(a, b, assume_unique=assume_unique, invert=invert)
    a = as_array(a)
    if b is None:       # numpy: no element equals None
        mem = lambda k: z3.BoolVal(False)
    else:
        mem = _mem_of(as_array(b).reshape(-1) if as_array(b).ndim > 1
                      else as_array(b))
    f = a.snap()

    def g(i):
        t = f(i)
        Ctx.cur.note_idx(t)
        m = mem(t)
        return z3.Not(m) if invert else m
    return SymArray(a._shape, g, "bool")


def _range_bound(*arrs):
    return None


def _set_array(name, mem):
    """sorted duplicate-free array holding {k | mem(k)} (unbounded index
    domain)"""
    c = ctx()
    n = c.fresh(f"n_{name}", T.I)
    c.assume(n >= 0)
    idxf = c.fresh_fn(name, T.I, T.I)
    posf = c.fresh_fn(f"pos_{name}", T.I, T.I)
    c.fact(lambda j: z3.And(mem(idxf(j)), posf(idxf(j)) == j), (n,))
    c.fact(lambda k: z3.Implies(mem(k), z3.And(
        posf(k) >= 0, posf(k) < n, idxf(posf(k)) == k)), (None,))
    c.fact(lambda i, j: z3.Implies(i < j, idxf(i) < idxf(j)), (n, n))
    if not c.family:
        c.ghost.setdefault("enumerations", []).append((idxf, mem, n, None))

    def idx(i):
        t = idxf(i[0])
        c.note_idx(t)
        return t
    a = SymArray((n,), idx, "int", name)
    a.prov = (IndexInfo(n, None, lambda j: idx((j,)), mem,
                        lambda k: c.note_idx(posf(k)), True), a.buf.f)
    return a


def setdiff1d(a, b, assume_unique=False):
    if not (is_sym(a) or is_sym(b)):
        return _np.setdiff1d(a, b, assume_unique)
    ma, mb = _mem_of(a), _mem_of(b)
    return _set_array("setdiff", lambda k: z3.And(ma(k), z3.Not(mb(k))))


def union1d(a, b):
    if not (is_sym(a) or is_sym(b)):
        return _np.union1d(a, b)
    ma, mb = _mem_of(a), _mem_of(b)
    return _set_array("union", lambda k: z3.Or(ma(k), mb(k)))


def intersect1d(a, b, **k):
    if not (is_sym(a) or is_sym(b)):
        return _np.intersect1d(a, b, **k)
    ma, mb = _mem_of(a), _mem_of(b)
    return _set_array("inter", lambda k: z3.And(ma(k), mb(k)))


def unique(a, *x, **k):
    if not is_sym(a):
        return _np.unique(a, *x, **k)
    if x or k:
        raise Unsupported("np.unique options")
    a = as_array(a)
    m = _mem_of(a)
    return _set_array("unique", m)


def concat_index_info(xs):
    pass


# -- reductions ---------------------------------------------------------------
def _reduce_axis(fn, a, axis, keepdims, dtype=None):
    """reduce over one (or several) axes by calling fn on 1-D lines"""
    a = as_array(a)
    if isinstance(axis, (tuple, list)):
        axs = sorted([x % a.ndim for x in axis], reverse=True)
        r = a
        for x in axs:
            r = _reduce_axis(fn, r, x, keepdims)
        return r
    axis %= a.ndim
    f = a.snap()
    sh = a._shape[:axis] + a._shape[axis + 1:]

    def g(idx):
        line = SymArray((a._shape[axis],),
                        lambda j: f(idx[:axis] + j + idx[axis:]), a.kind)
        with quiet():
            return T.lift(fn(line))
    kd = dtype or a.kind
    if not sh:
        return Sym(g(()))
    r = SymArray(sh, g, kd)
    if keepdims:
        osh = a._shape[:axis] + (1,) + a._shape[axis + 1:]
        rf = r.snap()
        return SymArray(osh, lambda i: rf(i[:axis] + i[axis + 1:]), kd)
    return r


def _flat_terms(a):
    f = a.snap()
    return [f(tuple(z3.IntVal(i) for i in ix))
            for ix in _np.ndindex(*a._shape)]


def _conc(a):
    return builtins.all(isinstance(d, int) for d in a._shape)


def _axis_none(a, axis):
    return axis is None or (a.ndim == 1 and axis in (0, -1))


_B = z3.Const("_b", T.I)


def _sorted_product(e):
    if e.decl().kind() != z3.Z3_OP_MUL:
        return e
    fs, todo = [], [e]
    while todo:
        x = todo.pop()
        if x.decl().kind() == z3.Z3_OP_MUL:
            todo += x.children()
        else:
            fs.append(x)
    fs.sort(key=lambda x: (x.hash(), x.sexpr() if len(fs) < 9 else ""))
    r = fs[0]
    for x in fs[1:]:
        r = r * x
    return r


def _forget_idx(c, i0, bound):
    """index terms over a bound variable are no instances of anything"""
    new = c.idx[i0:]
    keep = [t for t in new if not builtins.any(
        _contains(t, b) for b in bound)]
    if len(keep) < len(new):
        for t in new:
            c.idx_ids.discard(t.get_id())
        c.idx[i0:] = keep
        for t in keep:
            c.idx_ids.add(t.get_id())


def sum_term(f, n):
    """Sum_{0<=j<n} f(j), normalised by linearity; atomic sums become one
    constant per distinct summand"""
    c = ctx()
    n = z3.simplify(dim_term(n))
    outer = c.ghost.setdefault("sum_bound", [])
    b = z3.Const(f"_b{len(outer)}", T.I)
    outer.append(b)
    i0 = len(c.idx)
    try:
        with quiet():
            e = f(b)
    finally:
        outer.pop()
        _forget_idx(c, i0, [b])
    if isinstance(e, Dual):
        return Dual(sum_term(lambda j: f(j).v, n),
                    sum_term(lambda j: f(j).d, n))
    e = T.to_arith(e)
    for x in outer:
        if _contains(n, x):
            raise Unsupported("sum whose length depends on an outer one")
    isint = T.is_int(e)
    e = z3.simplify(T.to_real(e)) if False else T.to_real(e)
    r = z3.RealVal(0)
    for coef, core in linear_parts(e, b):
        if core is None:
            s = z3.ToReal(n)
        else:
            # bound variables get canonical names: equal sums are one term
            free = [x for x in outer if _contains(core, x)]
            canon = [z3.Const(f"_o{j}", T.I) for j in range(len(free))]
            core = _sorted_product(z3.substitute(
                core, (b, _B), *zip(free, canon)))
            key = (core.get_id(), n.get_id())
            hit = c.sums.get(key)
            if hit is None and free:
                # a sum that depends on the index of an enclosing sum
                S = c.fresh_fn("sum", *[T.I] * len(free), T.R)
                prev = [h for h in c.sums.values() if len(h) == 5]
                c.sums[key] = hit = (S(*canon), core, n, _B, (S, canon))
                c.fact(lambda *x, S=S: z3.Implies(n <= 0, S(*x) == 0),
                       (None,) * len(free))
                if c.ghost.get("sum_ext"):
                    _nested_ext(c, hit, prev)
            elif hit is None:
                s = c.fresh("sum", T.R)
                prev = [h for h in c.sums.values() if len(h) == 4]
                c.sums[key] = hit = (s, core, n, _B)
                _sum_facts(c, s, core, n, _B)
                if c.ghost.get("sum_ext"):
                    _sum_ext(c, hit, prev)
                if c.ghost.get("reindex"):
                    _reindex(c, s, core, n, _B)
            s = hit[4][0](*free) if len(hit) == 5 else hit[0]
        r = T.t_add(r, T.t_mul(coef, s))
    if isint:
        return r
    return r


def _sum_facts(c, s, core, n, b):
    c.assume(z3.Implies(n <= 0, s == 0))
    # sign facts, decided by a side query at an arbitrary index
    if Ctx.cur.ghost.get("no_sum_sign"):
        return
    k = c.fresh("sk", T.I)
    n0 = len(c.pc)
    c.note_idx(k)
    c.pc += [k >= 0, k < n]
    ek = z3.substitute(core, (b, k))
    nonneg = c.provable(ek >= 0, 1500)
    pos = nonneg and c.provable(ek > 0, 1500)
    nonpos = (not nonneg) and c.provable(ek <= 0, 1500)
    del c.pc[n0:]
    if pos:
        c.assume(z3.Implies(n > 0, s > 0))
    if nonneg:
        c.assume(s >= 0)
    if nonpos:
        c.assume(s <= 0)


def _reindex(c, s, core, n, b):
    """an index array enumerates the members of a set without repetition:
    summing g(idx[j]) over j is summing g over the members"""
    for idxf, mem, nt, N in c.ghost.get("enumerations", []):
        if not z3.simplify(nt).eq(n):
            continue
        app = idxf(b)
        v = z3.Const("_v", T.I)
        g = z3.substitute(core, (app, v))
        if _contains(g, b) or not _contains(g, v):
            continue
        if N is None:
            # the universe: one of the sizes the contract names
            k = c.fresh("u", T.I)
            for N in c.ghost["reindex"]:
                N = dim_term(N)
                if c.provable(z3.Implies(mem(k), z3.And(k >= 0, k < N))):
                    break
            else:
                continue
        r = sum_term(lambda k: z3.If(mem(k), z3.substitute(
            g, (v, k)), z3.RealVal(0)), N)
        c.assume(s == r)


def _sum_ext(c, hit, prev):
    """extensionality: equal summands give equal sums"""
    s, core, n, b = hit
    for s2, core2, n2, _ in prev:
        if n2.get_id() != n.get_id():
            continue
        w = c.fresh("w", T.I)
        c.note_idx(w)
        c.assume(z3.Or(s == s2, z3.And(w >= 0, w < n, z3.Not(
            z3.substitute(core, (b, w)) == z3.substitute(core2, (b, w))))))


def _nested_ext(c, hit, prev):
    """extensionality of sums inside sums, at every outer index"""
    s, core, n, b, (S, free) = hit
    for s2, core2, n2, _, (S2, free2) in prev:
        if n2.get_id() != n.get_id() or len(free) != len(free2):
            continue
        w = c.fresh_fn("w", *[T.I] * len(free), T.I)

        def f(*x, w=w, S2=S2, core2=core2):
            v = w(*x)
            sub = list(zip(free, x)) + [(b, v)]
            return z3.Or(S(*x) == S2(*x), z3.And(v >= 0, v < n, z3.Not(
                z3.substitute(core, *sub) == z3.substitute(core2, *sub))))
        c.fact(f, (None,) * len(free))


def _contains(e, b, cache={}):
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(b):
            return True
        stack.extend(x.children())
    return False


def linear_parts(e, b):
    """e = sum coef*core with coef free of b; core None means 1"""
    if not _contains(e, b):
        return [(e, None)]
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        return _merge([p for ch in e.children() for p in linear_parts(ch, b)])
    if k == z3.Z3_OP_SUB:
        ch = e.children()
        out = linear_parts(ch[0], b)
        for x in ch[1:]:
            out += [(T.t_neg(co), cr) for co, cr in linear_parts(x, b)]
        return _merge(out)
    if k == z3.Z3_OP_UMINUS:
        return [(T.t_neg(co), cr) for co, cr in linear_parts(e.arg(0), b)]
    if k == z3.Z3_OP_DIV and not _contains(e.arg(1), b):
        return [(T.t_div(co, e.arg(1), False), cr)
                for co, cr in linear_parts(e.arg(0), b)]
    if k == z3.Z3_OP_MUL:
        acc = [(z3.RealVal(1), None)]
        for ch in e.children():
            parts = linear_parts(ch, b)
            new = []
            for co, cr in acc:
                for co2, cr2 in parts:
                    if cr is None:
                        cc = cr2
                    elif cr2 is None:
                        cc = cr
                    else:
                        fs = _factors(cr) + _factors(cr2)
                        fs.sort(key=lambda t: t.get_id())
                        cc = fs[0]
                        for x in fs[1:]:
                            cc = cc * x
                    new.append((T.t_mul(co, co2), cc))
            acc = new
            if len(acc) > 64:
                raise Unsupported("sum expansion too large")
        return _merge(acc)
    if k == z3.Z3_OP_ITE and not _contains(e.arg(0), b):
        # a selection that does not depend on the summation index
        one, zero = z3.RealVal(1), z3.RealVal(0)
        for br, w in ((1, z3.If(e.arg(0), one, zero)),
                      (2, z3.If(e.arg(0), zero, one))):
            if T.const_val(e.arg(3 - br)) == 0:
                return [(T.t_mul(w, co), cr)
                        for co, cr in linear_parts(e.arg(br), b)]
    if k == z3.Z3_OP_TO_REAL:
        x = e.arg(0)
        kk = x.decl().kind()
        if kk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            ch = [z3.ToReal(y) if not z3.is_int_value(y) else
                  z3.RealVal(y.as_long()) for y in x.children()]
            if kk == z3.Z3_OP_ADD:
                r = ch[0]
                for y in ch[1:]:
                    r = r + y
            elif kk == z3.Z3_OP_MUL:
                r = ch[0]
                for y in ch[1:]:
                    r = r * y
            elif kk == z3.Z3_OP_SUB:
                r = ch[0]
                for y in ch[1:]:
                    r = r - y
            else:
                r = -ch[0]
            return linear_parts(r, b)
    return [(z3.RealVal(1), e)]


def _factors(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
        return [x for ch in t.children() for x in _factors(ch)]
    return [t]


def _merge(parts):
    out = []
    pos = {}
    for co, cr in parts:
        k = None if cr is None else cr.get_id()
        if k in pos:
            out[pos[k]] = (T.t_add(out[pos[k]][0], co), cr)
        else:
            pos[k] = len(out)
            out.append((co, cr))
    return out


def np_sum(a, axis=None, keepdims=False, dtype=None, **k):
    if not is_sym(a):
        return _np.sum(a, axis=axis, keepdims=keepdims)
    a = as_array(a)
    if a is None:
        raise Unsupported("sum of scalar")
    rk = "int" if a.kind in ("int", "bool") else "real"
    if _conc(a) and axis is None:
        r = z3.IntVal(0) if rk == "int" else z3.RealVal(0)
        for t in _flat_terms(a):
            r = T.t_add(r, t)
        return Sym(r)
    if _axis_none(a, axis) and a.ndim == 1:
        f = a.snap()
        s = sum_term(lambda j: f((j,)), a._shape[0])
        if rk == "int":
            c = ctx()
            si = c.fresh("isum", T.I)
            c.assume(z3.ToReal(si) == s)
            return Sym(si)
        return Sym(s)
    if axis is None:
        r = a
        for _ in range(a.ndim):
            r = np_sum(r, axis=r.ndim - 1)
        return r
    return _reduce_axis(lambda l: np_sum(l), a, axis, keepdims, rk)


def _line_extreme(a, sign):
    """max (sign=+1) / min (-1) of a 1-D line"""
    c = ctx()
    f = a.snap()
    if _conc(a):
        ts = _flat_terms(a)
        if not ts:
            raise ValueError("zero-size array to reduction operation")
        r = ts[0]
        for t in ts[1:]:
            r = T.t_max(r, t) if sign > 0 else T.t_min(r, t)
        return r
    b = z3.Const("_b", T.I)
    with quiet():
        key = ("ext", sign, T.val(f((b,))).get_id(),
               dim_term(a._shape[0]).get_id())
    hit = c.ghost.get(key)
    if hit is not None:
        return hit[0]
    n = dim_term(a._shape[0])
    if c.decide(n <= 0):
        raise ValueError("zero-size array to reduction operation")
    w = c.fresh_idx(n, "wx")
    m = T.val(f((w,)))
    mm = c.fresh("ext", m.sort())
    c.assume(mm == m)
    if sign > 0:
        c.fact(lambda i: T.val(f((i,))) <= mm, (n,))
    else:
        c.fact(lambda i: T.val(f((i,))) >= mm, (n,))
    c.ghost[key] = (mm, f((b,)))
    return mm


def np_max(a, axis=None, out=None, keepdims=False, **k):
    if not is_sym(a):
        return _np.max(a, axis=axis, keepdims=keepdims)
    return _ext(a, axis, keepdims, 1)


def np_min(a, axis=None, out=None, keepdims=False, **k):
    if not is_sym(a):
        return _np.min(a, axis=axis, keepdims=keepdims)
    return _ext(a, axis, keepdims, -1)


def _ext(a, axis, keepdims, sign):
    a = as_array(a)
    if a.ndim == 1 and _axis_none(a, axis):
        return Sym(_line_extreme(a, sign))
    if axis is None:
        if _conc(a):
            ts = _flat_terms(a)
            r = ts[0]
            for t in ts[1:]:
                r = T.t_max(r, t) if sign > 0 else T.t_min(r, t)
            return Sym(r)
        c = ctx()
        f = a.snap()
        ns = [dim_term(d) for d in a._shape]
        ws = tuple(c.fresh_idx(n, "wx") for n in ns)
        m = T.val(f(ws))
        mm = c.fresh("ext", m.sort())
        c.assume(mm == m)
        c.fact(lambda *i: (T.val(f(i)) <= mm) if sign > 0
               else (T.val(f(i)) >= mm), tuple(ns))
        return Sym(mm)
    return _reduce_axis(lambda l: Sym(_line_extreme(l, sign)), a, axis,
                        keepdims)


def ptp(a, axis=None, **k):
    return np_max(a, axis) - np_min(a, axis)


def _sandwich(a, name):
    """a value between the minimum and the maximum of a non-empty line"""
    c = ctx()
    f = a.snap()
    n = dim_term(a._shape[0])
    b = z3.Const("_b", T.I)
    if c.decide(n <= 0):
        raise IndexError("empty input")
    v = c.fresh(name, T.R)
    w1 = c.fresh_idx(n, "wl")
    w2 = c.fresh_idx(n, "wu")
    c.assume(T.to_real(T.val(f((w1,)))) <= v)
    c.assume(v <= T.to_real(T.val(f((w2,)))))
    return v


def percentile(a, q, axis=None, **k):
    if not (is_sym(a) or is_sym(q)):
        return _np.percentile(a, q, axis=axis, **k)
    a = as_array(a)
    if axis is not None or a.ndim != 1:
        raise Unsupported("percentile over an axis")
    qt = T.to_real(T.lift(q))
    _welldef("percentile in [0,100]", z3.And(qt >= 0, qt <= 100))
    f = a.snap()
    b = z3.Const("_b", T.I)
    with quiet():
        key = ("pct", T.val(f((b,))).get_id(), qt.get_id(),
               dim_term(a._shape[0]).get_id())
    c = ctx()
    if key not in c.ghost:
        c.ghost[key] = (_sandwich(a, "pct"), f((b,)), qt)
    return Sym(c.ghost[key][0])


def median(a, **k):
    return percentile(a, 50.0, **k)


quantile = None


def mean(a, axis=None, keepdims=False, **k):
    if not is_sym(a):
        return _np.mean(a, axis=axis, keepdims=keepdims)
    a = as_array(a)
    if a is None:
        raise Unsupported("mean of scalar")
    if axis is None and a.ndim == 1 or (a.ndim == 1 and axis in (0, -1)):
        n = a._shape[0]
        s = np_sum(a.astype(float64) if a.kind != "real" else a)
        if isinstance(n, int):
            return Sym(T.t_div(s.t, z3.RealVal(n), False))
        T.welldef("mean of a non-empty array", n > 0)
        return Sym(T.t_div(s.t, z3.ToReal(n), False))
    if axis is None:
        s = np_sum(a)
        cnt = z3.IntVal(1)
        for d in a._shape:
            cnt = T.t_mul(cnt, dim_term(d))
        return Sym(T.t_div(s.t, cnt, False))
    return _reduce_axis(lambda l: mean(l), a, axis, keepdims, "real")


def std(a, axis=None, **k):
    if not is_sym(a):
        return _np.std(a, axis=axis, **k)
    if axis is not None:
        raise Unsupported("std over axis")
    m = mean(a)
    return Sym(T.t_sqrt(mean((a - m) * (a - m)).t, False))


def var(a, axis=None, **k):
    m = mean(a)
    return mean((a - m) * (a - m))


def _quant(a, kind):
    a = as_array(a)
    c = ctx()
    f = a.snap()
    if _conc(a):
        ts = [T.t_bool(t) for t in _flat_terms(a)]
        return Sym((z3.Or if kind == "any" else z3.And)(*ts)
                   if ts else z3.BoolVal(kind == "all"))
    ns = [dim_term(d) for d in a._shape]
    outer = c.ghost.setdefault("sum_bound", [])
    n0 = len(outer)
    b = [z3.Const(f"_b{n0 + i}", T.I) for i in range(len(ns))]
    outer += b
    i0 = len(c.idx)
    try:
        with quiet():
            kt = T.t_bool(f(tuple(b)))
    finally:
        del outer[n0:]
        _forget_idx(c, i0, b)
    for x in outer:
        if _contains(kt, x) or builtins.any(_contains(n, x) for n in ns):
            raise Unsupported("quantifier inside a sum or quantifier")
    key = (kind, kt.get_id(), tuple(n.get_id() for n in ns))
    if key in c.ghost:
        return Sym(c.ghost[key][0])
    v = c.fresh(kind, z3.BoolSort())
    ws = [c.fresh("w" + kind, T.I) for _ in ns]
    for w in ws:
        c.note_idx(w)
    rng = z3.And(*[z3.And(w >= 0, w < n) for w, n in zip(ws, ns)])
    with quiet():
        at_w = T.t_bool(f(tuple(ws)))
    if kind == "any":
        c.assume(z3.Implies(v, z3.And(rng, at_w)))
        c.fact(lambda *i: z3.Implies(T.t_bool(f(i)), v), tuple(ns))
    else:
        c.assume(z3.Implies(z3.Not(v), z3.And(rng, z3.Not(at_w))))
        c.fact(lambda *i: z3.Implies(v, T.t_bool(f(i))), tuple(ns))
    c.ghost[key] = (v, kt)
    return Sym(v)


def np_any(a, axis=None, **k):
    if not is_sym(a):
        return _np.any(a, axis=axis)
    if isinstance(a, Sym):
        return Sym(T.t_bool(a.t))
    if axis is not None and as_array(a).ndim > 1:
        return _reduce_axis(lambda l: _quant(l, "any"), a, axis, False,
                            "bool")
    return _quant(a, "any")


def np_all(a, axis=None, **k):
    if not is_sym(a):
        return _np.all(a, axis=axis)
    if isinstance(a, Sym):
        return Sym(T.t_bool(a.t))
    if axis is not None and as_array(a).ndim > 1:
        return _reduce_axis(lambda l: _quant(l, "all"), a, axis, False,
                            "bool")
    return _quant(a, "all")


def count_nonzero(a, **k):
    return np_sum(to_bool_mask(as_array(a)).astype(int64))


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not (is_sym(a) or is_sym(b)):
        return _np.allclose(a, b, rtol=rtol, atol=atol)
    r = elementwise(lambda x, y: T.t_le(
        T.t_abs(T.t_sub(x, y)),
        T.t_add(T.lift(atol), T.t_mul(T.lift(rtol), T.t_abs(y)))), a, b,
        dtype="bool")
    return np_all(r)


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return elementwise(lambda x, y: T.t_le(
        T.t_abs(T.t_sub(x, y)),
        T.t_add(T.lift(atol), T.t_mul(T.lift(rtol), T.t_abs(y)))), a, b,
        dtype="bool")


def array_equal(a, b, **k):
    if not (is_sym(a) or is_sym(b)):
        return _np.array_equal(a, b)
    a, b = as_array(a), as_array(b)
    if a.ndim != b.ndim:
        return False
    same = z3.BoolVal(True)
    for p, q in zip(a._shape, b._shape):
        if not dims_equal(p, q):
            if ctx().family:    # no branching inside a generic iteration
                same = z3.And(same, dim_term(p) == dim_term(q))
            elif not ctx().decide(dim_term(p) == dim_term(q)):
                return False
    if z3.is_true(same):
        return np_all(a == b)
    f, g = a.snap(), b.snap()
    eq = np_all(SymArray(a._shape, lambda i: T.lift(f(i)) == T.lift(g(i)),
                         "bool"))
    return Sym(z3.And(same, T.t_bool(T.lift(eq))))


def nan_to_num(a, copy=True, **k):
    if not is_sym(a):
        return _np.nan_to_num(a, copy=copy, **k)
    return a.copy() if copy else a


def dot(a, b, out=None):
    if not (is_sym(a) or is_sym(b)):
        return _np.dot(a, b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a * b
    return matmul(a, b)


def matmul(a, b):
    a, b = as_array(a), as_array(b)
    if a is None or b is None:
        raise ValueError("matmul: scalar operand")
    require_dims(a._shape[-1], b._shape[0] if b.ndim == 1
                 else b._shape[-2], "matmul")
    fa, fb = a.snap(), b.snap()
    n = a._shape[-1]

    def line(g):
        if isinstance(n, int):
            r = z3.RealVal(0)
            for j in range(n):
                r = T.t_add(r, g(z3.IntVal(j)))
            return r
        return sum_term(g, n)
    if a.ndim == 1 and b.ndim == 1:
        return Sym(line(lambda j: T.t_mul(fa((j,)), fb((j,)))))
    if a.ndim == 2 and b.ndim == 1:
        return SymArray((a._shape[0],), lambda i: line(
            lambda j: T.t_mul(fa((i[0], j)), fb((j,)))), "real")
    if a.ndim == 1 and b.ndim == 2:
        return SymArray((b._shape[1],), lambda i: line(
            lambda j: T.t_mul(fa((j,)), fb((j, i[0])))), "real")
    if a.ndim == 2 and b.ndim == 2:
        return SymArray((a._shape[0], b._shape[1]), lambda i: line(
            lambda j: T.t_mul(fa((i[0], j)), fb((j, i[1])))), "real")
    raise Unsupported("matmul of stacked matrices")


def cross(a, b, **k):
    if not (is_sym(a) or is_sym(b)):
        return _np.cross(a, b, **k)
    a, b = as_array(a), as_array(b)
    if k or a._shape[-1] != 3:
        raise Unsupported("np.cross form")

    fa, fb = a.snap(), b.snap()

    def f(idx):
        j = T.const_val(idx[-1])
        if j is None:
            raise Unsupported("symbolic component of a cross product")
        j = int(j)
        p, q = z3.IntVal((j + 1) % 3), z3.IntVal((j + 2) % 3)
        h = idx[:-1]
        return T.t_sub(T.t_mul(fa(h + (p,)), fb(h + (q,))),
                       T.t_mul(fa(h + (q,)), fb(h + (p,))))
    return SymArray(broadcast_shapes([a._shape, b._shape]), f, "real")


def _det_terms(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    r = z3.RealVal(0)
    for j in range(n):
        minor = [row[:j] + row[j + 1:] for row in m[1:]]
        t = T.t_mul(m[0][j], _det_terms(minor))
        r = T.t_add(r, t) if j % 2 == 0 else T.t_sub(r, t)
    return r


class _Linalg:
    LinAlgError = _np.linalg.LinAlgError

    def norm(self, a, ord=None, axis=None, keepdims=False, **k):
        if not is_sym(a):
            return _np.linalg.norm(a, ord=ord, axis=axis, keepdims=keepdims)
        a = as_array(a)
        if ord is not None and isinstance(ord, float) and ord == INF \
                and a.ndim == 1:
            return np_max(abs(a))
        if ord in (None, 2, "fro"):
            s = np_sum(a * a, axis=axis, keepdims=keepdims) \
                if axis is not None else np_sum(a * a)
            return UFUNCS["sqrt"](s)
        if ord == 1 and a.ndim == 1:
            return np_sum(abs(a))
        raise Unsupported("norm order")

    def det(self, a):
        if not is_sym(a):
            return _np.linalg.det(a)
        a = as_array(a)
        n = a._shape[-1]
        if not isinstance(n, int) or n > 4:
            raise Unsupported("det size")
        f = a.snap()

        def g(idx):
            return _det_terms([[f(idx + (z3.IntVal(i), z3.IntVal(j)))
                                for j in range(n)] for i in range(n)])
        if a.ndim == 2:
            return Sym(g(()))
        return SymArray(a._shape[:-2], g, "real")

    def __getattr__(self, name):
        return _guard(f"linalg.{name}", getattr(_np.linalg, name))


def _guard(name, real):
    if not callable(real) or isinstance(real, type):
        return real

    def g(*a, **k):
        if builtins.any(is_sym(x) for x in a) or builtins.any(
                is_sym(x) for x in k.values()):
            raise Unsupported(f"np.{name} on symbolic values")
        k = {kk: getattr(v, "_real", v) if isinstance(v, type) else v
             for kk, v in k.items()}
        a = tuple(getattr(v, "_real", v) if isinstance(v, type) else v
                  for v in a)
        return real(*a, **k)
    g.__name__ = name
    return g


def isscalar(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, SymArray):
        return False
    return _np.isscalar(x)


def ndim(x):
    a = as_array(x) if is_sym(x) else None
    if isinstance(x, Sym):
        return 0
    return a.ndim if a is not None else _np.ndim(x)


def shape(x):
    return x.shape if hasattr(x, "shape") else _np.shape(x)


def outer(a, b):
    if not (is_sym(a) or is_sym(b)):
        return _np.outer(a, b)
    a, b = as_array(a), as_array(b)
    fa, fb = a.snap(), b.snap()
    return SymArray((a._shape[0], b._shape[0]),
                    lambda i: T.t_mul(fa((i[0],)), fb((i[1],))), "real")


def _ellipsis(spec, ops):
    """spell the ellipsis axes out"""
    ins, arrow, outs = spec.partition("->")
    ins = ins.split(",")
    free = [ch for ch in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if ch not in spec]
    ns = [as_array(o).ndim - len(x.replace("...", ""))
          if "..." in x else 0 for x, o in zip(ins, ops)]
    m = builtins.max(ns)
    names = "".join(free[:m])
    new = [x.replace("...", names[m - n:]) for x, n in zip(ins, ns)]
    if arrow:
        outs = outs.replace("...", names)
    else:
        from collections import Counter
        cn = Counter("".join(x.replace("...", "") for x in ins))
        outs = names + "".join(sorted(ch for ch in cn if cn[ch] == 1))
    return ",".join(new) + "->" + outs


def einsum(spec, *ops, **k):
    if not builtins.any(is_sym(o) for o in ops):
        return _np.einsum(spec, *ops, **k)
    if k.get("optimize") is not None:
        k.pop("optimize")
    if k or not isinstance(spec, str):
        raise Unsupported("einsum form")
    spec = spec.replace(" ", "")
    if "..." in spec:
        spec = _ellipsis(spec, ops)
    ins, _, outs = spec.partition("->")
    ins = ins.split(",")
    if "->" not in spec:
        from collections import Counter
        cn = Counter("".join(ins))
        outs = "".join(sorted(ch for ch in cn if cn[ch] == 1))
    arrs = [as_array(o) for o in ops]
    dims = {}
    for lab, a in zip(ins, arrs):
        if len(lab) != a.ndim:
            raise ValueError("einsum operand rank")
        for ch, d in zip(lab, a._shape):
            if ch in dims:
                require_dims(dims[ch], d, "einsum")
            else:
                dims[ch] = d
    contracted = [ch for ch in dims if ch not in outs]
    fs = [a.snap() for a in arrs]

    def term(env):
        r = None
        for lab, f in zip(ins, fs):
            v = f(tuple(env[ch] for ch in lab))
            r = v if r is None else T.t_mul(r, v)
        return r

    conc = [ch for ch in contracted if isinstance(dims[ch], int)]
    symb = [ch for ch in contracted if not isinstance(dims[ch], int)]
    if len(symb) > 1:
        raise Unsupported("einsum over two symbolic axes")

    def g(idx):
        env0 = dict(zip(outs, idx))

        def csum(env, rest):
            if not rest:
                return term(env)
            ch = rest[0]
            r = z3.RealVal(0)
            for j in range(dims[ch]):
                r = T.t_add(r, csum({**env, ch: z3.IntVal(j)}, rest[1:]))
            return r
        if not symb:
            return csum(env0, conc)
        return sum_term(lambda j: csum({**env0, symb[0]: j}, conc),
                        dims[symb[0]])
    if not outs:
        return Sym(g(()))
    return SymArray(tuple(dims[ch] for ch in outs), g, "real")


def tile(a, reps):
    if not (is_sym(a) or is_sym(reps)):
        return _np.tile(a, reps)
    a = as_array(a)
    reps = tuple(reps) if isinstance(reps, (tuple, list)) else (reps,)
    n = builtins.max(a.ndim, len(reps))
    reps = (1,) * (n - len(reps)) + reps
    dims = (1,) * (n - a.ndim) + tuple(a._shape)
    f = a.snap()
    out, pick = [], []
    for d, r in zip(dims, reps):
        one_r = isinstance(r, int) and r == 1
        one_d = isinstance(d, int) and d == 1
        rt = dim_term(r) if not isinstance(r, int) else r
        if one_r:
            out.append(d)
            pick.append(lambda i: i)
        elif one_d:
            out.append(rt)
            pick.append(lambda i: z3.IntVal(0))
        else:
            out.append(dim_term(d) * dim_term(r)
                       if not (isinstance(d, int) and isinstance(r, int))
                       else d * r)
            pick.append(lambda i, d=d: T.lift(i) % dim_term(d))
    m = n - a.ndim

    def g(i):
        return f(tuple(p(x) for p, x in zip(pick, i))[m:])
    r = SymArray(tuple(out), g, a.dtype)
    if n == 1 and isinstance(reps[0], int) and a.ndim == 1:
        r.blk = (reps[0], dim_term(a._shape[0]), lambda b, e: f((e,)),
                 r.buf.f)
    return r


def repeat(a, reps, axis=None):
    if not (is_sym(a) or is_sym(reps)):
        return _np.repeat(a, reps, axis=axis)
    a = as_array(a)
    if isinstance(reps, (SymArray, list, tuple, _np.ndarray)):
        raise Unsupported("repeat by an array")
    if axis is None:
        a, axis = a.reshape(-1) if a.ndim != 1 else a, 0
    if axis < 0:
        axis += a.ndim
    f = a.snap()
    r = dim_term(reps)
    dims = list(a._shape)
    dims[axis] = dim_term(dims[axis]) * r

    def g(i):
        j = list(i)
        j[axis] = T.lift(j[axis]) / r
        return f(tuple(j))
    return SymArray(tuple(dims), g, a.dtype)


def ascontiguousarray(a, dtype=None):
    return asarray(a, dtype)


def savez_compressed(*a, **k):
    h = Ctx.cur.ghost.get("savez") if Ctx.cur else None
    if h is not None:
        return h(*a, **k)
    raise Unsupported("np.savez_compressed")


class Npz(dict):
    """what np.load gives for an archive: a mapping that can be closed"""

    @property
    def files(self):
        return list(self)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def np_load(*a, **k):
    h = Ctx.cur.ghost.get("np_load") if Ctx.cur else None
    if h is not None:
        r = h(*a, **k)
        return Npz(r) if type(r) is dict else r
    return _np.load(*a, **k)


_TABLE = {
    "float64": float64, "float32": float32, "int64": int64, "int32": int32,
    "intp": int64, "bool_": bool_, "double": float64, "float_": float64,
    "integer": integer, "floating": floating, "number": number,
    "generic": generic,
    "ndarray": ndarray, "full": full, "zeros": zeros, "ones": ones,
    "empty": empty, "empty_like": empty_like, "zeros_like": zeros_like,
    "ones_like": ones_like, "full_like": full_like, "array": array,
    "asarray": asarray, "ascontiguousarray": ascontiguousarray,
    "asanyarray": asarray,
    "atleast_1d": atleast_1d, "copy": copy, "copyto": copyto,
    "arange": arange, "stack": stack, "column_stack": column_stack,
    "vstack": vstack, "concatenate": concatenate, "hstack": concatenate,
    "reshape": lambda a, s, **k: reshape(as_array(a), s),
    "ravel": lambda a, **k: as_array(a).reshape(-1),
    "where": where, "nonzero": nonzero, "flatnonzero": flatnonzero,
    "searchsorted": searchsorted, "clip": clip, "isin": isin, "in1d": isin, "setdiff1d": setdiff1d,
    "union1d": union1d, "intersect1d": intersect1d, "unique": unique,
    "sum": np_sum, "max": np_max, "amax": np_max, "min": np_min,
    "amin": np_min, "ptp": ptp, "percentile": percentile, "median": median,
    "mean": mean, "average": None, "std": std, "var": var, "any": np_any,
    "all": np_all, "count_nonzero": count_nonzero, "allclose": allclose,
    "isclose": isclose, "array_equal": array_equal,
    "nan_to_num": nan_to_num, "dot": dot, "matmul": matmul, "cross": cross,
    "vdot": dot, "inner": None, "outer": outer, "einsum": einsum,
    "tile": tile, "repeat": repeat, "bincount": bincount,
    "linalg": _Linalg(), "isscalar": isscalar, "ndim": ndim, "shape": shape,
    "savez_compressed": savez_compressed, "savez": savez_compressed,
    "load": np_load,
    "transpose": lambda a, *x: as_array(a).T if not x else _unsup_t(),
    "size": lambda a: as_array(a).size,
    "broadcast_to": None,
}


def _unsup_t():
    raise Unsupported("np.transpose axes")


def average(a, axis=None, weights=None, **k):
    if not (is_sym(a) or is_sym(weights)):
        return _np.average(a, axis=axis, weights=weights, **k)
    if weights is None:
        return mean(a, axis=axis)
    if axis is not None and as_array(a).ndim > 1:
        raise Unsupported("weighted average over axis")
    return np_sum(a * weights) / np_sum(weights)


_TABLE["average"] = average
_GUARDED = {"matmul", "stack", "column_stack", "vstack", "concatenate",
            "hstack", "reshape", "ravel", "where", "nonzero", "flatnonzero",
            "cross", "array", "transpose", "size", "count_nonzero",
            "isclose", "mean", "copyto", "full_like", "zeros_like",
            "ones_like", "empty_like", "stack", "var", "std", "ptp",
            "asarray", "ascontiguousarray", "copy", "atleast_1d", "average",
            "median"}


class NP:
    """the object bound to `np` in the code under verification"""
    __name__ = "numpy"
    __version__ = _np.__version__

    def __getattr__(self, name):
        if name in UFUNCS:
            return UFUNCS[name]
        f = _TABLE.get(name)
        real = getattr(_np, name)
        if f is None:
            return _guard(name, real)
        if name in _GUARDED:
            def g(*a, **k):
                if not (builtins.any(is_sym(x) for x in a) or builtins.any(
                        is_sym(x) for x in k.values())):
                    if name in ("zeros_like", "ones_like", "full_like",
                                "empty_like") and not isinstance(
                                    a[0], _np.ndarray):
                        return f(*a, **k)
                    k = {kk: getattr(v, "_real", v) for kk, v in k.items()}
                    a = tuple(getattr(v, "_real", v) if isinstance(v, type)
                              else v for v in a)
                    return real(*a, **k)
                return f(*a, **k)
            return g
        if name in ("zeros", "ones", "empty", "full"):
            def h(*a, **k):
                if Ctx.cur is None:
                    k = {kk: getattr(v, "_real", v) for kk, v in k.items()}
                    a = tuple(getattr(v, "_real", v) if isinstance(v, type)
                              else v for v in a)
                    return real(*a, **k)
                return f(*a, **k)
            return h
        return f


np_shim = NP()

# names used through SymArray.__getattr__
prod = None
argmax = None
argmin = None
cumsum = None


def np_round(a, *x, **k):
    raise Unsupported("round")
