"""scipy.sparse / scipy.spatial as contracts over symbolic rows.

A symbolic sparse matrix is given by its rows: row i has n(i) entries, entry l
sits in column col(i, l) and has value val(i, l); duplicate entries add up
(COO semantics).  Everything else is passed to the real scipy."""
import z3
import scipy
import scipy.sparse as _sp
import scipy.sparse.linalg as _spl
import scipy.spatial as _spatial

from . import terms as T
from .terms import Unsupported
from .engine import Sym, SymArray, ctx, as_array, dim_term, require_dims
from . import npshim
from .npshim import is_sym


class Vec:
    pass


class SpMat:
    """rows as above, or (opaque) only a name with algebra by axioms"""
    __array_ufunc__ = None

    def __init__(self, nrows, ncols, n, col, val):
        self._r, self._c = nrows, ncols
        self.n, self.col, self.val = n, col, val

    @property
    def shape(self):
        return tuple(d if isinstance(d, int) else Sym(d)
                     for d in (self._r, self._c))

    def _same(self, *a, **k):
        return self

    tocsr = tocsc = tocoo = copy = asformat = _same
    sum_duplicates = eliminate_zeros = lambda self: None

    def sum(self, axis=None):
        if axis in (1, -1):
            return SymArray((self._r, 1), lambda i: T.lift(npshim.sum_term(
                lambda l: self.val(i[0], l), self.n(i[0]))), "real")
        raise Unsupported("sparse sum axis")

    @property
    def T(self):
        return SpT(self)

    def transpose(self):
        return SpT(self)

    def __matmul__(self, x):
        if isinstance(x, SpDiag):
            v = x.v.snap()
            return SpMat(self._r, self._c, self.n, self.col, lambda i, l:
                         T.t_mul(self.val(i, l), v((self.col(i, l),))))
        x = as_array(x)
        if x is None or x.ndim != 1:
            raise Unsupported("sparse product")
        require_dims(self._c, x._shape[0], "sparse matvec")
        f = x.snap()
        return SymArray((self._r,), lambda i: T.lift(npshim.sum_term(
            lambda l: T.t_mul(self.val(i[0], l), f((self.col(i[0], l),))),
            self.n(i[0]))), "real")

    dot = __matmul__

    def __mul__(self, o):
        if isinstance(o, (Sym, int, float)):
            t = T.lift(o)
            return SpMat(self._r, self._c, self.n, self.col,
                         lambda i, l: T.t_mul(self.val(i, l), t))
        raise Unsupported("sparse product with *")

    __rmul__ = __mul__

    def __getattr__(self, n):
        raise Unsupported(f"sparse matrix attribute {n}")


class SpT:
    __array_ufunc__ = None

    def __init__(self, m):
        self.m = m

    @property
    def T(self):
        return self.m

    def _same(self, *a, **k):
        return self

    tocsr = tocsc = tocoo = copy = _same

    def __matmul__(self, x):
        """entry j: sum over the entries of column j; kept symbolic, tied to
        the operand by the ghost record (matrix, operand, result)"""
        x = as_array(x)
        if x is None or x.ndim != 1:
            raise Unsupported("sparse product")
        require_dims(self.m._r, x._shape[0], "sparse transposed matvec")
        r = npshim.havoc_array((self.m._c,), "real", "adj")
        ctx().ghost.setdefault("adjoint_products", []).append(
            (self.m, x.snap(), r.snap()))
        return r

    dot = __matmul__

    def __getattr__(self, n):
        raise Unsupported(f"sparse matrix attribute {n}")


class SpDiag:
    __array_ufunc__ = None

    def __init__(self, v):
        self.v = v

    def __matmul__(self, o):
        v = self.v.snap()
        if isinstance(o, SpMat):
            require_dims(self.v._shape[0], o._r, "diagonal product")
            return SpMat(o._r, o._c, o.n, o.col, lambda i, l: T.t_mul(
                o.val(i, l), v((i,))))
        x = as_array(o)
        if x is None or x.ndim != 1:
            raise Unsupported("diagonal product")
        f = x.snap()
        return SymArray(x._shape, lambda i: T.t_mul(v(i), f(i)), "real")

    dot = __matmul__

    def __getattr__(self, n):
        raise Unsupported(f"diagonal matrix attribute {n}")


def note_apps(t):
    """register the integer applications in t as instantiation terms"""
    c = ctx()
    seen = set()
    st = [t]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                    e.num_args() and e.sort() == T.I and not _bound(e):
                c.note_idx(e)
            st.extend(e.children())


def _bound(e):
    return npshim._contains(e, z3.Const("_seg", T.I)) or any(
        npshim._contains(e, b) for b in [npshim._B] +
        ctx().ghost.get("sum_bound", []))


class Seg:
    """concatenation of the arrays a map loop appended"""
    __array_ufunc__ = None

    def __init__(self, fam, arr):
        self.fam, self.arr = fam, arr
        self.n = dim_term(arr._shape[0])
        self.f = arr.snap()

    def len(self, k):
        return self.fam.at(self.n, k)

    def at(self, k, l):
        b = z3.Const("_seg", T.I)
        r = z3.substitute(self.fam.at(T.val(self.f((b,))), k), (b, l))
        note_apps(r)
        return r

    def __getattr__(self, n):
        raise Unsupported(f"concatenated family attribute {n}")


def concat_family(xs):
    from .loops import FamList
    if not isinstance(xs, FamList) or xs.fam is None:
        return None
    if list.__len__(xs) or len(xs.fam[1]) != 1:
        raise Unsupported("concatenation of a mixed family")
    a = as_array(xs.fam[1][0])
    if a is None or a.ndim != 1:
        raise Unsupported("concatenation of a family of non-vectors")
    return Seg(xs.fam[0], a)


def _coo(arg, shape=None, dtype=None, **k):
    if not (isinstance(arg, tuple) and len(arg) == 2 and isinstance(
            arg[1], tuple)):
        raise Unsupported("sparse constructor form")
    data, (rows, cols) = arg
    if not all(isinstance(x, Seg) for x in (data, rows, cols)):
        raise Unsupported("sparse matrix from symbolic triplets")
    if not (data.fam is rows.fam is cols.fam) or shape is None:
        raise Unsupported("sparse matrix from unrelated triplets")
    c = ctx()
    fam = data.fam
    kk = c.fresh_idx(fam.hi, "row")
    n0 = len(c.pc)
    c.pc.append(kk >= fam.lo)
    ll = c.fresh_idx(data.len(kk), "ent")
    for o, nm in ((rows, "rows"), (cols, "cols")):
        if not c.provable(o.len(kk) == data.len(kk), 3000):
            raise Unsupported(f"lengths of data and {nm} differ")
    R, C = (dim_term(x.t if isinstance(x, Sym) else x) for x in shape)
    if not c.provable(rows.at(kk, ll) == kk, 5000):
        raise Unsupported("row numbers are not the iteration numbers")
    if not c.provable(fam.hi == R, 3000) or not c.provable(
            z3.IntVal(0) == fam.lo, 1000):
        raise Unsupported("not every row is filled by the loop")
    c.oblige("welldef: column index inside the matrix", z3.And(
        cols.at(kk, ll) >= 0, cols.at(kk, ll) < C), kind="welldef")
    del c.pc[n0:]
    c.fact(lambda k, l: z3.Implies(
        z3.And(l >= 0, l < data.len(k)),
        z3.And(cols.at(k, l) >= 0, cols.at(k, l) < C)), (R, None))
    m = SpMat(R, C, data.len, lambda i, l: c.note_idx(cols.at(i, l)),
              data.at)
    c.ghost.setdefault("coo", []).append(m)
    return m


def _symbolic(a):
    if isinstance(a, (Seg, SpMat, SpDiag, SpT)):
        return True
    if isinstance(a, (tuple, list)):
        return any(_symbolic(x) for x in a)
    return is_sym(a)


class _MatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._real)

    def __subclasscheck__(cls, o):
        return issubclass(o, cls._real)

    def __call__(cls, arg, shape=None, *a, **k):
        if _symbolic(arg) or _symbolic(shape):
            if isinstance(arg, (SpMat, SpT, SpDiag)):
                return arg
            return _coo(arg, shape, **k)
        return cls._real(arg, shape, *a, **k)

    def __getattr__(cls, n):
        return getattr(cls._real, n)


def _mat(name):
    return _MatMeta(name, (), {"_real": getattr(_sp, name)})


def _diags(diagonals, offsets=0, *a, **k):
    if not _symbolic(diagonals):
        return _sp.diags(diagonals, offsets, *a, **k)
    v = as_array(diagonals)
    if v is None and isinstance(diagonals, list) and len(diagonals) == 1:
        v = as_array(diagonals[0])
    if v is None or v.ndim != 1 or offsets not in (0, [0]) or a:
        raise Unsupported("diags form")
    return SpDiag(v)


class Tree:
    """contract of scipy.spatial.cKDTree on symbolic points"""

    def __init__(self, data, *a, **k):
        self.d = as_array(data)
        if self.d is None or self.d.ndim != 2 or not isinstance(
                self.d._shape[1], int):
            raise Unsupported("kd-tree points")

    @property
    def n(self):
        d = self.d._shape[0]
        return d if isinstance(d, int) else Sym(d)

    def dist(self, j, x):
        f = self.d.snap()
        r = z3.RealVal(0)
        for a in range(self.d._shape[1]):
            e = T.t_sub(f((j, z3.IntVal(a))), x[a])
            r = T.t_add(r, T.t_mul(e, e))
        return T.t_sqrt(r)

    def query_ball_point(self, x, r, p=2.0, eps=0, workers=1,
                         return_sorted=None, return_length=False):
        if p != 2.0 or eps != 0 or return_length:
            raise Unsupported("query_ball_point options")
        c = ctx()
        xa = as_array(x)
        if xa is None or xa.ndim != 1:
            raise Unsupported("vectorised ball query")
        xs = [xa.snap()((z3.IntVal(i),)) for i in range(self.d._shape[1])]
        rr = T.lift(r)
        N = self.d._shape[0]
        old = list(c.idx)

        def mem(j):
            return z3.And(j >= 0, j < dim_term(N),
                          T.t_le(self.dist(j, xs), rr))
        a = npshim.make_index_array("ball", N, mem, sorted_=False)
        for t in old:
            a.prov[0].pos(t)
        c.ghost.setdefault("balls", []).append(a)
        return a

    def __getattr__(self, n):
        raise Unsupported(f"kd-tree method {n}")


def _tree(data, *a, **k):
    if is_sym(data):
        return Tree(data, *a, **k)
    return _spatial.cKDTree(data, *a, **k)


SPARSE = {"coo_matrix": _mat("coo_matrix"), "csr_matrix": _mat("csr_matrix"),
          "csc_matrix": _mat("csc_matrix"), "coo_array": _mat("coo_array"),
          "csr_array": _mat("csr_array"), "diags": _diags}
SPATIAL = {"cKDTree": _tree, "KDTree": _tree}


class Proxy:
    def __init__(self, real, table):
        self.__dict__["_p"] = (real, table)

    def __getattr__(self, n):
        real, table = self.__dict__["_p"]
        if n in table:
            return table[n]
        return getattr(real, n)


MODULES = {"scipy.sparse": SPARSE, "scipy.spatial": SPATIAL}
_root = None


def root_proxy():
    global _root
    if _root is None:
        _root = Proxy(scipy, {"sparse": Proxy(_sp, SPARSE),
                              "spatial": Proxy(_spatial, SPATIAL)})
    return _root
