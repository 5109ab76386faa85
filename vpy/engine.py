"""Symbolic execution of the real Python functions of /repo.

The functions are compiled from /repo's current source on every run (loader.py)
and executed by the Python interpreter on symbolic values; every branch on a
symbolic condition forks, so all paths are covered.  Contracts (props/*.py)
assume preconditions on the inputs and assert postconditions on the results;
each assertion becomes an obligation discharged by z3 / cvc5 (solve.py)."""
import itertools
import time
import z3

from .terms import *          # noqa
from . import terms as T


class PathEnd(BaseException):
    """This path is finished (infeasible, or cut at a loop back edge)."""


class PathLimit(Exception):
    pass


class Restart(BaseException):
    """loop-invariant candidates changed: explore the unit again"""


class Obligation:
    __slots__ = ("name", "hyps", "goal", "facts", "idx", "path", "kind",
                 "inputs", "where")

    def __init__(self, name, hyps, goal, facts, idx, path, kind, inputs,
                 where=""):
        self.name = name
        self.hyps = hyps
        self.goal = goal
        self.facts = facts
        self.idx = idx
        self.path = path
        self.kind = kind
        self.inputs = inputs
        self.where = where


class Ctx:
    cur = None

    def __init__(self, unit, prefix, persist):
        self.unit = unit
        self.prefix = prefix
        self.decisions = []       # list of bool taken
        self.alts = []            # indexes where other branch is pending
        self.pc = []
        self.facts = []           # universal facts: (arity ns, fn)
        self.idx = []             # index terms (z3 Int)
        self.asked = 0
        self.idx_ids = set()
        self.obls = []
        self.counter = itertools.count()
        self.inputs = {}          # name -> description for counter-models
        self.persist = persist    # shared over all paths of the unit
        self.welldef_mode = "oblige"
        self.reached = []
        self.trace = []
        self.sums = {}
        self.ghost = {}
        self.deadline = None
        self.family = []          # binders of enclosing map loops

    # -- names ---------------------------------------------------------
    def fresh(self, base, sort=R):
        n = f"{base}!{next(self.counter)}"
        if self.family:
            ks = [f.k for f in self.family]
            return z3.Function(n, *([I] * len(ks)), sort)(*ks)
        return z3.Const(n, sort)

    def fresh_fn(self, base, *sorts):
        n = f"{base}!{next(self.counter)}"
        if self.family:
            ks = [f.k for f in self.family]
            g = z3.Function(n, *([I] * len(ks)), *sorts)
            return lambda *a: g(*ks, *[T.lift(x) for x in a])
        return z3.Function(n, *sorts)

    # -- assumptions ---------------------------------------------------
    def assume(self, f):
        f = lift_bool(f)
        if z3.is_true(f):
            return
        self.pc.append(f)

    def fact(self, fn, ns=(None,)):
        """universally quantified assumption; fn(*idx) -> formula (the range
        guard 0<=i<n is added for every n that is not None)"""
        for fam in reversed(self.family):
            fn, ns = fam.wrap(fn, ns)
        ns = tuple(n if n is None or isinstance(n, T.Pool) else dim_term(n)
                   for n in ns)
        self.facts.append((tuple(ns), fn))

    def note_idx(self, t):
        if isinstance(t, int):
            t = z3.IntVal(t)
        i = t.get_id()
        if i not in self.idx_ids:
            self.idx_ids.add(i)
            self.idx.append(t)
        return t

    def fresh_idx(self, n=None, base="k"):
        k = self.fresh(base, I)
        self.pc.append(k >= 0)
        if n is not None:
            self.pc.append(k < T.lift(n))
        self.note_idx(k)
        return k

    # -- obligations ---------------------------------------------------
    def oblige(self, name, goal, kind="post", extra=()):
        goal = lift_bool(goal)
        self.obls.append(Obligation(
            name, list(self.pc) + list(extra), goal, list(self.facts),
            list(self.idx), list(self.decisions), kind, dict(self.inputs)))

    def reach(self, name):
        """vacuity guard: this point must be reachable in the unit"""
        self.obls.append(Obligation(
            name, list(self.pc), z3.BoolVal(False), list(self.facts),
            list(self.idx), list(self.decisions), "reach",
            dict(self.inputs)))

    # -- branching -----------------------------------------------------
    def decide(self, cond, hint=None):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        n = len(self.decisions)
        if n < len(self.prefix):
            d = self.prefix[n]
            self.decisions.append(d)
            self.pc.append(cond if d else z3.Not(cond))
            return d
        if self.deadline and time.time() > self.deadline:
            raise PathLimit("time")
        ft = self.feasible(cond)
        if not ft:
            # do not record: deterministic on re-execution? record anyway
            self.decisions.append(False)
            self.pc.append(z3.Not(cond))
            return False
        ff = self.feasible(z3.Not(cond))
        if not ff:
            self.decisions.append(True)
            self.pc.append(cond)
            return True
        if self.family:
            if self.provable(cond, 6000):
                self.decisions.append(True)
                self.pc.append(cond)
                return True
            if self.provable(z3.Not(cond), 6000):
                self.decisions.append(False)
                self.pc.append(z3.Not(cond))
                return False
            raise Unsupported("iterations of a map loop take different "
                              "branches")
        self.alts.append(n)
        self.decisions.append(True)
        self.pc.append(cond)
        return True

    def choose(self, name):
        """nondeterministic boolean (loop: iterate / exit)"""
        if self.family:
            raise Unsupported("nested cut loop in a map loop")
        n = len(self.decisions)
        if n < len(self.prefix):
            d = self.prefix[n]
            self.decisions.append(d)
            return d
        self.alts.append(n)
        self.decisions.append(True)
        return True

    def feasible(self, cond):
        from . import solve
        return self._memo("f", solve.feasible, cond)

    def provable(self, goal, timeout=1500):
        from . import solve
        return self._memo("p", solve.provable, goal, timeout)

    def _memo(self, kind, fn, *a):
        """paths that share a prefix ask the same questions again"""
        self.asked += 1
        if "inst_rounds" not in self.ghost:
            return fn(self, *a)
        d = self.persist.setdefault("memo", {})
        k = (self.persist.get("restarts", 0), tuple(self.decisions),
             self.asked, kind)
        g = a[0].get_id() if hasattr(a[0], "get_id") else a[0]
        hit = d.get(k)
        if hit is not None and hit[0] == g:
            return hit[1]
        r = fn(self, *a)
        d[k] = (g, r, a[0])
        return r


def ctx():
    if Ctx.cur is None:
        raise Unsupported("symbolic value used outside a proof unit")
    return Ctx.cur


def lift_bool(f):
    if isinstance(f, Sym):
        return T.t_bool(f.t)
    if isinstance(f, (bool,)) or type(f).__name__ == "bool_":
        return z3.BoolVal(bool(f))
    return T.t_bool(f)


_wd_off = [0]
_in_generic = [0]


def _welldef(name, formula):
    c = Ctx.cur
    if c is None or _wd_off[0] or c.welldef_mode == "ignore":
        return
    formula = z3.simplify(formula)
    if z3.is_true(formula):
        return
    if c.welldef_mode == "raise":
        if not c.decide(formula):
            raise FloatingPointError(name)
        return
    c.oblige(f"welldef: {name}", formula, kind="welldef")
    if not _in_generic[0]:
        c.pc.append(formula)


T.set_welldef(_welldef)


class quiet:
    def __enter__(self):
        _wd_off[0] += 1

    def __exit__(self, *a):
        _wd_off[0] -= 1


# ==========================================================================
# scalars
# ==========================================================================
class Sym:
    """symbolic bool / int / real scalar"""
    __slots__ = ("t",)
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    def _term(self):
        return self.t

    @property
    def kind(self):
        t = T.val(self.t)
        return "bool" if T.is_bool(t) else "int" if T.is_int(t) else "real"

    def __repr__(self):
        return f"Sym({self.t if not isinstance(self.t, Dual) else '<dual>'})"

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    def __hash__(self):
        return hash(("Sym", T.val(self.t).get_id()))

    def __bool__(self):
        return ctx().decide(T.t_bool(self.t))

    def __index__(self):
        c = T.const_val(z3.simplify(T.val(self.t)))
        if c is not None and c.denominator == 1:
            return int(c)
        raise Unsupported("symbolic integer used as a concrete index")

    def __int__(self):
        c = T.const_val(z3.simplify(T.val(self.t)))
        if c is not None:
            return int(c)
        raise Unsupported("int() of a symbolic value by C code")

    def __float__(self):
        c = T.const_val(z3.simplify(T.val(self.t)))
        if c is not None:
            return float(c)
        raise Unsupported("float() of a symbolic value by C code")

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def is_integer(self):
        if self.kind in ("int", "bool"):
            return True
        return Sym(z3.IsInt(T.val(self.t)))

    @property
    def shape(self):
        return ()

    ndim = 0
    size = 1
    real = property(lambda s: s)

    def mean(self, *a, **k):
        return self

    sum = max = min = mean

    def __len__(self):
        raise TypeError("object of type 'float' has no len()")


def wrap(t):
    return Sym(t)


def _sc(op, refl=False):
    def f(self, o):
        if isinstance(o, SymArray):
            return NotImplemented
        import numpy as _np
        if isinstance(o, _np.ndarray) and o.ndim > 0:
            return elementwise(op, *((o, self) if refl else (self, o)))
        if isinstance(o, float) and o in (INF, -INF):
            return _inf_case(op, self, o, refl)
        try:
            ot = T.lift(o)
        except Unsupported:
            return NotImplemented
        if refl:
            return Sym(op(ot, self.t))
        return Sym(op(self.t, ot))
    return f


def _inf_case(op, s, o, refl):
    res = {T.t_lt: o > 0, T.t_le: o > 0, T.t_gt: o < 0, T.t_ge: o < 0,
           T.t_eq: False, T.t_ne: True}
    if op in res and not refl:
        return res[op]
    raise Unsupported("arithmetic with infinity")


def _py_div(a, b):
    """Python scalar division: zero divisor raises"""
    bt = T.val(b)
    z = T.t_eq(bt, z3.IntVal(0))
    if ctx().decide(z):
        raise ZeroDivisionError("division by zero")
    return T.t_div(a, b, False)


def _py_floordiv(a, b):
    if ctx().decide(T.t_eq(b, z3.IntVal(0))):
        raise ZeroDivisionError("integer division or modulo by zero")
    return T.t_floordiv(a, b)


def _py_mod(a, b):
    if ctx().decide(T.t_eq(b, z3.IntVal(0))):
        raise ZeroDivisionError("integer modulo by zero")
    return T.t_mod(a, b)


def _py_pow(a, b):
    return T.t_pow(a, b)


for _n, _f in (("add", T.t_add), ("sub", T.t_sub), ("mul", T.t_mul),
               ("truediv", _py_div), ("floordiv", _py_floordiv),
               ("mod", _py_mod), ("pow", _py_pow)):
    setattr(Sym, f"__{_n}__", _sc(_f))
    setattr(Sym, f"__r{_n}__", _sc(_f, True))
for _n, _f in (("lt", T.t_lt), ("le", T.t_le), ("gt", T.t_gt),
               ("ge", T.t_ge), ("eq", T.t_eq), ("ne", T.t_ne)):
    setattr(Sym, f"__{_n}__", _sc(_f))
Sym.__hash__ = lambda self: hash(("Sym", T.val(self.t).get_id()))


def _sym_eq(self, o):
    if o is None or isinstance(o, str):
        return False
    return _sc(T.t_eq)(self, o)


def _sym_ne(self, o):
    if o is None or isinstance(o, str):
        return True
    return _sc(T.t_ne)(self, o)


Sym.__eq__ = _sym_eq
Sym.__ne__ = _sym_ne
Sym.__neg__ = lambda s: Sym(T.t_neg(s.t))
Sym.__pos__ = lambda s: s
Sym.__abs__ = lambda s: Sym(T.t_abs(s.t))
Sym.__round__ = lambda s, n=None: _unsup("round")
Sym.__trunc__ = lambda s: Sym(T.t_trunc(s.t))
Sym.__floor__ = lambda s: Sym(T.t_floor(s.t))
Sym.__ceil__ = lambda s: Sym(T.t_neg(T.t_floor(T.t_neg(s.t))))


def _unsup(m):
    raise Unsupported(m)


def _logic(fn):
    def f(self, o):
        if isinstance(o, SymArray):
            return NotImplemented
        a, b = T.val(self.t), T.val(T.lift(o))
        if T.is_bool(a) and T.is_bool(b):
            return Sym(fn(a, b))
        raise Unsupported("bitwise operator on integers")
    return f


Sym.__and__ = Sym.__rand__ = _logic(z3.And)
Sym.__or__ = Sym.__ror__ = _logic(z3.Or)
Sym.__xor__ = Sym.__rxor__ = _logic(z3.Xor)
Sym.__invert__ = lambda s: Sym(z3.Not(T.t_bool(s.t)))


# ==========================================================================
# arrays
# ==========================================================================
class Fn:
    """memoised index -> term"""
    __slots__ = ("fn", "memo")

    def __init__(self, fn):
        self.fn = fn
        self.memo = {}

    def __call__(self, idx):
        key = tuple(i.get_id() for i in idx)
        r = self.memo.get(key)
        if r is None:
            t = self.fn(idx)
            self.memo[key] = r = (t, idx)
        return r[0]


class Buf:
    """a mutable array object (heap cell)"""
    __slots__ = ("shape", "f", "dtype", "writes", "name", "name_id")

    def __init__(self, shape, f, dtype, name=""):
        self.shape = tuple(shape)
        self.f = f if isinstance(f, Fn) else Fn(f)
        self.dtype = dtype
        self.writes = 0
        self.name = name
        c = Ctx.cur
        if c is not None:
            bufs = c.ghost.setdefault("bufs", [])
            self.name_id = len(bufs)
            bufs.append(self)


def dim_term(d):
    if isinstance(d, Sym):
        return T.val(d.t)
    if isinstance(d, int):
        return z3.IntVal(d)
    return d


def shape_fact(c, shape, g):
    """assume g(index...) over all indices of a shape; small constant
    dimensions are written out"""
    ns = tuple(dim_term(d) for d in shape)
    small = [i for i, d in enumerate(shape)
             if isinstance(d, int) and d <= 16]
    if not (len(shape) > 1 and small and len(small) < len(shape)):
        c.fact(lambda *i: lift_bool(g(*i)), ns)
        return

    def h(*ix):
        out = []
        for cs in itertools.product(*[range(shape[i]) for i in small]):
            it, ci = iter(ix), iter(cs)
            out.append(lift_bool(g(*[
                z3.IntVal(next(ci)) if i in small else next(it)
                for i in range(len(shape))])))
        return z3.And(*out)
    c.fact(h, tuple(n for i, n in enumerate(ns) if i not in small))


def norm_dim(d):
    """int when constant, else z3 term"""
    if isinstance(d, Sym):
        d = T.val(d.t)
    if isinstance(d, z3.ExprRef):
        d = z3.simplify(d)
        c = T.const_val(d)
        if c is not None:
            return int(c)
        return d
    return int(d)


def dims_equal(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return dim_term(a).eq(dim_term(b))


def require_dims(a, b, what):
    if dims_equal(a, b):
        return
    if isinstance(a, int) and isinstance(b, int):
        raise ValueError(f"{what}: shapes {a} and {b} do not match")
    f = dim_term(a) == dim_term(b)
    c = ctx()
    if not c.provable(f):
        if not c.decide(f):
            raise ValueError(f"{what}: shapes do not match")


class SymArray:
    """view of a buffer.  vmap: list over buffer dims of
    ('d', outdim, start) or ('i', index-term)"""
    __array_priority__ = 2000
    __array_ufunc__ = None
    __slots__ = ("buf", "_shape", "vmap", "prov", "blk", "__weakref__",
                 "__dict__")

    def __init__(self, shape, f, dtype="real", name=""):
        shape = tuple(norm_dim(d) for d in shape)
        self.buf = Buf(shape, f, dtype, name)
        self._shape = shape
        self.vmap = None
        self.prov = None          # provenance (index-set information)
        self.blk = None           # (m, n, f(a, e), contents): m blocks of n

    @classmethod
    def view(cls, buf, shape, vmap):
        o = cls.__new__(cls)
        o.buf = buf
        o._shape = tuple(shape)
        o.vmap = vmap
        o.prov = o.blk = None
        return o

    # -- contents ------------------------------------------------------
    def snap(self):
        """the current contents as a pure function of index terms"""
        f = self.buf.f
        if self.vmap is None:
            return f
        vm = self.vmap

        def g(idx):
            b = []
            for m in vm:
                if m[0] == "i":
                    b.append(m[1])
                else:
                    i = idx[m[1]]
                    b.append(T.t_add(i, m[2]) if m[2] is not None else i)
            return f(tuple(b))
        return Fn(g)

    def at(self, *idx):
        """term at index (contract use)"""
        return self.snap()(tuple(T.lift(i) for i in idx))

    def write(self, g, cond=None):
        """contents[idx] := g(idx) where cond(idx)"""
        buf = self.buf
        old = buf.f
        buf.writes += 1
        dt = buf.dtype

        def conv(t):
            if dt == "real" and not isinstance(t, Dual):
                return T.to_real(T.to_arith(t)) if not isinstance(t, Dual) \
                    else t
            if dt == "int":
                if T.is_int(T.to_arith(T.val(t))):
                    return T.to_arith(T.val(t))
                return T.t_trunc(t)
            if dt == "bool":
                return T.t_bool(t)
            return t
        if self.vmap is None:
            if cond is None:
                buf.f = Fn(lambda idx: conv(g(idx)))
            else:
                buf.f = Fn(lambda idx: T.t_if(cond(idx), conv(g(idx)),
                                              old(idx)))
            return
        vm = self.vmap
        shp = self._shape
        bdims = buf.shape

        def h(bidx):
            conds = []
            vidx = [None] * len(shp)
            for bi_no, (m, bi) in enumerate(zip(vm, bidx)):
                if m[0] == "i":
                    conds.append(T.t_eq(bi, m[1]))
                else:
                    vi = bi if m[2] is None else T.t_sub(bi, m[2])
                    vidx[m[1]] = vi
                    if m[2] is not None or not dims_equal(
                            bdims[bi_no], shp[m[1]]):
                        d = dim_term(shp[m[1]])
                        conds.append(T.t_ge(vi, z3.IntVal(0)))
                        conds.append(T.t_lt(vi, d))
            vidx = tuple(z3.IntVal(0) if v is None else v for v in vidx)
            if cond is not None:
                conds.append(cond(vidx))
            cc = z3.simplify(z3.And(*conds)) if conds else z3.BoolVal(True)
            if z3.is_false(cc):
                return old(bidx)
            return T.t_if(cc, conv(g(vidx)), old(bidx))
        buf.f = Fn(h)

    # -- attributes ----------------------------------------------------
    @property
    def shape(self):
        return tuple(d if isinstance(d, int) else Sym(d)
                     for d in self._shape)

    @property
    def dims(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = z3.IntVal(1)
        for d in self._shape:
            r = T.t_mul(r, dim_term(d))
        c = T.const_val(z3.simplify(r))
        return int(c) if c is not None else Sym(r)

    @property
    def dtype(self):
        from . import npshim
        return {"real": npshim.float64, "int": npshim.int64,
                "bool": npshim.bool_}[self.buf.dtype]

    @property
    def kind(self):
        return self.buf.dtype

    @property
    def T(self):
        if self.ndim < 2:
            return self
        f = self.snap()
        return SymArray(self._shape[::-1], lambda i: f(i[::-1]), self.kind)

    def transpose(self, *a):
        if a:
            raise Unsupported("transpose with axes")
        return self.T

    def copy(self, order=None):
        f = self.snap()
        r = SymArray(self._shape, f, self.kind)
        r.prov = self.prov
        return r

    def astype(self, dt, copy=True, **k):
        kd = kind_of_dtype(dt)
        f = self.snap()
        if kd == self.kind:
            return self.copy()
        if kd == "real":
            return SymArray(self._shape, lambda i: T.to_real(
                T.to_arith(f(i))) if not isinstance(f(i), Dual) else f(i),
                "real")
        if kd == "int":
            return SymArray(self._shape, lambda i: T.t_trunc(f(i)), "int")
        return SymArray(self._shape, lambda i: T.t_bool(f(i)), "bool")

    def tolist(self):
        if all(isinstance(d, int) for d in self._shape):
            if self.ndim == 0:
                return Sym(self.at())
            return [x.tolist() if isinstance(x, SymArray) else x
                    for x in self]
        from . import loops
        if isinstance(self._shape[0], int):
            return [self[i].tolist() for i in range(self._shape[0])]
        r = loops.rows(self)
        if self.ndim == 1:
            return r
        return loops.Seq(r.n, lambda k: r.at(k).tolist())

    def item(self, *a):
        if self.ndim == 0:
            return Sym(self.at())
        raise Unsupported("item()")

    def fill(self, v):
        t = T.lift(v)
        self.write(lambda i: t)

    def reshape(self, *shape, order="C"):
        from . import npshim
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return npshim.reshape(self, shape)

    def ravel(self, *a, **k):
        return self.reshape(-1)

    def flatten(self, *a, **k):
        return self.reshape(-1).copy() if self.ndim != 1 else self.copy()

    def squeeze(self, *a):
        raise Unsupported("squeeze")

    def __getattr__(self, name):
        from . import npshim
        if name in ("sum", "mean", "max", "min", "all", "any", "std", "var",
                    "dot", "argmax", "argmin", "prod", "clip", "round",
                    "nonzero", "cumsum"):
            fn = getattr(npshim, name if name not in
                         ("max", "min", "all", "any", "sum", "round")
                         else "np_" + name)
            return lambda *a, **k: fn(self, *a, **k)
        raise AttributeError(name)

    def __len__(self):
        if self.ndim == 0:
            raise TypeError("len() of unsized object")
        d = self._shape[0]
        if isinstance(d, int):
            return d
        raise Unsupported("len() of a symbolic-length array by C code")

    def __bool__(self):
        if self.size == 1:
            return bool(Sym(T.t_bool(self.at(*([0] * self.ndim)))))
        raise ValueError("truth value of an array is ambiguous")

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        d = self._shape[0]
        if not isinstance(d, int):
            return SymIter(self)
        return iter([self[i] for i in range(d)])

    def __repr__(self):
        return f"SymArray{self._shape}"

    def __format__(self, spec):
        return "<symarray>"

    # -- indexing ------------------------------------------------------
    def _basic(self, key):
        """basic-index key -> view or None"""
        if not isinstance(key, tuple):
            key = (key,)
        if any(isinstance(k, SymArray) for k in key):
            return None
        import numpy as _np
        for k in key:
            if isinstance(k, (list, _np.ndarray)):
                return None
        nspec = sum(1 for k in key if k is not None and k is not Ellipsis)
        if any(k is None for k in key):
            return None
        if Ellipsis in [k for k in key if not isinstance(k, Sym)]:
            i = [k is Ellipsis for k in key].index(True)
            key = key[:i] + (slice(None),) * (self.ndim - nspec) + key[i+1:]
        key = key + (slice(None),) * (self.ndim - len(key))
        if len(key) > self.ndim:
            raise IndexError("too many indices for array")
        specs = []      # per own dim: ('i', term) | ('s', start, len)
        for k, d in zip(key, self._shape):
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    if isinstance(d, int) and all(
                            isinstance(x, (int, type(None)))
                            for x in (k.start, k.stop, k.step)):
                        return None
                    raise Unsupported("strided slice")
                specs.append(("s",) + self._slice(k, d))
            else:
                t = T.val(T.lift(k))
                if T.is_bool(t):
                    raise Unsupported("boolean scalar index")
                if not T.is_int(t):
                    raise IndexError("non-integer index")
                dt = dim_term(d)
                c = T.const_val(t)
                if c is not None and isinstance(d, int):
                    ci = int(c)
                    if not -d <= ci < d:
                        raise IndexError("index out of bounds")
                    specs.append(("i", z3.IntVal(ci % d)))
                    continue
                if c is not None and c < 0:
                    t = T.t_add(dt, t)
                    _welldef("index in bounds", t >= 0)
                else:
                    _welldef("index in bounds",
                             z3.And(t < dt, t >= 0))
                specs.append(("i", t))
                ctx().note_idx(t)
        vm = self.vmap or [("d", j, None) for j in range(self.ndim)]
        shape = []
        newpos = {}
        for j, s in enumerate(specs):
            if s[0] == "s":
                newpos[j] = len(shape)
                shape.append(s[2])
        out = []
        for m in vm:
            if m[0] == "i":
                out.append(m)
                continue
            s = specs[m[1]]
            st = m[2]
            if s[0] == "i":
                out.append(("i", T.t_add(s[1], st)
                            if st is not None else s[1]))
            else:
                ns = s[1]
                if st is not None:
                    ns = T.t_add(ns, st) if ns is not None else st
                out.append(("d", newpos[m[1]], ns))
        return SymArray.view(self.buf, shape, out)

    def _slice(self, k, d):
        """-> (start term or None, length dim)"""
        if k.start is None and k.stop is None:
            return None, d
        dt = dim_term(d)

        def norm(x, default):
            if x is None:
                return default
            t = T.val(T.lift(x))
            c = T.const_val(t)
            if c is not None:
                if isinstance(d, int):
                    ci = int(c)
                    if ci < 0:
                        ci = max(ci + d, 0)
                    return z3.IntVal(min(ci, d))
                if c < 0:
                    t = T.t_add(dt, t)
                    return T.t_max(t, z3.IntVal(0))
                return T.t_min(t, dt)
            t = T.t_if(T.t_lt(t, z3.IntVal(0)), T.t_add(t, dt), t)
            return T.t_min(T.t_max(t, z3.IntVal(0)), dt)
        a = norm(k.start, z3.IntVal(0))
        b = norm(k.stop, dt)
        n = z3.simplify(T.t_max(T.t_sub(b, a), z3.IntVal(0)))
        a = z3.simplify(a)
        if T.const_val(a) == 0:
            a = None
        return a, norm_dim(n)

    def __getitem__(self, key):
        from . import npshim
        v = self._basic(key)
        if v is not None:
            if v.ndim == 0:
                return Sym(v.snap()(()))
            return v
        return npshim.fancy_get(self, key)

    def __setitem__(self, key, value):
        from . import npshim
        v = self._basic(key)
        if v is not None:
            npshim.assign(v, value)
            return
        npshim.fancy_set(self, key, value)

    # -- operators -----------------------------------------------------
    def __matmul__(self, o):
        from . import npshim
        return npshim.matmul(self, o)

    def __rmatmul__(self, o):
        from . import npshim
        return npshim.matmul(o, self)

    def __neg__(self):
        return elementwise(T.t_neg, self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return elementwise(T.t_abs, self)

    def __invert__(self):
        if self.kind != "bool":
            raise Unsupported("~ on non-boolean array")
        return elementwise(lambda a: z3.Not(a), self, dtype="bool")

    __hash__ = object.__hash__


class SymIter:
    def __init__(self, a):
        self.a = a

    def __iter__(self):
        return self

    def __next__(self):
        raise Unsupported("iteration over a symbolic-length array")


def kind_of_dtype(dt):
    import numpy as _np
    if dt is None:
        return "real"
    n = getattr(dt, "_kind", None)
    if n:
        return n
    if dt is float:
        return "real"
    if dt is int:
        return "int"
    if dt is bool:
        return "bool"
    k = _np.dtype(dt).kind
    return {"f": "real", "i": "int", "u": "int", "b": "bool"}[k]


def as_array(x):
    """SymArray for arrays/lists; None for scalars"""
    import numpy as _np
    if isinstance(x, SymArray):
        return x
    if isinstance(x, _np.ndarray):
        if x.dtype == object:
            x0 = x
            kinds = set()
            flat = {}
            for ix in _np.ndindex(*x0.shape):
                t = T.lift(x0[ix])
                flat[ix] = t
                tv = T.val(t)
                kinds.add("bool" if T.is_bool(tv) else "int"
                          if T.is_int(tv) else "real")
            kd = "real" if "real" in kinds else "int" if "int" in kinds \
                else "bool" if kinds else "real"
            if kd == "real":
                flat = {k: (v if isinstance(v, Dual) else
                            T.to_real(T.to_arith(v)))
                        for k, v in flat.items()}
            return SymArray(x0.shape, _concrete_fn(x0.shape, flat), kd)
        if x.ndim == 0:
            return None
        kd = {"f": "real", "i": "int", "u": "int", "b": "bool"}.get(
            x.dtype.kind)
        if kd is None:
            raise Unsupported(f"array of dtype {x.dtype}")
        flat = _LazyLift(x)
        return SymArray(x.shape, _concrete_fn(x.shape, flat), kd)
    if isinstance(x, (list, tuple)):
        a = _np.empty(_list_shape(x), dtype=object)
        for ix in _np.ndindex(*a.shape):
            y = x
            for i in ix:
                y = y[i]
            if isinstance(y, SymArray):
                y = Sym(y.at())
            a[ix] = y
        return as_array(a)
    return None


def _list_shape(x):
    if isinstance(x, (list, tuple)):
        if not len(x):
            return (0,)
        return (len(x),) + _list_shape(x[0])
    if isinstance(x, SymArray):
        if not all(isinstance(d, int) for d in x.dims):
            raise Unsupported("list of symbolic-length arrays")
        return tuple(x.dims)
    if hasattr(x, "shape") and not isinstance(x, Sym):
        return tuple(x.shape)
    return ()


class _LazyLift:
    def __init__(self, x):
        self.x = x.copy()

    def __getitem__(self, ix):
        return T.lift(self.x[ix].item())


def _concrete_fn(shape, flat):
    import numpy as _np

    def f(idx):
        cs = []
        for i in idx:
            c = T.const_val(i)
            if c is None:
                c = T.const_val(z3.simplify(i))
            cs.append(None if c is None else int(c))
        if all(c is not None for c in cs):
            return flat[tuple(cs)]
        total = 1
        for s in shape:
            total *= s
        if total > 400 or total == 0:
            raise Unsupported("symbolic index into a large concrete array")
        r = None
        for ix in _np.ndindex(*shape):
            if any(c is not None and c != k for c, k in zip(cs, ix)):
                continue
            if r is None:
                r = flat[ix]
                continue
            cond = z3.And(*[i == k for i, c, k in zip(idx, cs, ix)
                            if c is None])
            r = T.t_if(cond, flat[ix], r)
        return r
    return f


def broadcast_shapes(shapes):
    nd = max((len(s) for s in shapes), default=0)
    out = []
    for j in range(nd):
        dims = []
        for s in shapes:
            k = j - (nd - len(s))
            if k >= 0:
                dims.append(s[k])
        d0 = 1
        for d in dims:
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(d0, int) and d0 == 1:
                d0 = d
            else:
                require_dims(d0, d, "broadcast")
                if isinstance(d, int):
                    d0 = d
        out.append(d0)
    return tuple(out)


def bidx(idx, shape):
    """project a broadcast index on an operand's shape"""
    idx = idx[len(idx) - len(shape):]
    return tuple(z3.IntVal(0) if isinstance(d, int) and d == 1 else i
                 for i, d in zip(idx, shape))


PARTIAL = set()


def elementwise(op, *args, dtype=None, out=None, partial=None):
    """apply a term operation pointwise; snapshot semantics"""
    ops = []
    shapes = []
    kinds = []
    for a in args:
        arr = as_array(a)
        if arr is None:
            t = T.lift(a)
            ops.append((None, t))
            tv = T.val(t)
            kinds.append("bool" if T.is_bool(tv) else "int"
                         if T.is_int(tv) else "real")
        else:
            ops.append((arr._shape, arr.snap()))
            shapes.append(arr._shape)
            kinds.append(arr.kind)
    if not shapes:
        return Sym(op(*[o[1] for o in ops])) if out is None else \
            _out_assign(out, Sym(op(*[o[1] for o in ops])))
    shape = broadcast_shapes(shapes)

    def f(idx):
        return op(*[t if s is None else t(bidx(idx, s)) for s, t in ops])

    def fq(idx):
        with quiet():
            return f(idx)
    if dtype is None:
        dtype = result_kind(op, kinds)
    if partial if partial is not None else op in PARTIAL:
        generic_check(shape, f)
    res = SymArray(shape, fq, dtype)
    if out is not None:
        return _out_assign(out, res)
    return res


def generic_check(shape, f):
    """evaluate f at an arbitrary in-range index, recording its
    well-definedness obligations"""
    c = ctx()
    if _wd_off[0] or c.welldef_mode == "ignore":
        return
    n0 = len(c.pc)
    idx = []
    if any(isinstance(d, int) and d == 0 for d in shape):
        return
    _in_generic[0] += 1
    try:
        _generic_check(c, n0, idx, shape, f)
    finally:
        _in_generic[0] -= 1


def _generic_check(c, n0, idx, shape, f):
    conc = all(isinstance(d, int) and d <= 16 for d in shape)
    if conc:
        import numpy as _np
        for ix in _np.ndindex(*shape):
            f(tuple(z3.IntVal(i) for i in ix))
        return
    for d in shape:
        k = c.fresh("g", I)
        c.note_idx(k)
        c.pc += [k >= 0, k < dim_term(d)]
        idx.append(k)
    f(tuple(idx))
    del c.pc[n0:n0 + 2 * len(shape)]


def _out_assign(out, res):
    from . import npshim
    if isinstance(out, tuple):
        out = out[0]
    npshim.assign(out, res)
    return out


_CMP = {T.t_lt, T.t_le, T.t_gt, T.t_ge, T.t_eq, T.t_ne}
_REALRES = set()


def result_kind(op, kinds):
    if op in _CMP:
        return "bool"
    if op in _REALRES:
        return "real"
    if "real" in kinds:
        return "real"
    if "int" in kinds:
        return "int"
    return "int" if op not in (T.t_if,) else "bool"


def _np_div(a, b):
    return T.t_div(a, b, True)


def _np_pow(a, b):
    return T.t_pow(a, b, True)


def _np_floordiv(a, b):
    welldef("nonzero divisor", T.t_ne(b, z3.IntVal(0)))
    return T.t_floordiv(a, b)


def _np_mod(a, b):
    welldef("nonzero divisor", T.t_ne(b, z3.IntVal(0)))
    return T.t_mod(a, b)


PARTIAL |= {_np_div, _np_pow, _np_floordiv, _np_mod, T.t_log, T.t_sqrt}
_REALRES |= {_np_div, T.t_tanh, T.t_cosh, T.t_exp, T.t_log, T.t_sqrt,
             T.t_sin, T.t_cos}


def _arr_op(op, refl=False):
    def f(self, o):
        if o is None or isinstance(o, str):
            return NotImplemented
        if isinstance(o, float) and o in (INF, -INF) and op in _CMP:
            r = _inf_case(op, self, o, False)
            return elementwise(lambda a: z3.BoolVal(r), self, dtype="bool")
        a, b = (o, self) if refl else (self, o)
        return elementwise(op, a, b)
    return f


def _arr_iop(op):
    def f(self, o):
        from . import npshim
        r = elementwise(op, self, o)
        if self.kind == "int" and r.kind == "real":
            raise TypeError("Cannot cast ufunc output from float64 to int64")
        require_same_or_broadcast(self, r)
        npshim.assign(self, r)
        return self
    return f


def require_same_or_broadcast(dst, src):
    if src.ndim > dst.ndim:
        raise ValueError("non-broadcastable output operand")


for _n, _f in (("add", T.t_add), ("sub", T.t_sub), ("mul", T.t_mul),
               ("truediv", _np_div), ("floordiv", _np_floordiv),
               ("mod", _np_mod), ("pow", _np_pow)):
    setattr(SymArray, f"__{_n}__", _arr_op(_f))
    setattr(SymArray, f"__r{_n}__", _arr_op(_f, True))
    setattr(SymArray, f"__i{_n}__", _arr_iop(_f))
for _n, _f in (("lt", T.t_lt), ("le", T.t_le), ("gt", T.t_gt),
               ("ge", T.t_ge), ("eq", T.t_eq), ("ne", T.t_ne)):
    setattr(SymArray, f"__{_n}__", _arr_op(_f))
SymArray.__hash__ = object.__hash__


def _b_and(a, b):
    if T.is_bool(a) and T.is_bool(b):
        return z3.And(a, b)
    raise Unsupported("bitwise & on integers")


def _b_or(a, b):
    if T.is_bool(a) and T.is_bool(b):
        return z3.Or(a, b)
    raise Unsupported("bitwise | on integers")


def _b_xor(a, b):
    if T.is_bool(a) and T.is_bool(b):
        return z3.Xor(a, b)
    raise Unsupported("bitwise ^ on integers")


for _n, _f in (("and", _b_and), ("or", _b_or), ("xor", _b_xor)):
    def _mk(fn):
        return (lambda self, o: elementwise(fn, self, o, dtype="bool"),
                lambda self, o: elementwise(fn, o, self, dtype="bool"))
    _l, _r = _mk(_f)
    setattr(SymArray, f"__{_n}__", _l)
    setattr(SymArray, f"__r{_n}__", _r)
    def _mki(fn):
        def g(self, o):
            from . import npshim
            npshim.assign(self, elementwise(fn, self, o, dtype="bool"))
            return self
        return g
    setattr(SymArray, f"__i{_n}__", _mki(_f))
