"""Loop rule: a loop with a symbolic trip count is cut at an inductive
invariant.  The invariant is the largest inductive subset (Houdini) of a
template family over the locals and attributes the loop modifies, plus the
candidates a contract supplies; everything else the body writes is havocked."""
import itertools
import sys
import z3

from . import terms as T
from .terms import Unsupported
from .engine import (shape_fact, Sym, SymArray, Ctx, ctx, PathEnd, Restart, Buf, Fn,
                     dim_term, quiet)


class SymRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __len__(self):
        raise Unsupported("len of a symbolic range")

    def __iter__(self):
        raise Unsupported("symbolic range iterated outside a loop statement")


class Concrete:
    symbolic = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


class Forever:
    symbolic = False

    def __iter__(self):
        return self

    def __next__(self):
        return None


class Cut:
    """one generic iteration, then the back edge"""
    symbolic = True

    def __init__(self, key, rng=None):
        self.key = key
        self.rng = rng
        self.mode = None
        self.target = None
        self.done = False

    def __iter__(self):
        return self

    def __next__(self):
        if self.mode == "exit":
            raise StopIteration
        if not self.done:
            self.done = True
            if self.rng is not None:
                return Sym(self.k)
            return None
        frame = sys._getframe(1)
        back_edge(self, frame.f_locals)
        raise PathEnd("loop back edge")


def _attrs_of(env, names_seen=None):
    """sktopt objects reachable from the locals: {path: (obj, attr)}"""
    out = {}
    for nm, v in env.items():
        if nm.startswith("__vpy__"):
            continue
        cls = type(v)
        if getattr(cls, "__module__", "").startswith("sktopt") and hasattr(
                v, "__dict__"):
            for a in v.__dict__:
                out[f"{nm}.{a}"] = (v, a)
    return out


def scalar_like(v):
    return isinstance(v, (Sym, int, float)) and not isinstance(v, bool) \
        and not isinstance(v, type)


def as_t(v):
    try:
        t = T.val(T.lift(v))
    except Unsupported:
        return None
    if T.is_bool(t):
        return None
    return t


def havoc_like(c, v, base):
    """fresh value of the same type; None when not possible"""
    if isinstance(v, bool):
        return Sym(c.fresh(base, z3.BoolSort()))
    if isinstance(v, Sym):
        k = v.kind
        return Sym(c.fresh(base, {"real": T.R, "int": T.I,
                                  "bool": z3.BoolSort()}[k]))
    if isinstance(v, int):
        return Sym(c.fresh(base, T.I))
    if isinstance(v, float):
        return Sym(c.fresh(base, T.R))
    if type(v).__module__ == "numpy" and getattr(v, "shape", None) == ():
        return havoc_like(c, v.item(), base)
    if isinstance(v, SymArray):
        from .npshim import havoc_array
        return havoc_array(v.dims, v.kind, base)
    return Ellipsis


class Family:
    """binder of a map loop: everything introduced while it is active is a
    function of the iteration number k"""

    def __init__(self, k, lo, hi):
        self.k, self.lo, self.hi = k, lo, hi
        self.pool = T.Pool([k])

    def wrap(self, fn, ns):
        k, lo, hi = self.k, self.lo, self.hi
        ns = tuple(None if n is None else n for n in ns)
        free = [n if n is None else dim_term(n) for n in ns]

        def g(kk, *idx):
            guard = [kk >= lo, kk < hi]
            for i, n in zip(idx, free):
                if n is not None:
                    guard += [i >= 0, i < z3.substitute(n, (k, kk))]
            f = z3.substitute(fn(*idx), (k, kk))
            return z3.Implies(z3.And(*guard), f)
        return g, (self.pool,) + (None,) * len(ns)

    def at(self, t, kk):
        self.pool.add(T.lift(kk))
        return z3.substitute(t, (self.k, T.lift(kk)))

    def under(self, fn):
        """evaluate something lazy that belongs to the generic iteration:
        symbols it introduces depend on the iteration number, what it assumes
        holds for every iteration"""
        c = ctx()
        if self in c.family:
            return fn()
        n0, i0 = len(c.pc), len(c.idx)
        c.family.append(self)
        c.pc += [self.k >= self.lo, self.k < self.hi]
        try:
            return fn()
        finally:
            c.family.remove(self)
            self.retire(c, n0, i0)

    def retire(self, c, n0, i0):
        for t in c.idx[i0:]:
            if occurs(t, self.k):
                c.idx_ids.discard(t.get_id())
        c.idx[i0:] = [t for t in c.idx[i0:] if not occurs(t, self.k)]
        body = c.pc[n0 + 2:]
        del c.pc[n0:]
        if body:
            fb = z3.And(*body)
            c.facts.append(((self.pool,), lambda kk: z3.Implies(
                z3.And(kk >= self.lo, kk < self.hi),
                z3.substitute(fb, (self.k, kk)))))


class FamList(list):
    """a list that a map loop may append to"""
    fam = None                # (Family, [items appended by iteration k])
    tail = ()                 # items appended after that loop

    def family(self):
        return self.fam

    def __bool__(self):
        if self.fam is None:
            return list.__len__(self) > 0
        f = self.fam[0]
        return list.__len__(self) > 0 or ctx().decide(f.hi > f.lo)

    def __len__(self):
        if self.fam is None:
            return list.__len__(self)
        raise Unsupported("length of a list built by a symbolic loop")

    def __iter__(self):
        if self.fam is None:
            return list.__iter__(self)
        raise Unsupported("iteration over a list built by a symbolic loop")

    def count(self):
        f, items = self.fam
        return list.__len__(self) + (f.hi - f.lo) * len(items) + len(
            self.tail)

    def append(self, x):
        c = Ctx.cur
        if self.fam is None or c is None or not c.ghost.get("seq_append") \
                or c.family:
            return list.append(self, x)
        self.tail = (*self.tail, x)

    def at(self, k):
        if self.tail:
            f, items = self.fam
            get, n = self._at, z3.simplify((f.hi - f.lo) * len(items))
            for j, x in enumerate(self.tail):
                get = _appended(z3.simplify(n + j), get, x)
            return get(T.lift(k))
        return self._at(k)

    def _at(self, k):
        """item of iteration lo + k (one item per iteration, none before)"""
        f, items = self.fam
        if list.__len__(self) or len(items) != 1:
            raise Unsupported("item of a mixed list")
        kk = z3.simplify(f.lo + T.to_int(T.lift(k)) if not T.is_int(
            T.lift(k)) else f.lo + T.lift(k))
        f.pool.add(kk)
        return at_iteration(items[0], f, kk)

    def __getitem__(self, i):
        if self.fam is None:
            return list.__getitem__(self, i)
        return seq_item(self, i)


def at_iteration(v, fam, kk):
    """the value v of the generic iteration fam.k, for iteration kk"""
    k = fam.k
    if isinstance(v, Sym):
        return Sym(z3.substitute(v.t, (k, kk)))
    if isinstance(v, SymArray):
        f = v.snap()
        dims = tuple(d if isinstance(d, int) else z3.substitute(
            dim_term(d), (k, kk)) for d in v.dims)

        def at(i):
            if any(occurs(T.lift(x), k) for x in i):
                raise Unsupported("index depends on the iteration")
            return z3.substitute(fam.under(lambda: T.lift(f(i))), (k, kk))
        return SymArray(dims, at, v.dtype)
    if isinstance(v, (tuple, list)) and type(v) in (tuple, list):
        return type(v)(at_iteration(x, fam, kk) for x in v)
    if hasattr(type(v), "vpy_at"):
        return v.vpy_at(fam, kk)
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    raise Unsupported(f"{type(v).__name__} item of a symbolic list")


def occurs(t, k):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(k):
            return True
        todo += x.children()
    return False


def seq_item(s, i):
    c = ctx()
    n = seq_len(s)
    t = T.lift(i)
    t = z3.simplify(z3.If(t < 0, t + n, t))
    if not c.decide(z3.And(t >= 0, t < n)):
        raise IndexError("list index out of range")
    return s.at(t)


def seq_len(s):
    return z3.simplify(s.count() if isinstance(s, FamList) else s.n)


def is_seq(x):
    return isinstance(x, Seq) or (isinstance(x, FamList)
                                  and x.fam is not None)


class Seq(list):
    """list of symbolic length n; item(k) gives the k-th item"""

    def __init__(self, n, item):
        list.__init__(self)
        self.n, self.item = T.lift(n), item

    def at(self, k):
        ctx().note_idx(T.lift(k))
        return self.item(T.lift(k))

    def __bool__(self):
        return ctx().decide(self.n > 0)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic list")
        return seq_item(self, i)

    def _no(self, *a, **k):
        raise Unsupported("operation on a list of symbolic length")

    def extend(self, xs):
        """append a fixed number of items (opt-in: only sound outside of
        symbolic loops, which do not track these lists)"""
        c = ctx()
        if not c.ghost.get("seq_append") or c.family or is_seq(xs):
            self._no()
        for x in list(xs):
            self.item = _appended(self.n, self.item, x)
            self.n = z3.simplify(self.n + 1)

    def append(self, x):
        self.extend([x])

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, xs):
        r = Seq(self.n, self.item)
        r.extend(xs)
        return r

    def copy(self):
        return Seq(self.n, self.item)

    __len__ = __iter__ = __setitem__ = __delitem__ = _no
    insert = pop = remove = sort = __eq__ = __contains__ = _no
    __hash__ = object.__hash__


def _appended(n, item, x):
    def at(k):
        c = ctx()
        d = z3.simplify(k - n)
        if z3.is_int_value(d):
            return x if d.as_long() == 0 else item(k)
        if c.provable(k == n):
            return x
        if c.provable(k < n):
            return item(k)
        return merge(k == n, x, item(k))
    return at


def merge(cond, a, b):
    """the value that is a where cond holds, else b"""
    if isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(
            b):
        return type(a)(merge(cond, x, y) for x, y in zip(a, b))
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        raise Unsupported("list of mixed items")
    s, t = T.lift(a), T.lift(b)
    if s.sort() != t.sort():
        s, t = T.to_real(s), T.to_real(t)
    return Sym(z3.If(cond, s, t))


def rows(a):
    """the rows of an array of symbolic length"""
    if a.ndim == 1:
        f = a.snap()
        return Seq(dim_term(a.dims[0]), lambda k: Sym(T.lift(f((k,)))))
    return Seq(dim_term(a.dims[0]), lambda k: a[Sym(k)])


def zip_seq(xs):
    if not all(is_seq(x) for x in xs):
        raise Unsupported("zip of a symbolic and a concrete list")
    n = seq_len(xs[0])
    for x in xs[1:]:
        m = seq_len(x)
        if not m.eq(n):
            n = m if ctx().provable(m == n) else z3.If(m < n, m, n)
    return Seq(n, lambda k: tuple(x.at(k) for x in xs))


def map_seq(fn, it):
    """[fn(x) for x in it] over a list of symbolic length: one generic
    iteration"""
    c = ctx()
    cut = MapCut("comprehension", SymRange(z3.IntVal(0), seq_len(it)))
    out = []
    new = cut.open((), {"out": out})
    if not cut.nonempty:
        return []
    out = new["out"]
    list.append(out, fn(it.at(cut.k)))
    cut.close({"out": out})
    return out


class MapCut(Cut):
    """loop without loop-carried state: one generic iteration; the lists it
    appends to become families indexed by the iteration number"""
    item = None

    def __next__(self):
        c = ctx()
        if not self.done:
            self.done = True
            if not self.nonempty:
                raise StopIteration
            return self.item(self.k)
        self.close(sys._getframe(1).f_locals)
        raise StopIteration

    def open(self, names, env):
        c = ctx()
        st = loop_state(c, self.key)
        self.names = names
        self.env0 = dict(env)
        lo, hi = self.rng.lo, self.rng.hi
        self.nonempty = c.decide(hi > lo)
        if not self.nonempty:
            return {}
        self.k = c.fresh("it", T.I)
        self.fam = Family(self.k, lo, hi)
        c.ghost.setdefault("families", []).append(self.fam)
        self.n0 = len(c.pc)
        self.i0 = len(c.idx)
        c.family.append(self.fam)
        c.pc += [self.k >= lo, self.k < hi]
        c.note_idx(self.k)
        c.ghost.setdefault("loop_k", {})[self.key] = self.k
        self.mapw = st.setdefault("mapw", {})
        self.old = {}
        for b in c.ghost.get("bufs", []):
            if b.name_id in self.mapw:
                self._own_slice(c, b, self.mapw[b.name_id])
        self.heap0 = [(b, b.f) for b in c.ghost.get("bufs", [])]
        new = {}
        self.lists = {}
        for n, v in env.items():
            if type(v) is list and not n.startswith("__vpy__"):
                self.lists[n] = new[n] = FamList(v)
        self.sizes = {n: list.__len__(v) for n, v in self.lists.items()}
        self.copies = {n: list.copy(env[n]) for n in self.lists}
        self.new = new
        return new

    def _own_slice(self, c, b, axis):
        """iteration k may read slice k (along axis) of an array the loop
        writes; the rest is arbitrary while the loop runs"""
        f0, k = b.f, self.k
        self.old[b.name_id] = f0
        sort = {"real": T.R, "int": T.I}.get(b.dtype, z3.BoolSort())
        other = c.fresh_fn("other", T.I, *([T.I] * len(b.shape)), sort)
        b.f = Fn(lambda i: z3.If(T.lift(i[axis]) == k, T.lift(f0(i)),
                                 other(k, *[T.lift(x) for x in i])))

    def _written(self, c, b, f):
        """the loop wrote b: each iteration only its own slice?"""
        k, lo, hi = self.k, self.fam.lo, self.fam.hi
        f1 = b.f
        if b.name_id not in self.mapw:
            for a in range(len(b.shape)):
                i = tuple(c.fresh("i", T.I) for _ in b.shape)
                same = self.fam.under(lambda: c.provable(z3.Implies(
                    i[a] != k, T.lift(f1(i)) == T.lift(f(i))), 2000))
                if same:
                    self.mapw[b.name_id] = a
                    raise Restart(self.key)
            raise Unsupported("map loop writes an array")
        a, f0, fam = self.mapw[b.name_id], self.old[b.name_id], self.fam
        i = tuple(c.fresh("i", T.I) for _ in b.shape)
        if not fam.under(lambda: c.provable(z3.Implies(
                i[a] != k, T.lift(f1(i)) == T.lift(f(i))), 2000)):
            raise Unsupported("map loop writes an array")

        def g(i):
            kk = T.lift(i[a])
            t = fam.under(lambda: T.lift(f1(i)))
            c = ctx()
            c.note_idx(kk)
            fam.pool.add(kk)
            return z3.If(z3.And(kk >= lo, kk < hi),
                         z3.substitute(t, (k, kk)), T.lift(f0(i)))
        b.f = Fn(g)

    def close(self, env):
        c = ctx()
        c.family.pop()
        for t in c.idx[self.i0:]:
            c.idx_ids.discard(t.get_id())
        del c.idx[self.i0:]
        body = c.pc[self.n0 + 2:]
        del c.pc[self.n0:]
        if body:
            fb = z3.And(*body)
            c.facts.append(((self.fam.pool,), lambda kk: z3.Implies(
                z3.And(kk >= self.fam.lo, kk < self.fam.hi),
                z3.substitute(fb, (self.k, kk)))))
        for b, f in self.heap0:
            if b.f is not f:
                self._written(c, b, f)
            elif b.name_id in self.old:
                b.f = self.old[b.name_id]
        for n, v in self.env0.items():
            if n.startswith("__vpy__") or n in self.lists:
                continue
            if n in env and env[n] is not v and n in self.names \
                    and n != self.target:
                raise Unsupported(f"loop-carried variable {n}")
        for n, l in self.lists.items():
            if env.get(n) is not l:
                o, was = self.env0[n], self.copies[n]
                if env.get(n) is o and list.__len__(o) == len(was) and all(
                        list.__getitem__(o, j) is x
                        for j, x in enumerate(was)):
                    continue          # only read
                raise Unsupported(f"list {n} rebound in a map loop")
            k = list.__len__(l)
            if k > self.sizes[n]:
                items = [list.__getitem__(l, i)
                         for i in range(self.sizes[n], k)]
                del l[self.sizes[n]:]
                l.fam = (self.fam, items)


class SymList(list):
    """list of symbolic length that a cut loop grows by a fixed number of
    items per iteration; the items themselves are not tracked"""

    def __init__(self, n):
        list.__init__(self)
        self.n = n

    def append(self, x):
        self.n = z3.simplify(self.n + 1)

    def extend(self, xs):
        self.n = z3.simplify(self.n + len(list(xs)))

    def __len__(self):
        raise Unsupported("length of a list grown by a symbolic loop")

    def __bool__(self):
        return ctx().decide(self.n > 0)

    def __getitem__(self, i):
        return Opaque("list item")

    def __iter__(self):
        raise Unsupported("iteration over a list grown by a symbolic loop")

    insert = pop = remove = sort = __setitem__ = __delitem__ = __iter__


class Enum:
    def __init__(self, a, start):
        self.a, self.start = a, start

    def __iter__(self):
        raise Unsupported("enumerate outside a loop statement")


class Opaque:
    """a value the loop abstraction knows nothing about: any use of it makes
    the unit undecided"""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _u(self, *a, **k):
        raise Unsupported(f"value of {self._n} after/inside a cut loop")

    __getattr__ = __setattr__ = __bool__ = __add__ = __radd__ = _u
    __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = _u
    __getitem__ = __setitem__ = __iter__ = __len__ = __call__ = _u
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __neg__ = _u
    __hash__ = object.__hash__


class Hooks:
    Unsupported = Unsupported

    def enter(self, q):
        c = Ctx.cur
        if c is not None:
            c.persist.setdefault("functions", set()).add(q)
            st = c.ghost.get("calls")
            if st is not None:
                st.append(q)

    def for_iter(self, key, it, target=None):
        c = Ctx.cur
        if isinstance(it, Enum):
            n = it.a.dims[0]
            if c.ghost.get("map_loops"):
                r = MapCut(key, SymRange(z3.IntVal(0), dim_term(n)))
                r.item = lambda k: (Sym(k + it.start if it.start else k),
                                    it.a[Sym(k)])
                r.target = target
                return r
            r = Cut(key, SymRange(z3.IntVal(0), dim_term(n)))
            r.target = None
            e = _ElemCut(r, it.a)
            e.enum = it.start
            return e
        if is_seq(it):
            r = MapCut(key, SymRange(z3.IntVal(0), seq_len(it)))
            r.item = it.at
            r.target = target
            return r
        if c is not None and c.ghost.get("map_loops"):
            if isinstance(it, SymRange):
                r = MapCut(key, it)
                r.item = Sym
                r.target = target
                return r
            if isinstance(it, SymArray) and not isinstance(it.dims[0], int):
                r = MapCut(key, SymRange(z3.IntVal(0), dim_term(it.dims[0])))
                r.item = lambda k: it[Sym(k)]
                r.target = target
                return r
        if isinstance(it, SymRange):
            r = Cut(key, it)
            r.target = target
            return r
        if isinstance(it, SymArray) and not isinstance(it.dims[0], int):
            # iterate over the elements of an array of symbolic length
            r = Cut(key, SymRange(z3.IntVal(0), dim_term(it.dims[0])))
            r.target = None
            return _ElemCut(r, it)
        return Concrete(it)

    def listcomp(self, fn, it):
        if isinstance(it, SymRange):
            n = z3.simplify(z3.If(it.hi > it.lo, it.hi - it.lo, 0))
            lo = it.lo
            it = Seq(n, lambda k: Sym(lo + k))
        if Ctx.cur is not None and isinstance(it, SymArray) and it.ndim and \
                not isinstance(it._shape[0], int):
            it = rows(it)
        if is_seq(it):
            return map_seq(fn, it)
        return [fn(x) for x in it]

    def list_of(self, make, x):
        """list(x)"""
        if Ctx.cur is None or make is not list:
            return make(x)
        if is_seq(x) and isinstance(x, FamList) and x.fam is not None:
            r = FamList(list.copy(x))
            r.fam, r.tail = x.fam, x.tail
            return r
        if is_seq(x):
            return Seq(seq_len(x), x.at)
        if isinstance(x, SymArray) and x.ndim == 1 and not isinstance(
                x._shape[0], int):
            return rows(x)
        return make(x)

    def while_iter(self, key):
        c = Ctx.cur
        if c is None or c.ghost.get("native_while"):
            return Forever()
        return Cut(key)

    def loop_head(self, it, names, env, aug=()):
        if not it.symbolic:
            return {}
        cut = it.cut if isinstance(it, _ElemCut) else it
        if isinstance(cut, MapCut):
            return cut.open(names, dict(env))
        return head(cut, names, dict(env), aug)


class _ElemCut:
    symbolic = True
    enum = None

    def __init__(self, cut, arr):
        self.cut, self.arr = cut, arr

    def __iter__(self):
        return self

    def __next__(self):
        if self.cut.mode == "exit":
            raise StopIteration
        if not self.cut.done:
            self.cut.done = True
            x = self.arr[Sym(self.cut.k)]
            if self.enum is not None:
                k = self.cut.k
                return Sym(k + self.enum if self.enum else k), x
            return x
        back_edge(self.cut, sys._getframe(1).f_locals)
        raise PathEnd("loop back edge")


HOOKS = Hooks()


def loop_state(c, key):
    d = c.persist.setdefault("loops", {})
    return d.setdefault(key, {"dead": set(), "bufs": set(), "attrs": set(),
                              "lists": {}, "kept": []})


def candidates(c, key, env0, envh, refs, k=None):
    """[(id, formula-over-current-env builder)]"""
    out = []
    user = c.unit.loop_candidates(key) if hasattr(
        c.unit, "loop_candidates") else []
    for i, fn in enumerate(user):
        out.append((f"user{i}", fn))
    mod = [n for n in sorted(envh) if as_t(envh[n]) is not None]
    for n in mod:
        for rn, rt in refs:
            def ge(env, kk, n=n, rt=rt):
                return T.t_ge(as_t(env[n]), rt)

            def le(env, kk, n=n, rt=rt):
                return T.t_le(as_t(env[n]), rt)
            out.append((f"{n}>={rn}", ge))
            out.append((f"{n}<={rn}", le))
        if k is not None:
            def sync(env, kk, n=n, e0=as_t(env0.get(n)) if n in env0
                     else None):
                if e0 is None or T.is_int(e0) is False:
                    return z3.BoolVal(True)
                return T.t_eq(as_t(env[n]), T.t_add(e0, kk))
            out.append((f"{n}==n0+k", sync))
    for i, a in enumerate(mod):
        for b in mod[i + 1:]:
            out.append((f"{a}<={b}", lambda env, kk, a=a, b=b: T.t_le(
                as_t(env[a]), as_t(env[b]))))
            out.append((f"{a}>={b}", lambda env, kk, a=a, b=b: T.t_ge(
                as_t(env[a]), as_t(env[b]))))
    # a variable that is the midpoint of two others (bisection)
    if len(mod) <= 6:
        for m in mod:
            for i, a in enumerate(mod):
                for b in mod[i + 1:]:
                    if m in (a, b):
                        continue

                    def mid(env, kk, m=m, a=a, b=b):
                        return T.t_eq(T.t_mul(z3.RealVal(2), as_t(env[m])),
                                      T.t_add(as_t(env[a]), as_t(env[b])))
                    out.append((f"2{m}=={a}+{b}", mid))
    return out


def head(cut, names, env, aug=()):
    c = ctx()
    st = loop_state(c, cut.key)
    # arrays updated in place: the name stays, the content is havocked like
    # that of every other array the body writes (checked at the back edge)
    cut.same = {n: env[n] for n in aug if type(env.get(n)) is SymArray
                and n not in st.setdefault("rebound", set())}
    names = [n for n in names if n not in cut.same]
    cut.names = names
    cut.env0 = {n: env[n] for n in names if n in env}
    # reference values: numeric locals at loop entry (parameters included)
    refs = [("0", z3.IntVal(0))]
    seen = [z3.RealVal(0)]
    for n in sorted(env):
        if n.startswith("__vpy__"):
            continue
        v = env[n]
        if scalar_like(v):
            t = as_t(v)
            if t is not None:
                st_ = z3.simplify(T.to_real(t))
                if any(st_.eq(q) for q in seen):
                    continue
                seen.append(st_)
                refs.append((f"{n}@entry", t))
    cut.refs = refs
    k0 = cut.rng.lo if cut.rng is not None else None
    # -- havoc ---------------------------------------------------------
    new = {}
    for n in names:
        if n in env:
            h = havoc_like(c, env[n], n)
            if h is Ellipsis:
                h = Opaque(n)
            new[n] = h
    attrs = _attrs_of(env)
    for path in sorted(st["attrs"]):
        if path in attrs:
            o, a = attrs[path]
            h = havoc_like(c, o.__dict__[a], path.replace(".", "_"))
            if a in c.ghost.get("attr_opaque", ()):
                h = Opaque(path)
            if h is Ellipsis:
                raise Unsupported(f"loop modifies attribute {path}")
            o.__dict__[a] = h
    # numeric environment the candidates talk about (at entry)
    cut.cand_env_names = [n for n in new if as_t(new[n]) is not None]
    env_entry = {n: env[n] for n in cut.cand_env_names}
    kterm = None
    if cut.rng is not None:
        kterm = c.fresh("it", T.I)
    cands = candidates(c, cut.key, env_entry,
                       {n: new[n] for n in cut.cand_env_names}, refs, kterm)
    for n, v in env.items():
        if n in new and isinstance(v, bool):
            def keep(env, kk, n=n, v=v):
                t = T.lift(env[n])
                t = t if isinstance(t, z3.ExprRef) else z3.BoolVal(bool(t))
                if not T.is_bool(t):
                    raise Unsupported(n)
                return t if v else z3.Not(t)
            cands.append((f"{n} is {v}", keep))
    live = []
    for cid, fn in cands:
        if cid in st["dead"]:
            continue
        try:
            f = fn({**env, **env_entry}, k0)
        except Unsupported:
            st["dead"].add(cid)
            continue
        except KeyError:
            st["dead"].add(cid)
            continue
        if ("entry", cid) not in st.setdefault("ok", set()):
            if not c.provable(f, 800):
                st["dead"].add(cid)
                continue
        else:
            if not c.provable(f, 800):
                st["dead"].add(cid)
                raise Restart(cut.key)
        live.append((cid, fn))
    cut.live = live
    # -- array invariants supplied by the contract -----------------------
    gen = c.ghost.get("array_inv")
    cut.arr_live = []
    if gen is not None:
        mods = [b for b in c.ghost.get("bufs", [])
                if b.name_id in st["bufs"]]
        for cid, b, pred, *value in gen(mods):
            cid = (b.name_id, cid)
            if value:
                pred = _functional(value[0])
            if cid in st["dead"]:
                continue
            if not _arr_holds(c, b, pred, k0):
                st["dead"].add(cid)
                _gave_up(c, cid)
                continue
            cut.arr_live.append((cid, b, pred))
    # -- lists the body appends to ---------------------------------------
    cut.lists = {}
    for n, inc in st["lists"].items():
        if n in env and kterm is not None and type(env[n]) is list:
            ln = z3.simplify(list.__len__(env[n]) +
                             inc * (kterm - cut.rng.lo))
            cut.lists[n] = new[n] = SymList(ln)
            cut.lists[n].n0 = ln
    # -- heap havoc ----------------------------------------------------
    from .npshim import havoc_array
    for b in list(c.ghost.get("bufs", [])):
        if b.name_id in st["bufs"]:
            val = [p.vpy_value for _, x, p in cut.arr_live
                   if x is b and hasattr(p, "vpy_value")]
            if val:
                b.f = Fn(lambda i, v=val[0]: v(kterm, *i))
                continue
            h = havoc_array(b.shape, b.dtype, "heap")
            b.f = h.buf.f
    # snapshot AFTER the havoc
    cut.heap0 = [(b, b.f) for b in c.ghost.get("bufs", [])]
    cut.attr0 = {p: (o, a, o.__dict__.get(a)) for p, (o, a) in attrs.items()}
    cut.cont0 = {n: (v, _cont_sig(v)) for n, v in env.items()
                 if isinstance(v, (list, dict, set))
                 and not n.startswith("__vpy__") and n not in cut.lists
                 and not isinstance(v, SymList)}
    # -- assume the invariant ------------------------------------------
    full = {**env, **new}
    if cut.rng is not None:
        cut.k = kterm
        c.assume(kterm >= cut.rng.lo)
        c.assume(z3.Or(kterm <= cut.rng.hi, kterm == cut.rng.lo))
    for cid, fn in live:
        c.assume(fn(full, kterm))
    for cid, b, pred in cut.arr_live:
        if hasattr(pred, "vpy_value"):
            continue
        shape_fact(c, b.shape,
                   lambda *i, b=b, f=b.f, pred=pred: pred(f, kterm, *i))
    if cut.rng is not None:
        c.note_idx(kterm)
        c.ghost.setdefault("loop_k", {})[cut.key] = kterm
        if c.choose("loop"):
            cut.mode = "iter"
            c.assume(kterm < cut.rng.hi)
            if not c.feasible(z3.BoolVal(True)):
                raise PathEnd("no iteration")
        else:
            cut.mode = "exit"
            c.assume(kterm >= cut.rng.hi)
            if not c.feasible(z3.BoolVal(True)):
                raise PathEnd("no exit")
            # the loop variable keeps its last value
            if c.decide(cut.rng.hi > cut.rng.lo):
                for n in names:
                    if n == cut.target:
                        new[n] = Sym(cut.rng.hi - 1)
                    elif n not in new:
                        new[n] = Opaque(n)
            else:
                for n in list(new):
                    new[n] = env[n]
    else:
        cut.mode = "iter"
    for hook in c.ghost.get("loop_hooks", []):
        hook("head", cut, full)
    cut.full = full
    return new


def _functional(value):
    """invariant fixing the whole content: b[i] == value(k, i)"""
    def pred(f, k, *i):
        return f(tuple(i)) == value(k, *i)
    pred.vpy_value = value
    return pred


def _arr_goals(c, b, pred, k, last=None):
    """pred at an arbitrary index; small constant dimensions one by one; with
    last given, at that index and at every other one separately"""
    small = [i for i, d in enumerate(b.shape)
             if isinstance(d, int) and d <= 16]
    if len(b.shape) < 2 or not small:
        small = []
    rest = [c.fresh_idx(dim_term(d)) for i, d in enumerate(b.shape)
            if i not in small]
    for cs in itertools.product(*[range(b.shape[i]) for i in small]):
        it, ci = iter(rest), iter(cs)
        ks = tuple(z3.IntVal(next(ci)) if i in small else next(it)
                   for i in range(len(b.shape)))
        with quiet():
            if last is not None and len(rest) == 1 and \
                    hasattr(pred, "vpy_value"):
                at = tuple(last if t is rest[0] else t for t in ks)
                n = dim_term(b.shape[[i for i in range(len(b.shape))
                                      if i not in small][0]])
                yield z3.Implies(z3.And(last >= 0, last < n),
                                 pred(b.f, k, *at))
                yield z3.Implies(rest[0] != last, pred(b.f, k, *ks))
                continue
            g = pred(b.f, k, *ks)
        yield g


def _gave_up(c, cid):
    """a contract invariant lost to a solver limit leaves the unit open,
    unless it is an alternative to another one ("or ...")"""
    from . import solve
    if cid[1].startswith("or "):
        return
    if solve.UNKNOWN[0]:
        c.persist["gave_up"] = str(cid[1])


def _arr_holds(c, b, pred, k, last=None):
    n0 = len(c.pc)
    n1 = len(c.idx)
    try:
        return all(c.provable(g, 3000) for g in _arr_goals(c, b, pred, k,
                                                        last))
    finally:
        del c.pc[n0:]
        for t in c.idx[n1:]:
            c.idx_ids.discard(t.get_id())
        del c.idx[n1:]


def _cont_sig(v):
    if isinstance(v, dict):
        return [(k, id(x)) for k, x in v.items()]
    return [id(x) for x in v] if isinstance(v, list) else len(v)


def back_edge(cut, env):
    c = ctx()
    st = loop_state(c, cut.key)
    changed = False
    for n, v in cut.same.items():
        if env.get(n) is not v:
            st["rebound"].add(n)
            changed = True
    for b, f in cut.heap0:
        if b.f is not f and b.name_id not in st["bufs"]:
            st["bufs"].add(b.name_id)
            changed = True
    for p, (o, a, v) in cut.attr0.items():
        if o.__dict__.get(a) is not v and p not in st["attrs"]:
            st["attrs"].add(p)
            changed = True
    for n, (v, sig) in cut.cont0.items():
        if _cont_sig(v) != sig and not c.ghost.get(("container", n)):
            if type(v) is list and n not in st["lists"] and cut.rng is not \
                    None and env.get(n) is v and \
                    _cont_sig(v)[:len(sig)] == sig:
                inc = list.__len__(v) - len(sig)
                del v[len(sig):]
                st["lists"][n] = inc
                changed = True
                continue
            raise Unsupported(f"loop mutates container {n}")
    for n, l in cut.lists.items():
        if env.get(n) is not l or not c.provable(
                l.n == l.n0 + st["lists"][n], 1500):
            raise Unsupported(f"loop grows list {n} irregularly")
    kn = z3.simplify(cut.k + 1) if cut.rng is not None else None
    for cid, fn in cut.live:
        try:
            ok = c.provable(fn(env, kn), 1500)
        except (Unsupported, KeyError):
            ok = False
        if not ok:
            st["dead"].add(cid)
            changed = True
    for cid, b, pred in cut.arr_live:
        if not _arr_holds(c, b, pred, kn, cut.k):
            st["dead"].add(cid)
            _gave_up(c, cid)
            changed = True
    if changed:
        raise Restart(cut.key)
    for cid, b, pred in cut.arr_live:
        n0 = len(c.pc)
        for g in _arr_goals(c, b, pred, kn, cut.k):
            c.oblige(f"loop invariant {cid[1]}", g, kind="invariant")
        del c.pc[n0:]
    st["kept"] = sorted(cid for cid, _ in cut.live)
    for hook in c.ghost.get("loop_hooks", []):
        hook("back", cut, env)
