"""Compile /repo's current source for symbolic execution.

What the extraction does to the source (everything else is the code that runs):
  * `numpy`, `math`, `numba` resolve to the shims below (numba decorators are
    the identity; prange is range) and float/int/bool/max/min/abs/len/range/
    sum/round/print/zip/enumerate/any/all are rebound to versions that accept symbolic values;
  * every `while` loop and `for` loop gets a loop-head hook so that loops with
    symbolic trip counts are cut at an inductive invariant (concrete loops run
    unchanged);
  * a list comprehension with one plain generator runs its element expression
    as a lambda over the iterable (same order, same values), so that lists of
    symbolic length can be mapped;
  * a call-recording statement is inserted at the start of every function.
Nothing is dropped."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types
import z3

from . import terms as T
from .terms import Unsupported
from .engine import (Sym, SymArray, Ctx, ctx, PathEnd, Restart, dim_term,
                     elementwise, INF)
from . import npshim
from . import loops
from . import sparse

REPO = os.environ.get("VPY_REPO", "/repo")
PKG = os.path.join(REPO, "scikit-topt")


# -- builtins ---------------------------------------------------------------
class _NumMeta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, Sym):
            k = o.kind
            return k in cls._kinds
        return isinstance(o, cls._real)

    def __subclasscheck__(cls, o):
        return issubclass(getattr(o, "_real", o), cls._real)

    def __call__(cls, x=0, *a, **k):
        if isinstance(x, SymArray) and x.ndim == 0:
            x = Sym(x.at())
        if hasattr(x, "vpy_num"):
            return x.vpy_num(cls._kind)
        if isinstance(x, Sym):
            t = x.t
            if cls._kind == "real":
                return Sym(t if isinstance(t, T.Dual)
                           else T.to_real(T.to_arith(t)))
            if cls._kind == "int":
                return Sym(T.t_trunc(t))
            return Sym(T.t_bool(t))
        return cls._real(x, *a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, n):
        return getattr(cls._real, n)


def _num(name, real, kind, kinds):
    return _NumMeta(name, (), {"_real": real, "_kind": kind,
                               "_kinds": kinds, "__module__": "builtins"})


# numpy float64 is a float; numpy integers are not ints
float_ = _num("float", float, "real", ("real",))
int_ = _num("int", int, "int", ("int", "bool"))
bool_ = _num("bool", bool, "bool", ("bool",))


def _symish(xs):
    return builtins.any(isinstance(x, (Sym, SymArray)) for x in xs)


def max_(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not _symish(xs) or k:
        return builtins.max(*a, **k)
    if builtins.any(isinstance(x, SymArray) for x in xs):
        raise ValueError("truth value of an array is ambiguous")
    r = xs[0]
    for x in xs[1:]:
        if isinstance(x, float) and x in (INF, -INF):
            r = x if x == INF else r
            continue
        if isinstance(r, float) and r in (INF, -INF):
            r = r if r == INF else x
            continue
        r = Sym(T.t_max(T.lift(r), T.lift(x)))
    return r


def min_(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not _symish(xs) or k:
        return builtins.min(*a, **k)
    if builtins.any(isinstance(x, SymArray) for x in xs):
        raise ValueError("truth value of an array is ambiguous")
    r = xs[0]
    for x in xs[1:]:
        if isinstance(x, float) and x in (INF, -INF):
            r = x if x == -INF else r
            continue
        if isinstance(r, float) and r in (INF, -INF):
            r = r if r == -INF else x
            continue
        r = Sym(T.t_min(T.lift(r), T.lift(x)))
    return r


def len_(x):
    if isinstance(x, loops.SymList):
        return Sym(x.n)
    if loops.is_seq(x):
        return Sym(loops.seq_len(x))
    if isinstance(x, SymArray):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        d = x.dims[0]
        return d if isinstance(d, int) else Sym(d)
    return builtins.len(x)


def sum_(xs, start=0):
    if isinstance(xs, SymArray):
        return npshim.np_sum(xs)
    r = start
    for x in xs:
        r = r + x
    return r


def range_(*a):
    if _symish(a):
        if builtins.len(a) == 1:
            lo, hi = 0, a[0]
        elif builtins.len(a) == 2:
            lo, hi = a
        else:
            raise Unsupported("range with a symbolic step")
        lo, hi = T.val(T.lift(lo)), T.val(T.lift(hi))
        cl, ch = T.const_val(z3.simplify(lo)), T.const_val(z3.simplify(hi))
        if cl is not None and ch is not None:
            return builtins.range(int(cl), int(ch))
        return loops.SymRange(lo, hi)
    return builtins.range(*a)


def _all_seq(xs, want):
    """all/any over a list of symbolic length"""
    c = ctx()
    n = loops.seq_len(xs)

    def at(k):
        t = T.t_bool(T.lift(xs.at(k)))
        return t if want else z3.Not(t)
    b, w = c.fresh("all", z3.BoolSort()), c.fresh("w", T.I)
    c.note_idx(w)
    c.fact(lambda k: z3.Implies(b, at(k)), (n,))
    c.assume(z3.Or(b, z3.And(w >= 0, w < n, z3.Not(at(w)))))
    return Sym(b if want else z3.Not(b))


def any_(xs):
    if loops.is_seq(xs):
        return _all_seq(xs, False)
    if isinstance(xs, (list, tuple)) and builtins.any(
            isinstance(x, Sym) for x in xs):
        return Sym(z3.Or(*[T.t_bool(T.lift(x)) for x in xs]))
    return builtins.any(xs)


def all_(xs):
    if loops.is_seq(xs):
        return _all_seq(xs, True)
    if isinstance(xs, (list, tuple)) and builtins.any(
            isinstance(x, Sym) for x in xs):
        return Sym(z3.And(*[T.t_bool(T.lift(x)) for x in xs]))
    return builtins.all(xs)


def abs_(x):
    return abs(x)


def round_(x, n=None):
    if isinstance(x, Sym):
        raise Unsupported("round")
    return builtins.round(x, n) if n is not None else builtins.round(x)


def enumerate_(x, start=0):
    if isinstance(x, (SymArray, loops.SymRange)) and not (
            isinstance(x, SymArray) and isinstance(x.dims[0], int)):
        if isinstance(x, loops.SymRange):
            raise Unsupported("enumerate over a symbolic range")
        return loops.Enum(x, start)
    if loops.is_seq(x):
        if loops.is_seq(x) and not isinstance(start, int):
            raise Unsupported("enumerate start")
        return loops.Seq(loops.seq_len(x),
                         lambda k: (Sym(k + start if start else k), x.at(k)))
    return builtins.enumerate(x, start)


def zip_(*xs, **k):
    if builtins.any(loops.is_seq(x) for x in xs):
        return loops.zip_seq(xs)
    return builtins.zip(*xs, **k)


def print_(*a, **k):
    return None


class MathShim:
    def __init__(self):
        import math
        self._m = math

    def _f(self, name, op):
        real = getattr(self._m, name)

        def g(x, *a):
            if isinstance(x, SymArray):
                raise TypeError("only length-1 arrays can be converted")
            if isinstance(x, Sym):
                return Sym(op(x.t))
            return real(x, *a)
        return g

    def __getattr__(self, name):
        ops = {"exp": T.t_exp, "log": T.t_log, "tanh": T.t_tanh,
               "cosh": T.t_cosh, "sqrt": T.t_sqrt, "sin": T.t_sin,
               "cos": T.t_cos, "fabs": T.t_abs, "floor": T.t_floor,
               "ceil": lambda t: T.t_neg(T.t_floor(T.t_neg(t))),
               "trunc": T.t_trunc,
               "isnan": lambda t: z3.BoolVal(False),
               "isinf": lambda t: z3.BoolVal(False),
               "isfinite": lambda t: z3.BoolVal(True)}
        if name in ops:
            return self._f(name, ops[name])
        if name == "isclose":
            def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
                if not _symish((a, b)):
                    return self._m.isclose(a, b, rel_tol=rel_tol,
                                           abs_tol=abs_tol)
                d = abs(a - b)
                m = max_(abs(a), abs(b))
                return d <= max_(rel_tol * m, abs_tol)
            return isclose
        if name == "pow":
            return lambda a, b: a ** b
        real = getattr(self._m, name)
        if callable(real):
            def g(*a):
                if _symish(a):
                    raise Unsupported(f"math.{name}")
                return real(*a)
            return g
        return real


def _identity_decorator(*a, **k):
    if len(a) == 1 and not k and callable(a[0]) and isinstance(
            a[0], types.FunctionType):
        return a[0]
    return lambda f: f


class NumbaShim(types.ModuleType):
    def __init__(self):
        super().__init__("numba")

    def __getattr__(self, name):
        if name in ("njit", "jit", "vectorize", "guvectorize"):
            return _identity_decorator
        if name == "prange":
            return range_
        import numba
        return getattr(numba, name)


_numba = NumbaShim()
_math = MathShim()


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        root = name.split(".")[0]
        if name == "numpy":
            return npshim.np_shim
        if name == "math":
            return _math
        if root == "scipy":
            m = builtins.__import__(name, globals, locals, ("x",), 0)
            if not fromlist:
                return sparse.root_proxy()
            if name in sparse.MODULES:
                return sparse.Proxy(m, sparse.MODULES[name])
            return m
        if root == "numba":
            return _numba
        if root == "numpy" and name != "numpy.typing":
            if fromlist:
                return getattr(npshim.np_shim, name.split(".", 1)[1])
            return npshim.np_shim
    return builtins.__import__(name, globals, locals, fromlist, level)


SYM_BUILTINS = dict(vars(builtins))
SYM_BUILTINS.update({
    "__import__": _import, "float": float_, "int": int_, "bool": bool_,
    "max": max_, "min": min_, "len": len_, "sum": sum_, "range": range_,
    "abs": abs_, "round": round_, "print": print_, "enumerate": enumerate_,
    "any": any_, "all": all_, "zip": zip_,
})


# -- AST instrumentation ------------------------------------------------------
class _Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


class _All:
    def __contains__(self, x):
        return True


def _read_names(fn):
    """names the function may read"""
    got = set()
    for x in ast.walk(fn):
        if isinstance(x, (ast.Global, ast.Nonlocal)) or (
                isinstance(x, ast.Name) and x.id in ("locals", "vars",
                                                     "eval", "exec")):
            return _All()
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            got.add(x.id)
        elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
            got.add(x.target.id)
        elif isinstance(x, ast.Delete):
            got |= {t.id for t in x.targets if isinstance(t, ast.Name)}
    return got


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.count = []
        self.reads = []
        self.uid = 0

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.count.append(0)
        self.reads.append(_read_names(n))
        n.body = [self.visit(s) for s in n.body]
        flat = []
        for s in n.body:
            flat += s if isinstance(s, list) else [s]
        n.body = flat
        self.count.pop()
        self.reads.pop()
        qual = ".".join(self.stack)
        self.stack.pop()
        hook = ast.parse(f"__vpy__.enter({self.mod + '.' + qual!r})").body
        i = 1 if (n.body and isinstance(n.body[0], ast.Expr) and isinstance(
            n.body[0].value, ast.Constant) and isinstance(
                n.body[0].value.value, str)) else 0
        n.body[i:i] = hook
        return n

    def visit_Call(self, n):
        """list(x) -> __vpy__.list_of(list, x)"""
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "list" and len(
                n.args) == 1 and not n.keywords and not isinstance(
                n.args[0], ast.Starred) and self.count:
            r = ast.Call(ast.Attribute(ast.Name("__vpy__", ast.Load()),
                                       "list_of", ast.Load()),
                         [n.func, n.args[0]], [])
            return ast.fix_missing_locations(ast.copy_location(r, n))
        return n

    def visit_ListComp(self, n):
        """[e for x in it] -> __vpy__.listcomp(lambda x: e, it)"""
        self.generic_visit(n)
        g = n.generators[0]
        if len(n.generators) > 1 or g.ifs or g.is_async or not self.count \
                or any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield))
                       for x in ast.walk(n)):
            return n

        def args(names):
            return ast.arguments(posonlyargs=[], args=[
                ast.arg(arg=x) for x in names], kwonlyargs=[],
                kw_defaults=[], defaults=[])
        if isinstance(g.target, ast.Name):
            fn = ast.Lambda(args([g.target.id]), n.elt)
        elif isinstance(g.target, ast.Tuple) and all(
                isinstance(e, ast.Name) for e in g.target.elts):
            fn = ast.Lambda(args(["__vpy_t__"]), ast.Call(
                ast.Lambda(args([e.id for e in g.target.elts]), n.elt),
                [ast.Starred(ast.Name("__vpy_t__", ast.Load()),
                             ast.Load())], []))
        else:
            return n
        r = ast.Call(ast.Attribute(ast.Name("__vpy__", ast.Load()),
                                   "listcomp", ast.Load()), [fn, g.iter], [])
        return ast.fix_missing_locations(ast.copy_location(r, n))

    def _key(self):
        k = self.count[-1]
        self.count[-1] += 1
        return f"{self.mod}.{'.'.join(self.stack)}#{k}"

    def _generic_loop(self, n, key, header, testcheck):
        names = _Assigned()
        for s in n.body:
            names.visit(s)
        if isinstance(n, ast.For):
            names.visit(n.target)
        if self.reads:      # a local that is never read carries nothing
            names.names = [x for x in names.names if x in self.reads[-1]
                           or not isinstance(n, ast.For)]
        # names only updated in place keep the array they are bound to
        aug = {x.target.id for b in n.body for x in ast.walk(b)
               if isinstance(x, ast.AugAssign)
               and isinstance(x.target, ast.Name)}
        plain = _Assigned()
        plain.visit_AugAssign = lambda x: None
        for s in n.body:
            plain.visit(s)
        if isinstance(n, ast.For):
            plain.visit(n.target)
        aug = tuple(sorted(aug - set(plain.names)))
        self.uid += 1
        it, v = f"__vpy_it{self.uid}__", f"__vpy_v{self.uid}__"
        pre = ast.parse(
            f"{it} = {header}\n"
            f"{v} = __vpy__.loop_head({it}, {tuple(names.names)!r}, "
            f"locals(), {aug!r})"
        ).body
        grown = sorted({
            x.func.value.id for b in n.body for x in ast.walk(b)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
            and x.func.attr in ("append", "extend")
            and isinstance(x.func.value, ast.Name)} - set(names.names))
        for nm in list(names.names) + grown:
            pre += ast.parse(f"if {nm!r} in {v}: {nm} = {v}[{nm!r}]").body
        return it, pre

    def visit_For(self, n):
        if not self.count:
            return self.generic_visit(n)
        key = self._key()
        self.generic_visit(n)
        if n.orelse:
            return n
        tgt = n.target.id if isinstance(n.target, ast.Name) else None
        it, pre = self._generic_loop(n, key, f"__vpy__.for_iter({key!r}, 0, {tgt!r})",
                                     None)
        # splice the real iterable expression
        pre[0].value.args[1] = n.iter
        n.iter = ast.Name(it, ast.Load())
        return [ast.copy_location(ast.fix_missing_locations(p), n)
                for p in pre] + [n]

    def visit_While(self, n):
        if not self.count:
            return self.generic_visit(n)
        key = self._key()
        self.generic_visit(n)
        if n.orelse:
            return n
        it, pre = self._generic_loop(n, key, f"__vpy__.while_iter({key!r})",
                                     None)
        test = ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])
        if isinstance(n.test, ast.Constant) and n.test.value:
            body = n.body
        else:
            body = [test] + n.body
        f = ast.For(ast.Name(f"__vpy_once{self.uid}__", ast.Store()),
                    ast.Name(it, ast.Load()), body, [])
        return [ast.copy_location(ast.fix_missing_locations(p), n)
                for p in pre] + [ast.copy_location(f, n)]


def compile_source(src, modname, filename):
    tree = ast.parse(src, filename)
    tree = Instrument(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


class SymLoader(importlib.abc.Loader):
    def __init__(self, name, path):
        self.name, self.path = name, path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path) as fh:
            src = fh.read()
        g = module.__dict__
        g["__builtins__"] = SYM_BUILTINS
        g["__vpy__"] = loops.HOOKS
        exec(compile_source(src, self.name, self.path), g)


class SymFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "sktopt" and not name.startswith("sktopt."):
            return None
        base = os.path.join(PKG, *name.split("."))
        if os.path.isdir(base) and os.path.exists(
                os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.machinery.ModuleSpec(
                name, SymLoader(name, p), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
            spec.has_location = True
            return spec
        p = base + ".py"
        if os.path.exists(p):
            spec = importlib.machinery.ModuleSpec(
                name, SymLoader(name, p), origin=p)
            spec.has_location = True
            return spec
        return None


_installed = False


def install():
    global _installed
    if _installed:
        return
    for m in list(sys.modules):
        if m == "sktopt" or m.startswith("sktopt."):
            raise RuntimeError("sktopt already imported natively")
    sys.meta_path.insert(0, SymFinder())
    _installed = True


def load(name):
    install()
    os.environ.setdefault("MPLBACKEND", "Agg")
    import logging
    m = importlib.import_module(name)
    logging.disable(logging.CRITICAL)
    return m
