"""Proof units: a contract plus the code it is checked against."""
import itertools
import os
import sys
import time
import traceback
import z3

from . import terms as T
from .terms import Unsupported, Dual
from . import engine
from .engine import (Ctx, Sym, SymArray, PathEnd, PathLimit, Restart,
                     lift_bool, dim_term, quiet)
from . import solve, loader, npshim


class Unit:
    def __init__(self, prop, name, fn, welldef="oblige", max_paths=256,
                 budget=20000, time_limit=240, loop_cands=None, replay=None,
                 native_while=False, doc="", allow_exc=(), expect_exc=None):
        self.prop, self.name, self.fn = prop, name, fn
        self.welldef = welldef
        self.max_paths = max_paths
        self.budget = budget
        self.time_limit = time_limit
        self.loop_cands = loop_cands or {}
        self.replay = replay
        self.native_while = native_while
        self.doc = doc or (fn.__doc__ or "").strip()
        self.allow_exc = allow_exc

    def loop_candidates(self, key):
        for k, v in self.loop_cands.items():
            if k in key:
                return v
        return []


class API(Ctx):
    """what a contract sees"""

    # -- symbolic inputs -------------------------------------------------
    def real(self, name, lo=None, hi=None, lo_open=None, hi_open=None):
        v = z3.Real(name)
        self.inputs[name] = ("scalar", v)
        s = Sym(v)
        self._bounds(v, lo, hi, lo_open, hi_open)
        return s

    def _bounds(self, v, lo, hi, lo_open, hi_open):
        if lo is not None:
            self.assume(v >= T.lift(lo))
        if hi is not None:
            self.assume(v <= T.lift(hi))
        if lo_open is not None:
            self.assume(v > T.lift(lo_open))
        if hi_open is not None:
            self.assume(v < T.lift(hi_open))

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.inputs[name] = ("scalar", v)
        self._bounds(v, lo, hi, None, None)
        return Sym(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs[name] = ("scalar", v)
        return Sym(v)

    def array(self, name, n, lo=None, hi=None, kind="real", pred=None,
              dual=False, lo_open=None):
        """array of n elements (n: Sym/int or tuple), bounded pointwise"""
        shape = n if isinstance(n, tuple) else (n,)
        shape = tuple(engine.norm_dim(d) for d in shape)
        sort = {"real": T.R, "int": T.I, "bool": z3.BoolSort()}[kind]
        fn = z3.Function(name, *([T.I] * len(shape) + [sort]))
        if dual:
            a = SymArray(shape, lambda i: Dual(fn(*i), z3.RealVal(1)),
                         kind, name)
        else:
            a = SymArray(shape, lambda i: fn(*i), kind, name)
        ns = tuple(dim_term(d) for d in shape)

        def fact(g):
            engine.shape_fact(self, shape, g)
        if lo is not None:
            fact(lambda *i: fn(*i) >= T.lift(lo))
        if lo_open is not None:
            fact(lambda *i: fn(*i) > T.lift(lo_open))
        if hi is not None:
            fact(lambda *i: fn(*i) <= T.lift(hi))
        if pred is not None:
            fact(lambda *i: pred(*i, fn(*i)))
        self.inputs[name] = ("array", fn, len(shape), ns)
        return a

    def index_array(self, name, N, n=None, mem=None, sorted_=True):
        a = npshim.make_index_array(name, N, mem=mem, n=n, sorted_=sorted_)
        return a

    def mem(self, a):
        return npshim.index_info(a).mem

    def load(self, mod):
        return loader.load(mod)

    def patch(self, obj, name, value):
        """replace a module-level name for this path only"""
        self.ghost.setdefault("patches", []).append(
            (obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    # -- obligations -------------------------------------------------------
    def post(self, name, goal):
        self.oblige(name, goal)

    def lemma(self, name, goal, using=None):
        """an obligation that later ones may use; with `using`, from these
        established formulas alone"""
        goal = engine.lift_bool(goal)
        if using is None:
            self.oblige(name, goal, kind="lemma")
        else:
            using = [engine.lift_bool(u) for u in using]
            known = [z3.simplify(p) for p in self.pc]
            ids = {p.get_id() for p in known}
            for u in using:
                u = z3.simplify(u)
                if not z3.is_true(u) and u.get_id() not in ids:
                    raise Unsupported(f"{name}: premise not established")
            self.obls.append(engine.Obligation(
                name, using, goal, [], list(self.idx),
                list(self.decisions), "lemma", dict(self.inputs)))
        self.assume(goal)

    def forall(self, name, arr, pred, bound=None):
        """oblige pred(idx..., value) at an arbitrary index of arr"""
        if not isinstance(arr, SymArray):
            a2 = engine.as_array(arr)
            if a2 is None:
                raise Unsupported(f"{name}: expected an array, got "
                                  f"{type(arr).__name__}")
            arr = a2
        n0 = len(self.pc)
        if all(isinstance(d, int) for d in arr.dims) and arr.ndim:
            import numpy as np
            f = arr.snap()
            for ix in np.ndindex(*arr.dims):
                t = tuple(z3.IntVal(i) for i in ix)
                with quiet():
                    v = f(t)
                self.oblige(f"{name}{list(ix)}", pred(*t, v))
            return
        ks = tuple(self.fresh_idx(dim_term(d)) for d in arr.dims)
        f = arr.snap()
        with quiet():
            v = f(ks)
        self.oblige(name, pred(*ks, v))
        del self.pc[n0:]

    def assume_at(self, arr, k):
        return arr.at(k)

    def val(self, x, *idx):
        if isinstance(x, SymArray):
            with quiet():
                return x.at(*idx)
        return T.lift(x)


class UnitResult:
    def __init__(self, unit):
        self.unit = unit.name
        self.prop = unit.prop
        self.status = None            # proved | refuted | undecided
        self.reason = ""
        self.obligations = 0
        self.discharged = 0
        self.backends = {}
        self.solver_s = 0.0
        self.paths = 0
        self.functions = []
        self.failed = []              # [{name, kind, model, path}]
        self.reached = 0
        self.loop_invariants = {}
        self.wall = 0.0

    def todict(self):
        return dict(self.__dict__)


def explore(unit):
    """all paths of the unit -> list of (ctx) ; raises Unsupported"""
    persist = {}
    t0 = time.time()
    while True:
        try:
            return persist, _explore_once(unit, persist, t0)
        except Restart:
            persist["restarts"] = persist.get("restarts", 0) + 1
            if persist["restarts"] > 200 or \
                    time.time() - t0 > unit.time_limit:
                raise Unsupported("loop invariant search did not converge")


def _explore_once(unit, persist, t0):
    work = [[]]
    done = []
    while work:
        prefix = work.pop()
        if len(done) >= unit.max_paths:
            raise Unsupported(f"more than {unit.max_paths} paths")
        if time.time() - t0 > unit.time_limit:
            raise Unsupported("time limit during path exploration")
        c = API(unit, prefix, persist)
        c.welldef_mode = unit.welldef
        c.deadline = t0 + unit.time_limit
        if unit.native_while:
            c.ghost["native_while"] = True
        Ctx.cur = c
        saved_env = dict(os.environ)
        try:
            unit.fn(c)
            c.outcome = "ok"
        except PathEnd as e:
            c.outcome = f"end: {e}"
        except (Unsupported, PathLimit):
            raise
        except Restart:
            raise
        except Exception as e:
            if isinstance(e, unit.allow_exc) if unit.allow_exc else False:
                c.outcome = f"allowed {type(e).__name__}"
            else:
                tb = traceback.extract_tb(e.__traceback__)
                inrepo = any("/sktopt/" in f.filename for f in tb)
                last = tb[-1] if tb else None
                if not inrepo or _engine_error(e, tb):
                    raise Unsupported(
                        f"{type(e).__name__}: {e} at "
                        f"{last.filename.rsplit('/', 1)[-1]}:{last.lineno}"
                    ) from e
                where = [f for f in tb if "/sktopt/" in f.filename][-1]
                c.outcome = f"raised {type(e).__name__}"
                c.oblige(f"no exception ({type(e).__name__}: "
                         f"{str(e)[:80]}) at {where.name}:{where.lineno}",
                         z3.BoolVal(False), kind="exception")
        finally:
            Ctx.cur = None
            for o, n, v in reversed(c.ghost.get("patches", [])):
                setattr(o, n, v)
            if dict(os.environ) != saved_env:
                os.environ.clear()
                os.environ.update(saved_env)
        done.append(c)
        for n in c.alts:
            work.append(c.decisions[:n] + [False])
    return done


def _engine_error(e, tb):
    """exceptions raised by the engine for constructs it does not model are
    not program exceptions"""
    last = tb[-1].filename
    if isinstance(e, (ZeroDivisionError, ValueError, IndexError)) and \
            "/vpy/" in last:
        # deliberate models of the program exception
        return False
    if "/vpy/" in last:
        return True
    if isinstance(e, (TypeError, AttributeError, RecursionError,
                      NotImplementedError)) and "/sktopt/" not in last:
        return True
    if isinstance(e, AttributeError):
        m = type(getattr(e, "obj", None)).__module__ or ""
        if m.startswith(("props", "vpy")) or getattr(
                type(e.obj), "vpy_contract", False):
            return True
    if isinstance(e, TypeError) and "<locals>" in str(e):
        return True
    return isinstance(e, (TypeError, AttributeError)) and (
        "Sym" in str(e) or "SymArray" in str(e) or "NP" in str(e)
        or "vpy" in str(e))


def model_inputs(o, model):
    """concrete values of the declared inputs in a counter-model"""
    out = {}
    if model is None:
        return out

    def num(t):
        v = model.eval(t, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(12).as_fraction())
        return None
    for name, d in o.inputs.items():
        try:
            if d[0] == "scalar":
                out[name] = num(d[1])
            else:
                _, fn, nd, ns = d
                vals = {}
                lens = [num(n) for n in ns]
                if nd == 1:
                    for t in o.idx:
                        i = num(t)
                        if i is None or i < 0 or (
                                lens[0] is not None and i >= lens[0]):
                            continue
                        vals[i] = num(fn(z3.IntVal(i)))
                out[name] = {"len": lens, "at": vals}
        except Exception:
            out[name] = None
    return out


def run_unit(unit):
    res = UnitResult(unit)
    t0 = time.time()
    solve.STATS.update({"z3": 0, "z3-nlsat": 0, "cvc5": 0, "simplify": 0,
                        "time": 0.0})
    try:
        persist, paths = explore(unit)
    except (Unsupported, PathLimit) as e:
        res.status = "undecided"
        res.reason = f"{type(e).__name__}: {e}"
        if os.environ.get("VPY_DEBUG"):
            traceback.print_exc()
        res.wall = time.time() - t0
        return res
    except Exception as e:
        res.status = "undecided"
        res.reason = f"engine error {type(e).__name__}: {e}"
        if os.environ.get("VPY_DEBUG"):
            traceback.print_exc()
        res.wall = time.time() - t0
        return res
    res.paths = len(paths)
    res.functions = sorted(persist.get("functions", ()))
    res.loop_invariants = {k: v["kept"] for k, v in
                           persist.get("loops", {}).items()}
    seen = {}
    unknown = []
    normal = 0
    for c in paths:
        if c.outcome == "ok":
            normal += 1
        Ctx.cur = c          # index terms noted while instantiating
        for o in c.obls:
            key = (o.goal.get_id(), tuple(h.get_id() for h in o.hyps),
                   o.kind == "reach", o.name if z3.is_true(o.goal)
                   or z3.is_false(o.goal) else "")
            if key in seen:
                continue
            seen[key] = o
            if time.time() - t0 > unit.time_limit * 1.5:
                unknown.append(o.name + " (time)")
                if o.kind != "reach":
                    res.obligations += 1
                continue
            if o.kind == "reach":
                inst = []
                ex = list(o.hyps)
                if c.ghost.get("quantified"):
                    ex += solve.quantify(c, o.facts)
                r, _ = solve._check(ex, 3000)
                if r != z3.unsat:
                    res.reached += 1
                continue
            res.obligations += 1
            r = solve.discharge(o, unit.budget)
            if r.status == "proved":
                res.discharged += 1
                res.backends[r.backend] = res.backends.get(r.backend, 0) + 1
            elif r.status == "refuted":
                res.failed.append({
                    "obligation": o.name, "kind": o.kind,
                    "backend": r.backend,
                    "goal": str(o.goal)[:400],
                    "model": model_inputs(o, r.model),
                    "model_text": str(r.model)[:1500] if r.model is not None
                    else ""})
            else:
                unknown.append(o.name)
        Ctx.cur = None
    res.solver_s = solve.STATS["time"]
    res.wall = time.time() - t0
    posts = sum(1 for o in seen.values() if o.kind in ("post", "exception"))
    if res.failed and persist.get("gave_up"):
        res.status = "undecided"
        res.reason = "loop invariant not decided: " + persist["gave_up"]
    elif res.failed:
        res.status = "refuted"
    elif unknown:
        res.status = "undecided"
        res.reason = "solver gave no answer for: " + "; ".join(unknown[:5])
    elif posts == 0 or res.obligations == 0:
        res.status = "undecided"
        res.reason = "vacuous: no postcondition obligation was generated"
    elif normal == 0:
        res.status = "undecided"
        res.reason = "vacuous: no path completes"
    elif any(o.kind == "reach" for o in seen.values()) and not res.reached:
        res.status = "undecided"
        res.reason = "vacuous: contract precondition unreachable"
    else:
        res.status = "proved"
    return res
