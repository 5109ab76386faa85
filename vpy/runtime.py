"""Runtime contract checks: the contracts evaluated on the real, unmodified
code for concrete inputs.  Bounded; never counted as proved.  They confirm or
refute counter-models of failed obligations, and stand in (labelled bounded)
for functions outside the prover's reach."""
import contextlib
import hashlib
import json
import os
import random
import signal
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CaseTimeout(BaseException):
    pass


class Stop(BaseException):
    pass


class Skip(Exception):
    """target of a bounded check is not there (renamed, removed)"""


def _alarm(_s, _f):
    raise CaseTimeout()


def jsonable(x, depth=0):
    import numpy as np
    if isinstance(x, (str, int, bool, type(None))):
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, np.ndarray):
        return [jsonable(v, depth + 1) for v in x.ravel()[:64].tolist()]
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:64]]
    return repr(x)[:200]


class RT:
    MAXV = 3

    def __init__(self, prop, group, seed, tier):
        self.prop, self.group, self.seed, self.tier = prop, group, seed, tier
        self.rng = random.Random(f"{prop}/{group}/{seed}")
        self.evaluations = 0
        self.hashes = set()
        self.samples = []
        self.violations = []
        self.errors = []
        self.checks = 0
        self.cur = None

    @property
    def np_rng(self):
        import numpy as np
        return np.random.default_rng(self.rng.getrandbits(32))

    def n(self, quick, thorough=None):
        return quick if self.tier == "quick" else (thorough or 10 * quick)

    # -- one concrete case ------------------------------------------------
    @contextlib.contextmanager
    def case(self, key, seconds=60, allow=(), **inputs):
        """inputs identify the case; exceptions raised inside sktopt violate
        the contract unless listed in allow"""
        self.evaluations += 1
        desc = {"key": key, **{k: jsonable(v) for k, v in inputs.items()}}
        h = hashlib.sha1(json.dumps(desc, sort_keys=True).encode()).hexdigest()
        self.hashes.add(h)
        if len(self.samples) < 2:
            self.samples.append(desc)
        self.cur = desc
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, seconds)
        try:
            yield self
        except CaseTimeout:
            self.violate("terminates", f"no result within {seconds} s")
        except Skip as e:
            self.errors.append(f"{key}: skipped: {e}")
        except Stop:
            raise
        except allow:
            pass
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inner = tb[-1].filename
            insk = [f for f in tb if "/sktopt/" in f.filename]
            if insk and not inner.startswith(VERIF):
                f = insk[-1]
                self.violate("no exception",
                             f"{type(e).__name__}: {e} raised in {f.name} "
                             f"({os.path.basename(f.filename)}:{f.lineno})")
            else:
                self.errors.append(
                    f"{key}: {type(e).__name__}: {e} "
                    f"({os.path.basename(inner)}:{tb[-1].lineno})")
                if len(self.errors) > 20:
                    raise Stop()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            self.cur = None

    def violate(self, contract, msg, key=None, **more):
        d = self.cur or {}
        self.violations.append({
            "contract": contract, "message": str(msg)[:600],
            "key": key or d.get("key", contract), "input": dict(
                d, **{k: jsonable(v) for k, v in more.items()}),
            "group": self.group})
        if len(self.violations) >= self.MAXV * 4:
            raise Stop()

    def ok(self, contract, cond, msg="", key=None, **more):
        """evaluate one contract clause"""
        self.checks += 1
        if not bool(cond):
            self.violate(contract, msg or "clause is false", key, **more)
            return False
        return True

    def close(self, contract, a, b, rtol=1e-9, atol=1e-12, key=None, **more):
        import numpy as np
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        self.checks += 1
        if a.shape != b.shape:
            self.violate(contract, f"shapes {a.shape} {b.shape}", key)
            return False
        if not np.all(np.isfinite(a)) or not np.allclose(
                a, b, rtol=rtol, atol=atol):
            with np.errstate(all="ignore"):
                e = np.abs(a - b)
                i = int(np.nanargmax(e)) if e.size and np.any(
                    np.isfinite(e)) else 0
            self.violate(contract, f"max |difference| {np.nanmax(e):.6g} "
                         f"at flat index {i}: got "
                         f"{a.ravel()[i] if a.size else None!r} expected "
                         f"{b.ravel()[i] if b.size else None!r}", key, **more)
            return False
        return True

    def get(self, mod, name):
        import importlib
        try:
            m = importlib.import_module(mod)
            o = m
            for p in name.split("."):
                o = getattr(o, p)
            return o
        except (ImportError, AttributeError) as e:
            raise Skip(f"{mod}.{name}: {e}")

    def result(self):
        return {"group": self.group, "evaluations": self.evaluations,
                "distinct": len(self.hashes), "checks": self.checks,
                "samples": self.samples, "violations": self.violations,
                "errors": self.errors}


def run_group(prop, name, fn, seed, tier):
    rt = RT(prop, name, seed, tier)
    try:
        fn(rt)
    except Stop:
        pass
    except Skip as e:
        rt.errors.append(f"skipped: {e}")
    except CaseTimeout:
        rt.errors.append("timeout outside a case")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inner = tb[-1]
        insk = [f for f in tb if "/sktopt/" in f.filename]
        if insk and not inner.filename.startswith(VERIF):
            rt.cur = rt.cur or {"key": name}
            rt.violations.append({
                "contract": "no exception", "key": name + ":exception",
                "message": f"{type(e).__name__}: {e} raised in "
                           f"{insk[-1].name}", "input": rt.cur,
                "group": name})
        else:
            rt.errors.append(f"{type(e).__name__}: {e} "
                             f"({os.path.basename(inner.filename)}:"
                             f"{inner.lineno})")
    return rt.result()
