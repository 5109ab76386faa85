"""Checkpoints and restart."""
import z3
from vpy import terms as T, npshim
from vpy.contracts import Stub
from vpy.engine import Sym, dim_term
from vpy.unit import Unit
from props.optloop import Loop, MOD, is_ckpt

PROP = "P13"


def save(c, steps=False, **k):
    """every checkpoint is named after its iteration and holds the design
    densities that iteration produced; the last iteration of every call is
    saved"""
    L = Loop(c, checks=("ckpt",), **k)
    L.start()
    if steps:
        L.resume()
        L.o.optimize_steps(c.int("steps", 1))
    else:
        L.o.optimize()
    c.post("the checkpoint hook is reached", z3.BoolVal(
        L.broke is False or bool(L.saved)))
    c.reach("end")


def load(c, latest, **k):
    """a restart continues right after the chosen checkpoint (the newest one
    when none is chosen) with its design densities, everything else solid,
    after loading the recorded histories; a checkpointed field comes back
    exactly"""
    L = Loop(c, checks=("frame",), **k)
    o, M = L.o, L.M
    L.restarting(latest)
    at, saved, asked = L.at, L.loaded, L.asked
    s = saved.snap()
    o._ensure_state_initialized()
    c.post("the chosen checkpoint is loaded", z3.BoolVal(
        len(asked) == 1 and is_ckpt(asked[0], at, L.cfg.dst_path)))
    c.post("histories are loaded", z3.BoolVal(L.log == ["import"]))
    c.post("continues after the checkpoint",
           T.t_eq(T.lift(o._iter_next), at.t + 1))
    c.post("runs to the configured total",
           T.t_eq(T.lift(o._iter_end), T.lift(L.maxit) + 1))
    L.invariant("restored")
    idx = L.design.snap()
    r = L.rho.snap()
    c.forall("design densities come back", saved,
             lambda i, v: r((idx((i,)),)) == v)
    # a field as P11 describes it, saved and restored, comes back unchanged
    old = c.array("old", L.N)
    f = old.snap()
    c.fact(lambda i: z3.Implies(z3.Not(L.mD(i)), f((i,)) == 1), (L.N.t,))
    c.fact(lambda i: s((i,)) == f((idx((i,)),)), (L.d.t,))
    c.forall("checkpointed field comes back exactly", L.rho,
             lambda i, v: v == f((i,)))
    c.reach("end")


def mk(fn, *a, **k):
    def u(c):
        fn(c, *a, **k)
    u.__doc__ = fn.__doc__
    return u


UNITS = [
    Unit(PROP, "save_run", mk(save)),
    Unit(PROP, "save_steps", mk(save, steps=True)),
    Unit(PROP, "save_converging", mk(save, check_convergence=True)),
    Unit(PROP, "load_chosen", mk(load, False)),
    Unit(PROP, "load_latest", mk(load, True)),
    Unit(PROP, "load_dirichlet_design", mk(load, False,
                                           design_dirichlet=True)),
]


def r_restart(rt):
    """interrupted runs resumed from their checkpoints"""
    import copy
    import os
    import numpy as np
    from rt import driver
    driver.quiet()
    for q in range(rt.n(8, 80)):
        g = rt.np_rng
        kind = "oc" if g.random() < .5 else "logmoc"
        tsk = driver.domain_ok(rt, g)
        n1, n2 = int(g.integers(1, 5)), int(g.integers(1, 4))
        full = bool(g.integers(2))      # first run finished or interrupted
        rec = int(g.choice([1, 2, 20]))
        dd = bool(g.integers(2))
        with rt.case("restart", seconds=90, kind=kind, first=n1, more=n2,
                     finished=full, record_times=rec, design_dirichlet=dd,
                     design=tsk.design_elements):
            d = driver.scratch()
            par = dict(record_times=rec, design_dirichlet=dd)
            o = driver.optimizer(rt, copy.deepcopy(tsk), d, kind,
                                 max_iters=n1 if full else n1 + n2, **par)
            fields = {}

            def note(it, x, *a, o=o, **k):
                r = o._state.rho.copy()
                r[o.tsk.design_elements] = x
                fields[int(it)] = r
            driver.spy(o, post=note)
            driver.run(o, n1)
            names = sorted(os.listdir(f"{d}/data"))
            rt.ok("last iteration saved", f"{n1:06d}-rho.npz" in names,
                  f"{names}")
            for f in names:
                k = int(f[:6])
                with np.load(f"{d}/data/{f}") as z:
                    v = z["rho_design_elements"]
                rt.close("checkpoint content", v,
                         fields[k][o.tsk.design_elements])
            pick = int(g.choice([int(f[:6]) for f in names]))
            latest = g.random() < .5
            hist = {n: len(h.data) for n, h in o.recorder.histories.items()}
            o2 = driver.optimizer(
                rt, copy.deepcopy(tsk), d, kind, max_iters=n1 + n2,
                restart=True, restart_from=-1 if latest else pick, **par)
            at = n1 if latest else pick
            seen = []
            first = []

            def before(it, x, *a, o2=o2, **k):
                seen.append(int(it))
                if len(seen) == 1:
                    first.append(o2._state.rho.copy())
            driver.spy(o2, pre=before)
            driver.run(o2)
            rt.ok("continues after the checkpoint",
                  seen == list(range(at + 1, n1 + n2 + 1)), f"{at}: {seen}")
            rt.close("starts from the checkpointed field", first[0],
                     fields[at], 1e-12, 1e-12)
            if full:
                for n, h in o2.recorder.histories.items():
                    rt.ok("histories continue", len(h.data) == hist.get(
                        n, 0) + (len(seen) if h.data else 0),
                        f"{n}: {len(h.data)} entries")


def r_latest(rt):
    """the newest checkpoint among arbitrary folder contents"""
    import os
    from rt import driver
    find = rt.get("sktopt.core.misc", "find_latest_iter_file")
    for q in range(rt.n(300, 3000)):
        g = rt.np_rng
        d = driver.scratch()
        its = sorted({int(v) for v in g.integers(
            1, int(g.choice([9, 200, 10 ** 6])), int(g.integers(0, 6)))})
        other = [n for n in ("histories.npz", "000007-rho.txt", "rho.npz",
                             "12-rho.npz", "a000099-rho.npz",
                             "000999-rho.npz.bak", "999998-rho.npz.tmp",
                             "000123-rho_npz")
                 if g.random() < .3]
        names = [f"{k:06d}-rho.npz" for k in its] + other
        for n in names:
            open(f"{d}/{n}", "w").close()
        with rt.case("latest", names=names):
            k, p = find(d)
            if its:
                rt.ok("highest iteration", k == its[-1], f"{k}")
                rt.ok("its file", p is not None and os.path.samefile(
                    p, f"{d}/{its[-1]:06d}-rho.npz"), f"{p}")
            else:
                rt.ok("none found", p is None, f"{k} {p}")


RUNTIME = [("restart", r_restart, 300), ("latest", r_latest, 100)]
