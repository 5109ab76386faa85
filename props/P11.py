"""Only design densities change; everything else stays solid."""
import z3
from vpy import terms as T
from vpy.unit import Unit
from props.optloop import Loop, MOD

PROP = "P11"


def run(c, steps=None, resume=False, restart=None, **k):
    """boundary, fixed and non-design elements are solid before, during and
    after every iteration; the design stays inside its bounds"""
    L = Loop(c, checks=("frame",), **k)
    if restart:
        L.restarting(restart == "latest")
        L.o._ensure_state_initialized()
        L.invariant("restored")
    else:
        L.start()
    if resume:
        L.resume()
    if steps:
        L.o.optimize_steps(c.int("steps", 1))
    else:
        L.o.optimize()
    L.invariant("afterwards")
    c.reach("end")


def mk(**k):
    def u(c):
        run(c, **k)
    u.__doc__ = run.__doc__
    return u


UNITS = [
    Unit(PROP, "run", mk()),
    Unit(PROP, "run_dirichlet_design", mk(design_dirichlet=True)),
    Unit(PROP, "steps", mk(steps=True, resume=True)),
    Unit(PROP, "steps_dirichlet_design",
         mk(steps=True, resume=True, design_dirichlet=True)),
    Unit(PROP, "no_loaded_elements",
         mk(design_dirichlet=True, loads=False)),
    Unit(PROP, "restart", mk(restart="chosen")),
    Unit(PROP, "restart_latest", mk(restart="latest")),
    Unit(PROP, "restart_dirichlet_design",
         mk(restart="chosen", design_dirichlet=True)),
    Unit(PROP, "restart_steps", mk(restart="chosen", steps=True)),
    Unit(PROP, "converging", mk(check_convergence=True)),
]


def r_runs(rt):
    """whole runs on small problems"""
    import copy
    import numpy as np
    from rt import driver
    driver.quiet()
    for q in range(rt.n(12, 120)):
        g = rt.np_rng
        kind = "oc" if g.random() < .6 else "logmoc"
        dd = bool(g.integers(2))
        # fixed elements beyond the clamped and loaded ones: non-design
        # elements of the domain
        tsk = driver.domain_ok(rt, g, subset=None if q % 2 else True)
        d = driver.scratch()
        its = int(g.integers(1, 5))
        rt_ = int(g.choice([1, 2, 20]))
        cuts = [None] if g.random() < .5 else [
            int(v) for v in g.integers(1, 3, 4)] + [None]
        again = int(g.integers(3))      # restart: none, chosen, latest
        base = copy.deepcopy(tsk)
        with rt.case("run", seconds=60, kind=kind, design_dirichlet=dd,
                     max_iters=its, record_times=rt_, cuts=cuts, again=again,
                     design=tsk.design_elements):
            o = driver.optimizer(rt, tsk, d, kind, design_dirichlet=dd,
                                 max_iters=its, record_times=rt_)
            D = np.zeros(tsk.mesh.nelements, bool)
            D[np.asarray(tsk.design_elements)] = True
            neu = np.asarray(tsk.neumann_elements)
            rt.ok("loaded elements are not designed", not D[neu].any())
            if not dd:
                rt.ok("clamped elements are not designed",
                      not D[np.asarray(tsk.dirichlet_elements)].any())
            lo, hi = o.cfg.rho_min, o.cfg.rho_max

            def good(when):
                r = o._state.rho
                rt.ok(f"{when}: solid outside the design",
                      np.all(r[~D] == 1.0), f"{r[~D]}")
                rt.ok(f"{when}: design inside the bounds",
                      np.all((r[D] >= lo - 1e-12) & (r[D] <= hi + 1e-12)))
            def watch():
                driver.spy(o, pre=lambda *a, **k: good("before update"),
                           post=lambda *a, **k: good("after update"))
            watch()
            for n in cuts:
                driver.run(o, n)
                good("afterwards")
            if again:
                o = driver.optimizer(
                    rt, base, d, kind, design_dirichlet=dd, max_iters=its + 2,
                    record_times=rt_, restart=True,
                    restart_from=its if again == 1 else -1)
                watch()
                driver.run(o)
                good("after a restart")


RUNTIME = [("runs", r_runs, 240)]
