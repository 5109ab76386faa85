"""Iteration accounting: single run and chunked runs perform the same
iterations."""
import z3
from vpy import terms as T
from vpy.unit import Unit
from props.optloop import Loop, MOD

PROP = "P12"


def run(c, steps=False, resume=False, restart=None, **k):
    """iterations run consecutively from where the last call stopped, one
    update each, exactly as many as asked; the run is complete exactly at the
    last iteration or on convergence and writes its results once"""
    L = Loop(c, checks=("count",), **k)
    if restart:
        start = L.restarting(restart == "latest")
    else:
        L.start()
        start = L.next
    if resume:
        start = L.resume().t
    if steps:
        n = c.int("steps", 1)
        L.o.optimize_steps(n)
        L.accounting(start, n.t)
    else:
        L.o.optimize()
        L.accounting(start, None)
    c.reach("end")


def idle(c):
    """a completed run, or a request for no iterations, changes nothing"""
    L = Loop(c, checks=("count",))
    L.start()
    k = L.resume()
    r = L.rho.snap()
    which = c.choose("completed")
    if which:
        L.o._completed = True
        if c.choose("all"):
            L.o.optimize()
        else:
            L.o.optimize_steps(c.int("steps", 1))
    else:
        n = c.int("none")
        c.assume(n.t <= 0)
        L.o.optimize_steps(n)
    c.post("no iteration runs", z3.BoolVal(L.first is None))
    c.post("nothing is written", z3.BoolVal(not L.log))
    c.post("counter unchanged", T.t_eq(T.lift(L.o._iter_next), k.t))
    c.forall("design unchanged", L.rho, lambda i, v: v == r((i,)))
    c.reach("end")


def mk(**k):
    def u(c):
        run(c, **k)
    u.__doc__ = run.__doc__
    return u


UNITS = [
    Unit(PROP, "run", mk()),
    Unit(PROP, "steps", mk(steps=True, resume=True)),
    Unit(PROP, "rest", mk(resume=True)),
    Unit(PROP, "converging", mk(check_convergence=True)),
    Unit(PROP, "converging_steps", mk(check_convergence=True, steps=True,
                                      resume=True)),
    Unit(PROP, "restart", mk(restart="chosen")),
    Unit(PROP, "restart_latest", mk(restart="latest")),
    Unit(PROP, "restart_steps", mk(restart="chosen", steps=True)),
    Unit(PROP, "idle", idle),
]


def r_chunks(rt):
    """single run against chunked runs of the same problem"""
    import copy
    import numpy as np
    from rt import driver
    driver.quiet()
    for q in range(rt.n(8, 80)):
        g = rt.np_rng
        kind = "oc" if g.random() < .6 else "logmoc"
        tsk = driver.domain_ok(rt, g)
        its = int(g.integers(2, 7))
        rec = int(g.choice([1, 3, 20]))
        conv = bool(g.integers(2))
        tol = float(g.choice([1e-12, .05, 2.0]))
        cuts, tot = [], 0
        while tot < its:
            n = int(g.integers(0, 4))
            cuts.append(n)
            tot += n
        if g.random() < .4:
            cuts = cuts[:1] + [None]
        S = rt.get("sktopt.tools", "SchedulerConfig")
        par = dict(design_dirichlet=bool(g.integers(2)), max_iters=its,
                   record_times=rec, check_convergence=conv,
                   tol_rho_change=tol, tol_kkt_residual=1e9,
                   p=S.step(init_value=1.0, target_value=3.0,
                            num_steps=3),
                   beta=S.step(init_value=1.0, target_value=4.0,
                            num_steps=2),
                   filter_radius=S.step(init_value=1.6, target_value=1.3,
                            num_steps=2))
        with rt.case("chunks", seconds=90, kind=kind, cuts=cuts, iters=its,
                     record_times=rec, check=conv, tol=tol,
                     design=tsk.design_elements):
            res = []
            for plan in ([None], cuts):
                o = driver.optimizer(rt, copy.deepcopy(tsk),
                                     driver.scratch(), kind, **par)
                seen, ends = [], []
                dens = []
                driver.spy(o, post=lambda it, x, *a, **k: (
                    seen.append(int(it)), dens.append(x.copy())))
                real = o.recorder.export_histories

                def fin(*a, real=real, ends=ends, **k):
                    ends.append(1)
                    return real(*a, **k)
                o.recorder.export_histories = fin
                for n in plan:
                    n0, done0 = len(seen), bool(ends)
                    driver.run(o, n)
                    stop = bool(ends)
                    new = len(seen) - n0
                    if done0 or n == 0:
                        rt.ok("idle call runs nothing", new == 0,
                              f"{new} iterations")
                    elif not stop:
                        rt.ok("as many iterations as asked",
                              n is not None and new == n,
                              f"asked {n}, ran {new}")
                    elif n is not None:
                        rt.ok("not more than asked", new <= n)
                rt.ok("consecutive iterations",
                      seen == list(range(1, len(seen) + 1)), f"{seen}")
                rt.ok("written exactly once", len(ends) == 1, f"{ends}")
                if not conv or tol < 1e-9:
                    rt.ok("all iterations run", len(seen) == its, f"{seen}")
                elif len(seen) < its:
                    r = o.recorder.histories["rho_change_max"].data
                    rt.ok("early stop only when settled", r[-1] < tol)
                    rt.ok("stops at once when settled",
                          not any(v < tol for v in r[:-1]), f"{r}")
                res.append((seen, dens, o))
            (s1, d1, o1), (s2, d2, o2) = res
            rt.ok("same iterations", s1 == s2, f"{s1} {s2}")
            for k, (a, b) in enumerate(zip(d1, d2)):
                rt.close("same densities after every iteration", b, a,
                         1e-6, 1e-7)
            for n, h in o1.recorder.histories.items():
                rt.ok("same histories", n in o2.recorder.histories and len(
                    h.data) == len(o2.recorder.histories[n].data), n)


RUNTIME = [("chunks", r_chunks, 300)]
