"""The design gradient is the chain rule through penalization, projection and
filter, averaged over load cases."""
import z3
from vpy import terms as T
from vpy.contracts import Stub
from vpy.unit import Unit
from props.optloop import Loop, MOD

PROP = "P25"


def run(c, resume=False, **k):
    """in every iteration the update rule is handed the mean over the load
    cases of filter-gradient(sensitivity * projection derivative), everything
    evaluated at the densities, state fields and schedule values of this
    iteration"""
    L = Loop(c, checks=("chain",), **k)
    L.start()
    if resume:
        L.resume()
        L.o.optimize_steps(c.int("steps", 1))
    else:
        L.o.optimize()
    c.post("an iteration updates the design", z3.BoolVal(
        L.first is None or L.broke is False or L.updates == 1))
    c.reach("end")


def mk(**k):
    def u(c):
        run(c, **k)
    u.__doc__ = run.__doc__
    return u


def pairing(c):
    """the stiffness interpolation and the sensitivity used together belong
    to the same model: sensitivity * E == -2 * energy * dE/drho, with dE/drho
    proved to be the derivative of that interpolation (P07)"""
    M = c.load(MOD)
    D = c.load("sktopt.core.derivatives")
    name = "SIMP" if c.choose("simp") else "RAMP"
    f, g = M.interpolation_funcs(Stub(interpolation=name))
    n = c.int("n", 1)
    rho = c.array("rho", n, 0.01, 1)
    en = c.array("energy", n, 0)
    E0 = c.real("E0", lo_open=1)
    Em = c.real("Emin", lo_open=0)
    c.assume(Em.t < E0.t)
    c.assume(Em.t >= T.lift(1e-6))
    p = c.real("p", 1)
    E = f(rho, E0, Em, p)
    s = g(rho, en, E0, Em, p)
    d = D.dE_drho_simp if name == "SIMP" else D.dE_drho_ramp
    dE = d(rho, E0, Em, p)
    Ef, df, ef = E.snap(), dE.snap(), en.snap()
    c.forall("sensitivity belongs to the interpolation in use", s,
             lambda i, v: v * Ef((i,)) == -2 * ef((i,)) * df((i,)))
    c.reach("end")


def heat(c):
    """the heat model's own sensitivities: one column per load case, from the
    energies of that load case with the derivative of the interpolation in
    use"""
    H = c.load("sktopt.fea.solver_heat")
    D = c.load("sktopt.core.derivatives")
    CO = c.load("sktopt.fea.composer")
    name = "simp" if c.choose("simp") else "ramp"
    f = getattr(CO, name + "_interpolation")
    n, loads = c.int("n", 1), c.int("loads", 1)
    rho = c.array("rho", n, 0.01, 1)
    en = c.array("energy", (n, loads), 0)
    k, mn = c.real("k", lo_open=1), c.real("E_min_coeff", lo_open=0)
    c.assume(mn.t < 1)
    c.assume(mn.t >= T.lift(1e-6))
    p = c.real("p", 1)
    u, basis = object(), object()
    seen = []

    def energies(b, r, T_all, k0, kmin, p_, elem_func=None):
        seen.append((b, r, T_all, k0, kmin, p_, elem_func))
        return en
    energies.vpy_contract = True
    c.patch(H, "heat_energy_skfem_multi", energies)
    c.ghost["map_loops"] = True
    c.patch(H, "composer", CO)
    task = Stub(k=k, basis=basis, objective="compliance",
                robin_coefficient=None)
    fem = H.FEM_SimpLinearHeatConduction(
        task, mn, density_interpolation=f, solver_option="spsolve")
    g = fem.compliance_sensitivity_multi_load(rho, p, u)
    b, r, Ta, k0, km, pp, ef = seen[0]
    c.post("energies of this problem", z3.BoolVal(
        b is basis and r is rho and Ta is u and ef is f))
    c.post("solid conductivity", T.lift(k0) == k.t)
    c.post("void conductivity", T.lift(km) == k.t * mn.t)
    c.post("exponent", T.lift(pp) == p.t)
    K = f(rho, k, k * mn, p)
    d = (D.dE_drho_simp if name == "simp" else D.dE_drho_ramp)(
        rho, k, k * mn, p)
    e, i = c.fresh_idx(n, "e"), c.fresh_idx(loads, "i")
    c.post("sensitivity belongs to the interpolation in use",
           c.val(g, e, i) * c.val(K, e) ==
           -2 * c.val(en, e, i) * c.val(d, e))
    c.reach("end")


UNITS = [
    Unit(PROP, "any_loads", mk()),
    Unit(PROP, "resumed", mk(resume=True)),
    Unit(PROP, "one_load", mk(tasks=1)),
    Unit(PROP, "two_loads", mk(tasks=2)),
    Unit(PROP, "custom_sensitivity", mk(custom=True)),
    Unit(PROP, "sensitivity_filter", mk(sensitivity_filter=True)),
    Unit(PROP, "pairing", pairing),
    Unit(PROP, "heat", heat),
]


def r_fd(rt):
    """the gradient handed to the update against finite differences of the
    mean objective through filter, projection, penalization and solve"""
    import copy
    import numpy as np
    from rt import driver, opt
    driver.quiet()
    S = rt.get("sktopt.tools", "SchedulerConfig")
    for q in range(rt.n(10, 100)):
        g = rt.np_rng
        tsk = driver.domain_ok(rt, g)
        ip = "SIMP"
        kind = "oc" if g.random() < .7 else "logmoc"
        if kind == "logmoc":
            ip = str(g.choice(["SIMP", "RAMP"]))
        beta = float(g.choice([.5, 2.0, 6.0]))
        eta = float(g.choice([.5, .35]))
        p = float(g.choice([1.0, 2.0, 3.0]))
        fs = bool(g.random() < .4)
        with rt.case("fd", seconds=90, kind=kind, interpolation=ip, beta=beta,
                     beta_eta=eta, p=p, ramped_load=fs, tasks=tsk.n_tasks,
                     design=tsk.design_elements):
            par = dict(max_iters=2, beta_eta=eta, interpolation=ip,
                       p=S.constant(target_value=p),
                       beta=S.constant(target_value=beta))
            if fs:
                par["neumann_scale"] = S.step_to_one(num_steps=2)
            o = driver.optimizer(rt, tsk, driver.scratch(), kind, **par)
            got = []

            def upd(it, x, proj, dC, u, *a, o=o, **k):
                got.append((int(it), o._state.rho.copy(), dC.copy()))
            driver.spy(o, pre=upd)
            driver.run(o)
            D = np.asarray(o.tsk.design_elements)
            for it, rho, dC in got:
                sc = o.schedulers.value_on_a_scheduler("neumann_scale", it)

                def obj(r):
                    x = o.filter.forward(r)
                    x = opt.heav(x, beta, eta)
                    u = np.zeros_like(o._state.u_dofs)
                    return float(np.mean(o.fem.objectives_multi_load(
                        x, p, u, force_scale=sc)))
                for e in g.choice(D, min(3, len(D)), replace=False):
                    h = 1e-4
                    a, b = rho.copy(), rho.copy()
                    a[e] += h
                    b[e] -= h
                    fd = (obj(a) - obj(b)) / (2 * h)
                    v = dC[np.where(D == e)[0][0]]
                    rt.ok("gradient equals the finite difference",
                          abs(fd - v) <= 2e-3 * max(abs(fd), abs(v)) +
                          1e-7 * np.abs(dC).max(),
                          f"iteration {it}, element {e}: {v} against {fd}")


RUNTIME = [("fd", r_fd, 300)]
