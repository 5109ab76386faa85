"""Material interpolation: endpoints, range, monotone, penalising."""
import z3
from vpy import terms as T
from vpy.unit import Unit

PROP = "P06"
COMP = "sktopt.fea.composer"


def _inputs(c, pmin):
    n = c.int("n", 1)
    rho = c.array("rho", n, 0, 1)
    Emin = c.real("Emin", lo_open=0)
    E0 = c.real("E0")
    c.assume(E0.t > Emin.t)
    p = c.real("p", pmin)
    return n, rho, E0, Emin, p


def _mk(fname, pmin):
    def u(c):
        """E(0)=Emin, E(1)=E0, Emin<=E<=E0, increasing, below the linear
        mixture (penalisation), argument untouched"""
        C = c.load(COMP)
        n, rho, E0, Emin, p = _inputs(c, pmin)
        rf = z3.Function("rho", T.I, T.R)
        E = getattr(C, fname)(rho, E0, Emin, p)
        lo, hi = Emin.t, E0.t
        c.forall("in [Emin,E0]", E, lambda i, v: z3.And(v >= lo, v <= hi))
        c.forall("void has Emin", E, lambda i, v: z3.Implies(
            rf(i) == 0, v == lo))
        c.forall("solid has E0", E, lambda i, v: z3.Implies(
            rf(i) == 1, v == hi))
        c.forall("below linear mixture", E, lambda i, v:
                 v <= lo + (hi - lo) * rf(i))
        i, j = c.fresh_idx(n.t), c.fresh_idx(n.t)
        c.post("strictly increasing", z3.Implies(
            rf(i) < rf(j), c.val(E, i) < c.val(E, j)))
        c.forall("argument untouched", rho, lambda i, v: v == rf(i))
        c.reach("end")
    return u


def u_select(c):
    """the configured name selects the matching stiffness and sensitivity"""
    D = c.load("sktopt.core.optimizers.common_density")
    C = c.load(COMP)
    V = c.load("sktopt.core.derivatives")
    for name, E, dE in (("SIMP", C.simp_interpolation, V.dC_drho_simp),
                        ("RAMP", C.ramp_interpolation, V.dC_drho_ramp)):
        # whatever else is configured
        pc, vc = c.real(f"{name}_p", 0), c.real(f"{name}_v", 0)
        S = c.load("sktopt.tools.scheduler").SchedulerConfig
        cfg = D.DensityMethodConfig(
            interpolation=name, p=S.constant(target_value=pc),
            vol_frac=S.constant(target_value=vc))
        f, g = D.interpolation_funcs(cfg)
        n = c.int("n", 1)
        rho = c.array("rho", n, "0.000001", 1)
        U = c.array("U", n, 0)
        E0, Em, p = c.real("E0"), c.real("Emin", lo_open=0), c.real("p", 1)
        c.assume(E0.t > Em.t)
        a, b = f(rho, E0, Em, p), E(rho, E0, Em, p)
        c.forall(f"{name} stiffness", a, lambda i, v: v == c.val(b, i))
        a2, b2 = g(rho, U, E0, Em, p), dE(rho, U, E0, Em, p)
        c.forall(f"{name} sensitivity", a2, lambda i, v: v == c.val(b2, i))


UNITS = [Unit(PROP, "simp", _mk("simp_interpolation", 1)),
         Unit(PROP, "ramp", _mk("ramp_interpolation", 0)),
         Unit(PROP, "select", u_select, welldef="ignore")]


def r_float(rt):
    import numpy as np
    fs = [("simp", rt.get(COMP, "simp_interpolation"), 1.0),
          ("ramp", rt.get(COMP, "ramp_interpolation"), 0.0)]
    for k in range(rt.n(150, 3000)):
        rng = rt.np_rng
        n = int(rng.integers(2, 40))
        rho = np.sort(rng.random(n))
        rho[0], rho[-1] = 0.0, 1.0
        E0 = float(10 ** rng.uniform(-3, 12))
        Emin = E0 * float(10 ** rng.uniform(-9, -1))
        for nm, f, pmin in fs:
            p = pmin + float(rng.choice([0, 1, 2, rng.uniform(0, 6)]))
            with rt.case(nm, E0=E0, Emin=Emin, p=p, rho=rho):
                r0 = rho.copy()
                E = np.asarray(f(rho, E0, Emin, p))
                rt.ok("argument untouched", np.array_equal(r0, rho))
                rt.ok("range", np.all(E >= Emin * (1 - 1e-9)) and
                      np.all(E <= E0 * (1 + 1e-9)))
                rt.close("void", E[0], Emin, 1e-6)
                rt.close("solid", E[-1], E0, 1e-9)
                rt.ok("monotone", np.all(np.diff(E) >= -1e-9 * E0))
                w = rho ** p if nm == "simp" else rho / (1 + p * (1 - rho))
                rt.close("formula", E, Emin + (E0 - Emin) * w, 1e-9)

    D = "sktopt.core.optimizers.common_density"
    Cfg, sel = rt.get(D, "DensityMethodConfig"), rt.get(
        D, "interpolation_funcs")
    S = rt.get("sktopt.tools.scheduler", "SchedulerConfig")
    for k in range(rt.n(40, 400)):
        p = [1.0, 1.5, 2.0, 3.0, 0.5][k % 5]
        for nm, f, _ in fs:
            sched = S.constant(target_value=p) if k % 2 else S.step(
                "p", 1.0, p, int(rt.np_rng.integers(2, 5)), 20)
            with rt.case("select", name=nm, p=p, ramped=not k % 2):
                got = sel(Cfg(interpolation=nm.upper(), p=sched))[0]
                rho = rt.np_rng.random(7)
                rt.close("the configured interpolation", got(
                    rho, 2.0, 0.1, p), f(rho, 2.0, 0.1, p), 1e-12)


RUNTIME = [("float", r_float, 150)]
