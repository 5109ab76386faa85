"""Compliance sensitivities: exact derivative of the interpolation used by
the stiffness assembly, never positive, in-place forms equal."""
import z3
from vpy import terms as T
from vpy.unit import Unit

PROP = "P07"
COMP = "sktopt.fea.composer"
DER = "sktopt.core.derivatives"
LO = "0.000001"        # densities are kept above this by the update box


def _setup(c, pmin):
    C, D = c.load(COMP), c.load(DER)
    n = c.int("n", 1)
    lo = z3.RealVal("1/1000000")
    rho = c.array("rho", n)
    rd = c.array("rho", n, dual=True)
    rf = z3.Function("rho", T.I, T.R)
    c.fact(lambda i: z3.And(rf(i) >= lo, rf(i) <= 1), (n.t,))
    U = c.array("U", n, 0)
    Emin = c.real("Emin")
    c.assume(Emin.t >= z3.RealVal("1/1000000000000"))
    E0 = c.real("E0")
    c.assume(E0.t > Emin.t)
    p = c.real("p", pmin)
    return C, D, n, rho, rd, U, E0, Emin, p


def _exact(c, D, E, dC, U, nm):
    """dC = -dE/drho * 2U/E with dE/drho differentiated from the code"""
    c.forall(f"{nm} exact", dC, lambda i, v:
             v * c.val(E, i).v == -2 * c.val(U, i) * c.val(E, i).d)
    c.forall(f"{nm} <= 0", dC, lambda i, v: v <= 0)
    c.forall(f"{nm} < 0 where strained", dC, lambda i, v: z3.Implies(
        c.val(U, i) > 0, v < 0))


def u_simp(c):
    C, D, n, rho, rd, U, E0, Emin, p = _setup(c, 1)
    E = C.simp_interpolation(rd, E0, Emin, p)
    dE = D.dE_drho_simp(rho, E0, Emin, p)
    c.forall("dE simp", dE, lambda i, v: v == c.val(E, i).d)
    dC = D.dC_drho_simp(rho, U, E0, Emin, p)
    _exact(c, D, E, dC, U, "simp")
    _untouched(c, rho, U)
    c.reach("end")


def _untouched(c, rho, U):
    rf, uf = z3.Function("rho", T.I, T.R), z3.Function("U", T.I, T.R)
    c.forall("densities untouched", rho, lambda i, v: v == rf(i))
    c.forall("energies untouched", U, lambda i, v: v == uf(i))


def u_ramp(c):
    C, D, n, rho, rd, U, E0, Emin, p = _setup(c, 0)
    E = C.ramp_interpolation(rd, E0, Emin, p)
    dE = D.dE_drho_ramp(rho, E0, Emin, p)
    c.forall("dE ramp", dE, lambda i, v: v == c.val(E, i).d)
    dC = D.dC_drho_ramp(rho, U, E0, Emin, p)
    _exact(c, D, E, dC, U, "ramp")
    _untouched(c, rho, U)


def u_ramp_inplace(c):
    C, D, n, rho, rd, U, E0, Emin, p = _setup(c, 0)
    out = c.array("out", n)
    D.dE_drho_ramp_inplace(rho, out, E0, Emin, p)
    dE = D.dE_drho_ramp(rho, E0, Emin, p)
    c.forall("dE inplace == plain", out, lambda i, v: v == c.val(dE, i))
    out2 = c.array("out2", n)
    D.dC_drho_ramp_inplace(rho, U, out2, E0, Emin, p)
    dC = D.dC_drho_ramp(rho, U, E0, Emin, p)
    c.forall("dC inplace == plain", out2, lambda i, v: v == c.val(dC, i))
    _untouched(c, rho, U)


UNITS = [Unit(PROP, "simp", u_simp), Unit(PROP, "ramp", u_ramp),
         Unit(PROP, "ramp_inplace", u_ramp_inplace)]


def r_float(rt):
    import numpy as np
    C = {"simp": rt.get(COMP, "simp_interpolation"),
         "ramp": rt.get(COMP, "ramp_interpolation")}
    dE = {"simp": rt.get(DER, "dE_drho_simp"),
          "ramp": rt.get(DER, "dE_drho_ramp")}
    dC = {"simp": rt.get(DER, "dC_drho_simp"),
          "ramp": rt.get(DER, "dC_drho_ramp")}
    dEi = rt.get(DER, "dE_drho_ramp_inplace")
    dCi = rt.get(DER, "dC_drho_ramp_inplace")
    for k in range(rt.n(150, 3000)):
        rng = rt.np_rng
        n = int(rng.integers(1, 30))
        rho = rng.uniform(1e-3, 1, n)
        if k % 3 == 0:
            rho = 10. ** rng.uniform(-4, 0, n)
        rho[rng.random(n) < .15] = 1.0
        U = rng.random(n) * 10 ** rng.uniform(-6, 6)
        E0 = float(10 ** rng.uniform(-1, 11))
        Emin = E0 * float(10 ** rng.uniform(-9, -1))
        for nm in C:
            p = float(rng.choice([1, 2, 3, rng.uniform(1, 6)]))
            with rt.case(nm, E0=E0, Emin=Emin, p=p, rho=rho, U=U):
                r0, U0 = rho.copy(), U.copy()
                E = np.asarray(C[nm](rho, E0, Emin, p))
                w = (p * rho ** (p - 1) if nm == "simp"
                     else (1 + p) / (1 + p * (1 - rho)) ** 2)
                ref = (E0 - Emin) * w
                rt.close("dE exact", dE[nm](rho, E0, Emin, p), ref, 1e-7)
                g = np.asarray(dC[nm](rho, U, E0, Emin, p))
                rt.close("dC exact", g, -2 * U * ref / E, 1e-7)
                rt.ok("dC <= 0", np.all(g <= 0))
                rt.ok("arguments untouched", np.array_equal(r0, rho)
                      and np.array_equal(U, U0))
                if nm == "ramp":
                    out = np.full(n, np.nan)
                    dEi(rho, out, E0, Emin, p)
                    rt.close("dE inplace", out, ref, 1e-7)
                    out = np.full(n, np.nan)
                    dCi(rho, U, out, E0, Emin, p)
                    rt.close("dC inplace", out, -2 * U * ref / E, 1e-7)


RUNTIME = [("float", r_float, 150)]
