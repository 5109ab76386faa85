"""Projection derivative: the exact derivative of the projection."""
import z3
from vpy import terms as T
from vpy.unit import Unit

PROP = "P05"
MOD = "sktopt.core.projection"


def _setup(c):
    P = c.load(MOD)
    n = c.int("n", 1)
    rho_d = c.array("rho", n, 0, 1, dual=True)
    rho = c.array("rho", n, 0, 1)
    beta = c.real("beta", lo_open=0)
    eta = c.real("eta", 0, 1)
    return P, n, rho_d, rho, beta, eta


def _forms(c, P, rho, beta, eta, n):
    rf = z3.Function("rho", T.I, T.R)
    yield "plain", P.heaviside_projection_derivative(rho, beta, eta)
    yield "inplace", P.heaviside_projection_derivative_inplace(
        rho, beta, eta)
    out = c.array("out", n)
    r = P.heaviside_projection_derivative_inplace(rho, beta, eta, out=out)
    c.post("out= is returned", z3.BoolVal(r is out))
    yield "out", out
    c.forall("argument untouched", rho, lambda i, v: v == rf(i))


def u_plain(c):
    """d = d/drho of the plain projection (differentiated as code)"""
    P, n, rd, rho, beta, eta = _setup(c)
    y = P.heaviside_projection(rd, beta, eta)
    for nm, d in _forms(c, P, rho, beta, eta, n):
        c.forall(f"{nm} == d(plain projection)", d,
                 lambda i, v: v == c.val(y, i).d)
    c.reach("end")


def u_inplace(c):
    P, n, rd, rho, beta, eta = _setup(c)
    y = P.heaviside_projection_inplace(rd, beta, eta)
    for nm, d in _forms(c, P, rho, beta, eta, n):
        c.forall(f"{nm} == d(inplace projection)", d,
                 lambda i, v: v == c.val(y, i).d)


def u_sign(c):
    """the derivative is positive: designs never lose sensitivity sign"""
    P, n, rd, rho, beta, eta = _setup(c)
    for nm, d in _forms(c, P, rho, beta, eta, n):
        c.forall(f"{nm} > 0", d, lambda i, v: v > 0)


UNITS = [Unit(PROP, "plain", u_plain), Unit(PROP, "inplace", u_inplace),
         Unit(PROP, "sign", u_sign)]


def r_float(rt):
    import math
    import numpy as np
    H = rt.get(MOD, "heaviside_projection")
    Hi = rt.get(MOD, "heaviside_projection_inplace")
    D = rt.get(MOD, "heaviside_projection_derivative")
    Di = rt.get(MOD, "heaviside_projection_derivative_inplace")
    for k in range(rt.n(300, 6000)):
        rng = rt.np_rng
        n = int(rng.integers(1, 30))
        rho = rng.random(n)
        rho[rng.random(n) < 0.1] = 0.0
        rho[rng.random(n) < 0.1] = 1.0
        beta = float(10 ** rng.uniform(-2, 2.5))
        eta = float(rng.choice([0.0, 1.0, 0.5, rng.random()]))
        with rt.case("derivative", beta=beta, eta=eta, rho=rho):
            r0 = rho.copy()
            d = np.asarray(D(rho, beta, eta))
            d2 = np.array(Di(rho, beta, eta))
            out = np.full(n, np.nan)
            rt.ok("returns out", Di(rho, beta, eta, out=out) is out)
            rt.ok("argument untouched", np.array_equal(rho, r0))
            rt.close("inplace == plain", d2, d, 1e-7, 1e-9 * beta)
            rt.close("out == plain", out, d, 1e-7, 1e-9 * beta)
            den = math.tanh(beta * eta) + math.tanh(beta * (1 - eta))
            ref = [beta / math.cosh(min(beta * abs(x - eta), 350)) ** 2 / den
                   for x in rho]
            rt.close("formula", d, ref, 1e-6, 1e-9 * beta)
            h = 1e-5 / max(1.0, beta)
            for nm, f in (("plain", H), ("inplace", Hi)):
                fd = (np.asarray(f(rho + h, beta, eta))
                      - np.asarray(f(rho - h, beta, eta))) / (2 * h)
                rt.close(f"central difference of {nm}", d, fd, 1e-3,
                         1e-5 * max(1.0, beta))


RUNTIME = [("float", r_float, 120)]
