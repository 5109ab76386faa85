"""Heaviside projection: range, monotonicity, endpoints, two implementations
equal, argument untouched."""
import z3
from vpy import terms as T
from vpy.unit import Unit

PROP = "P04"
MOD = "sktopt.core.projection"


def _inputs(c):
    n = c.int("n", 1)
    rho = c.array("rho", n, 0, 1)
    beta = c.real("beta", lo_open=0)
    eta = c.real("eta", 0, 1)
    return n, rho, beta, eta


def _forms(c, P, rho, beta, eta, n):
    yield "plain", P.heaviside_projection(rho, beta, eta)
    yield "inplace", P.heaviside_projection_inplace(rho, beta, eta)
    out = c.array("out", n)
    r = P.heaviside_projection_inplace(rho, beta, eta, out=out)
    c.post("out= is returned", z3.BoolVal(r is out))
    yield "out", out


def u_range(c):
    """0 <= y <= 1, y(0) = 0, y(1) >= 1 - 1e-8 away from beta ~ 0"""
    P = c.load(MOD)
    n, rho, beta, eta = _inputs(c)
    den = T.TANH(beta.t * eta.t) + T.TANH(beta.t * (1 - eta.t))
    for nm, y in _forms(c, P, rho, beta, eta, n):
        c.forall(f"{nm} in [0,1]", y, lambda i, v: z3.And(v >= 0, v <= 1))
        c.forall(f"{nm} void stays void", y,
                 lambda i, v: z3.Implies(c.val(rho, i) == 0, v == 0))
        c.forall(f"{nm} solid stays solid", y, lambda i, v: z3.Implies(
            z3.And(c.val(rho, i) == 1, den >= z3.RealVal("0.001")),
            v >= z3.RealVal("0.99999999")))
    c.reach("end")


def u_monotone(c):
    """rho_i < rho_j  ->  y_i < y_j ; equal inputs give equal outputs"""
    P = c.load(MOD)
    n, rho, beta, eta = _inputs(c)
    for nm, y in _forms(c, P, rho, beta, eta, n):
        i, j = c.fresh_idx(n.t), c.fresh_idx(n.t)
        a, b = c.val(rho, i), c.val(rho, j)
        ya, yb = c.val(y, i), c.val(y, j)
        c.post(f"{nm} strictly increasing", z3.Implies(a < b, ya < yb))
        c.post(f"{nm} pointwise function", z3.Implies(a == b, ya == yb))


def u_same(c):
    """the in-place forms compute the plain form; the argument is not
    modified; out may alias the argument"""
    P = c.load(MOD)
    n, rho, beta, eta = _inputs(c)
    rf = z3.Function("rho", T.I, T.R)
    ref = P.heaviside_projection(rho, beta, eta)
    c.forall("argument untouched (plain)", rho, lambda i, v: v == rf(i))
    y = P.heaviside_projection_inplace(rho, beta, eta)
    c.forall("inplace == plain", y, lambda i, v: v == c.val(ref, i))
    c.forall("argument untouched (inplace)", rho, lambda i, v: v == rf(i))
    out = c.array("out", n)
    P.heaviside_projection_inplace(rho, beta, eta, out=out)
    c.forall("out == plain", out, lambda i, v: v == c.val(ref, i))
    c.forall("argument untouched (out)", rho, lambda i, v: v == rf(i))
    P.heaviside_projection_inplace(rho, beta, eta, out=rho)
    c.forall("aliased out == plain", rho, lambda i, v: v == c.val(ref, i))


def u_formula(c):
    """the projection is the normalised tanh threshold (independent spec)"""
    P = c.load(MOD)
    n, rho, beta, eta = _inputs(c)
    b, e = beta.t, eta.t
    den = T.TANH(b * e) + T.TANH(b * (1 - e))
    for nm, y in _forms(c, P, rho, beta, eta, n):
        c.forall(f"{nm} within 1e-12/den of the formula", y,
                 lambda i, v: z3.And(
                     v * den <= T.TANH(b * e) +
                     T.TANH(b * (c.val(rho, i) - e)),
                     v * (den + z3.RealVal("1/1000000000000")) >=
                     T.TANH(b * e) + T.TANH(b * (c.val(rho, i) - e))))


UNITS = [Unit(PROP, "range", u_range), Unit(PROP, "monotone", u_monotone),
         Unit(PROP, "same", u_same), Unit(PROP, "formula", u_formula)]


def r_float(rt):
    import math
    import numpy as np
    H = rt.get(MOD, "heaviside_projection")
    Hi = rt.get(MOD, "heaviside_projection_inplace")
    for k in range(rt.n(300, 6000)):
        rng = rt.np_rng
        n = int(rng.integers(1, 40))
        rho = rng.random(n)
        rho[rng.random(n) < 0.2] = 0.0
        rho[rng.random(n) < 0.2] = 1.0
        beta = float(10 ** rng.uniform(-2, 3.5))
        eta = float(rng.choice([0.0, 1.0, 0.5, rng.random()]))
        with rt.case("projection", beta=beta, eta=eta, rho=rho):
            r0 = rho.copy()
            y = H(rho, beta, eta)
            y2 = Hi(rho, beta, eta)
            out = np.full(n, np.nan)
            y3 = Hi(rho, beta, eta, out=out)
            rt.ok("argument untouched", np.array_equal(rho, r0))
            rt.ok("returns out", y3 is out)
            rt.ok("range", np.all(y >= -1e-12) and np.all(y <= 1 + 1e-12))
            rt.close("inplace == plain", y2, y, 1e-10, 1e-12)
            rt.close("out == plain", out, y, 1e-10, 1e-12)
            o = np.argsort(rho, kind="stable")
            rt.ok("monotone", np.all(np.diff(y[o]) >= -1e-12))
            rt.ok("void", np.all(np.abs(y[rho == 0.0]) < 1e-9))
            rt.ok("solid", np.all(np.abs(y[rho == 1.0] - 1) < 1e-6))
            den = math.tanh(beta * eta) + math.tanh(beta * (1 - eta))
            ref = [(math.tanh(beta * eta) + math.tanh(beta * (x - eta)))
                   / den for x in rho]
            rt.close("formula", y, ref, 1e-7, 1e-9)


RUNTIME = [("float", r_float, 120)]
