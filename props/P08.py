"""Optimality-criteria update: box, move limit, frame, termination."""
import z3
from vpy import terms as T
from vpy.unit import Unit
from vpy.engine import Sym, SymArray
from vpy.contracts import Stub, terminates
from vpy import npshim

PROP = "P08"
MOD = "sktopt.core.optimizers.oc"


class AnyFilter:
    """contract of the density filter used by the update: some array of the
    same length; the argument is not modified"""

    def __init__(self, c, rho_only=False):
        self.c = c
        self.n = 0

    def forward(self, x):
        self.n += 1
        return npshim.havoc_array(x.dims, "real", "filtered")


def bisect_inputs(c, any_sign=True):
    N = c.int("N", 1)
    d = c.int("nd", 1)
    c.assume(d.t <= N.t)
    design = c.index_array("design", N, d)
    rmin = c.real("rho_min", lo_open=0)
    rmax = c.real("rho_max", hi=1)
    c.assume(rmin.t < rmax.t)
    ml = c.real("move_limit", 0)
    rho_e = c.array("rho_e", d, pred=lambda i, v: z3.And(
        v >= rmin.t, v <= rmax.t))
    dC = c.array("dC", d) if any_sign else c.array("dC", d, hi=0)
    rho_full = c.array("rho_full", N)
    smin, smax = c.real("smin", lo_open=0), c.real("smax")
    c.assume(z3.And(smin.t <= 1, smax.t >= 1))
    l1, l2 = c.real("l1", lo_open=0), c.real("l2")
    c.assume(l1.t < l2.t)
    vol = c.array("vol", d, lo_open=0)
    V = c.real("V", lo_open=0)
    S = Stub(N=N, d=d, design=design, rmin=rmin, rmax=rmax, ml=ml,
             rho_e=rho_e, dC=dC, rho_full=rho_full, smin=smin, smax=smax,
             l1=l1, l2=l2, vol=vol, V=V,
             eta=c.real("eta", lo_open=0), vf=c.real("vf", 0, 1),
             beta=c.real("beta", lo_open=0), beta_eta=c.real("be", 0, 1),
             out=c.array("rho_design", d), lo=c.array("lo", d),
             hi=c.array("hi", d), sr=c.array("sr", d),
             fc=c.array("fc", N), ff=c.array("ff", N), fp=c.array("fp", N),
             tol=c.real("tol", 0), vt=c.real("vol_tol", 0),
             mi=c.int("max_iter", 0))
    return S


def call(M, S, filt):
    return M.bisection_with_physical_volume(
        S.dC, S.rho_e, S.rho_full, S.design, filt, S.rmin, S.rmax, S.ml,
        S.eta, 1e-12, S.vf, S.beta, S.beta_eta, S.sr, S.out, S.lo, S.hi,
        S.vol, S.V, S.smin, S.smax, S.fc, S.ff, S.fp, max_iter=S.mi,
        tolerance=S.tol, vol_tol=S.vt, l1=S.l1, l2=S.l2)


def u_box(c):
    """whatever the sensitivities: densities stay in the box and within the
    move limit of the previous design"""
    M = c.load(MOD)
    S = bisect_inputs(c)
    call(M, S, AnyFilter(c))
    re = z3.Function("rho_e", T.I, T.R)
    c.forall("inside [rho_min, rho_max]", S.out, lambda i, v: z3.And(
        v >= S.rmin.t, v <= S.rmax.t))
    c.forall("within the move limit", S.out, lambda i, v: z3.And(
        v - re(i) <= S.ml.t, re(i) - v <= S.ml.t))
    c.forall("update factor bounded", S.out, lambda i, v: z3.Or(
        z3.And(v >= re(i) * S.smin.t, v <= re(i) * S.smax.t),
        v == re(i) - S.ml.t, v == re(i) + S.ml.t, v == S.rmin.t,
        v == S.rmax.t))
    c.reach("end")


def u_frame(c):
    """previous densities, sensitivities and volumes are only read"""
    M = c.load(MOD)
    S = bisect_inputs(c)
    call(M, S, AnyFilter(c))
    for nm, a, so in (("rho_e", S.rho_e, T.R), ("dC", S.dC, T.R),
                      ("rho_full", S.rho_full, T.R), ("vol", S.vol, T.R)):
        f = z3.Function(nm, T.I, so)
        c.forall(f"{nm} untouched", a, lambda i, v: v == f(i))


def u_direction(c):
    """elements with a stronger sensitivity never get a smaller density
    (equal previous density), and elements that hurt are not increased"""
    M = c.load(MOD)
    S = bisect_inputs(c)
    call(M, S, AnyFilter(c))
    re, g = z3.Function("rho_e", T.I, T.R), z3.Function("dC", T.I, T.R)
    i, j = c.fresh_idx(S.d.t), c.fresh_idx(S.d.t)
    c.post("stronger sensitivity, no less material", z3.Implies(
        z3.And(re(i) == re(j), g(i) <= g(j), g(j) <= 0),
        c.val(S.out, i) >= c.val(S.out, j)))
    c.post("non-negative sensitivity never gains material", z3.Implies(
        g(i) >= 0, c.val(S.out, i) <= re(i)))


def u_terminates(c):
    """the search ends for every volume response of the filter"""
    M = c.load(MOD)
    S = bisect_inputs(c)
    terminates(c, "bisection_with_physical_volume")
    call(M, S, AnyFilter(c))
    c.post("returns", z3.BoolVal(True))


def oc_cfg(c):
    smin, smax = c.real("smin", lo_open=0), c.real("smax")
    c.assume(z3.And(smin.t <= 1, smax.t >= 1))
    l1, l2 = c.real("l1", lo_open=0), c.real("l2")
    c.assume(l1.t < l2.t)
    return dict(scaling_rate_min=smin, scaling_rate_max=smax,
                lambda_lower=l1, lambda_upper=l2,
                sensitivity_scale_floor=c.real("floor", lo_open=0))


def _update(c, percentile):
    from props import updates as U
    M = c.load(MOD)
    S = U.setup(c, M, "OC_Optimizer", AnyFilter(c), oc_cfg(c))
    U.bisection_contract(c, M)
    S.o.running_scale = c.real("running", lo_open=0)
    U.bisection_contract(c, M)
    S.o.running_scale = c.real("running", lo_open=0)
    U.update(S, percentile)
    old = z3.Function("old", T.I, T.R)
    rho = z3.Function("rho", T.I, T.R)
    c.forall("inside [rho_min, rho_max]", S.old, lambda i, v: z3.And(
        v >= S.rmin.t, v <= S.rmax.t))
    c.forall("within the move limit of the previous design", S.old,
             lambda i, v: z3.And(v - old(i) <= S.ml.t, old(i) - v <= S.ml.t))
    c.forall("full field untouched", S.rho, lambda i, v: v == rho(i))
    c.reach("end")


def u_update(c):
    """the whole update as the optimizer calls it"""
    _update(c, None)


def u_update_pct(c):
    """same with percentile scaling"""
    _update(c, 95.0)


UNITS = [Unit(PROP, "update", u_update),
         Unit(PROP, "update_pct", u_update_pct),
         Unit(PROP, "box", u_box), Unit(PROP, "frame", u_frame),
         Unit(PROP, "direction", u_direction),
         Unit(PROP, "terminates", u_terminates)]


def r_update(rt):
    import numpy as np
    from rt import oc
    B = rt.get(MOD, "bisection_with_physical_volume")
    for k in range(rt.n(250, 4000)):
        g = rt.np_rng
        q = oc.case(g)
        filt = oc.rand_filter(g, q["N"])
        with rt.case("update", seconds=20, **q):
            lam, ve, x, re, same, V = oc.run(B, q, filt)
            rt.ok("inputs untouched", same)
            if not rt.ok("finite", np.all(np.isfinite(x)), f"{x}"):
                continue
            rt.ok("box", np.all(x >= q["rho_min"] - 1e-12) and
                  np.all(x <= q["rho_max"] + 1e-12), f"{x}")
            rt.ok("move limit", np.all(np.abs(x - re) <=
                                       q["move_limit"] + 1e-12))
            rt.ok("harmful elements do not grow", np.all(
                x[q["dC"] >= 0] <= np.maximum(re[q["dC"] >= 0],
                                              q["rho_min"]) + 1e-12))
            t = 1e-9
            rt.ok("factor bounds", np.all(
                (x >= re * q["smin"] - t) | (np.abs(
                    x - re + q["move_limit"]) < t) | (x <= q["rho_max"] + t)
            ) and np.all((x <= re * q["smax"] + t) |
                         (x <= q["rho_min"] + t)))
            for i in range(len(x)):
                j = np.isclose(re, re[i], rtol=0, atol=0) & (
                    q["dC"][i] <= q["dC"]) & (q["dC"] <= 0)
                if not rt.ok("stronger sensitivity keeps at least as much",
                             np.all(x[i] >= x[j] - 1e-12)):
                    break


def oc_concrete(q):
    return dict(scaling_rate_min=q["smin"], scaling_rate_max=q["smax"],
                lambda_lower=q["l1"], lambda_upper=q["l2"],
                sensitivity_scale_floor=1e-12)


def r_full(rt):
    """consecutive whole updates on one optimizer object"""
    import numpy as np
    from rt import oc, opt
    O = rt.get(MOD, "OC_Optimizer")
    for k in range(rt.n(60, 800)):
        g = rt.np_rng
        q = oc.case(g)
        filt = oc.rand_filter(g, q["N"])
        o = opt.make(O, q, filt, oc_concrete(q))
        x = None
        pct = None if g.random() < .5 else 90.0
        with rt.case("full", seconds=20, percentile=pct, **q):
            for it in range(1, 4):
                dC = q["dC"] * g.uniform(.5, 2, q["d"])
                full0 = o._state.rho.copy()
                sc, _ = opt.oc_refs(q, o.cfg.__dict__, it, pct, dC,
                                    o.running_scale)
                old, x = opt.update(o, q, it, pct, x, dC)
                rt.close("step at the multiplier found", x, oc.step(
                    dict(q, dC=sc), old, float(o.recorder.fed["lmid"][-1])),
                    1e-7, 1e-9)
                rt.ok("box", np.all(x >= q["rho_min"] - 1e-12) and
                      np.all(x <= q["rho_max"] + 1e-12), f"{it}: {x}")
                rt.ok("move limit", np.all(np.abs(x - old) <=
                                           q["move_limit"] + 1e-12),
                      f"iteration {it}: moved {np.abs(x - old).max()}")
                rt.ok("full field untouched",
                      np.array_equal(full0, o._state.rho))
                o._state.rho[q["design"]] = x


RUNTIME = [("search", r_update, 200), ("full", r_full, 200)]
