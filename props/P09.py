"""Volume constraint search of the OC update."""
import z3
from vpy import terms as T
from vpy.terms import Unsupported
from vpy.unit import Unit
from vpy.engine import Sym
from vpy import npshim
from props.P08 import MOD, AnyFilter, bisect_inputs, call

PROP = "P09"


def _t(x):
    return T.to_real(T.val(T.lift(x)))


def _hook(c, fn):
    def hook(when, cut, env):
        if "bisection_with_physical_volume" not in cut.key \
                or cut.rng is not None:
            return
        if when == "head":
            c.ghost["bis_head"] = dict(env)
        else:
            fn(c.ghost["bis_head"], env)
    c.ghost.setdefault("loop_hooks", []).append(hook)


def _need(env, *names):
    for n in names:
        if n not in env:
            raise Unsupported(f"local {n} not found in the search loop")
    return [_t(env[n]) for n in names]


def u_bracket(c):
    """each step keeps the half of the bracket that the volume error points
    to, and halves it; the multiplier stays inside the configured bracket"""
    M = c.load(MOD)
    S = bisect_inputs(c)

    def back(h, e):
        a0, b0, m0 = _need(h, "l1", "l2", "lmid")
        a1, b1, m1 = _need(e, "l1", "l2", "lmid")
        (ve,) = _need(e, "vol_error")
        c.oblige("too much material: the multiplier goes up", z3.Implies(
            ve > 0, z3.And(a1 == m0, b1 == b0)))
        c.oblige("too little material: the multiplier goes down", z3.Implies(
            ve < 0, z3.And(b1 == m0, a1 == a0)))
        c.oblige("bracket never empty", z3.And(a1 < b1, a1 <= m1, m1 <= b1))
        c.oblige("bracket halves", 2 * (b1 - a1) == b0 - a0)
    _hook(c, back)
    lmid, ve = call(M, S, AnyFilter(c))
    c.post("multiplier inside the configured bracket",
           z3.And(_t(lmid) >= S.l1.t, _t(lmid) <= S.l2.t))


def u_exit(c):
    """the search stops only at the volume tolerance, the bracket tolerance
    or the iteration cap"""
    M = c.load(MOD)
    S = bisect_inputs(c)
    _hook(c, lambda h, e: None)
    lmid, ve = call(M, S, AnyFilter(c))
    h = c.ghost.get("bis_head")
    if h is None:
        raise Unsupported("no search loop found")
    a, b = _need(h, "l1", "l2")
    its = [T.val(T.lift(v)) for n, v in h.items()
           if isinstance(v, Sym) and T.is_int(T.val(v.t))
           and n not in ("max_iter",)]
    c.post("stop reason", z3.Or(
        z3.And(_t(ve) < S.vt.t, -_t(ve) < S.vt.t), b - a <= S.tol.t,
        *[i >= S.mi.t for i in its]))
    c.reach("end")


def u_design(c):
    """the design left in the buffer is the update at the returned
    multiplier"""
    M = c.load(MOD)
    S = bisect_inputs(c)
    lmid, _ = call(M, S, AnyFilter(c))
    re, g = z3.Function("rho_e", T.I, T.R), z3.Function("dC", T.I, T.R)
    lam = _t(lmid) + z3.RealVal("1/1000000000000")

    def spec(i, v):
        m = z3.If(-g(i) > 0, -g(i), z3.RealVal(0))
        t = T.val(T.t_pow(m / lam, S.eta.t))
        t = z3.If(t < S.smin.t, S.smin.t, z3.If(t > S.smax.t, S.smax.t, t))
        lo = z3.If(re(i) - S.ml.t > S.rmin.t, re(i) - S.ml.t, S.rmin.t)
        hi = z3.If(re(i) + S.ml.t < S.rmax.t, re(i) + S.ml.t, S.rmax.t)
        x = re(i) * t
        return v == z3.If(x < lo, lo, z3.If(x > hi, hi, x))
    c.forall("design is the step at the returned multiplier", S.out, spec)


class RecFilter(AnyFilter):
    def __init__(self, c, S):
        super().__init__(c)
        self.S = S

    def forward(self, x):
        S, c = self.S, self.c
        rf = z3.Function("rho_full", T.I, T.R)
        i = c.fresh_idx(S.d.t)
        k = c.fresh_idx(S.N.t)
        c.oblige("filter sees the candidate design",
                 c.val(x, c.val(S.design, i)) == c.val(S.out, i))
        c.oblige("filter sees the frozen rest", z3.Implies(
            z3.Not(lift(c.mem(S.design)(k))), c.val(x, k) == rf(k)))
        self.last = super().forward(x)
        return self.last


def lift(b):
    from vpy.engine import lift_bool
    return lift_bool(b)


def u_volume(c):
    """the reported error is the physical (filtered, projected) volume of
    the design domain over its total volume minus the target"""
    M = c.load(MOD)
    P = c.load("sktopt.core.projection")
    S = bisect_inputs(c)
    F = RecFilter(c, S)
    c.ghost["sum_ext"] = True
    _, ve = call(M, S, F)
    y = P.heaviside_projection(F.last, S.beta, S.beta_eta)
    ref = npshim.np_sum(y[S.design] * S.vol) / S.V - S.vf
    c.post("error is the physical volume error", _t(ve) == _t(ref))


def u_monotone(c):
    """a larger multiplier never yields more material anywhere, so the kept
    half always contains the solution"""
    M = c.load(MOD)
    S = bisect_inputs(c)
    la, lb = c.real("la", lo_open=0), c.real("lb", lo_open=0)
    c.assume(la.t <= lb.t)
    outs = []
    for lam in (la, lb):
        S.mi, S.l1, S.l2 = 0, lam, lam
        S.out = c.array(f"out{len(outs)}", S.d)
        lm, _ = call(M, S, AnyFilter(c))
        c.post(f"single step evaluates the given multiplier {len(outs)}",
               _t(lm) == lam.t)
        outs.append(S.out)
    c.forall("more multiplier, no more material", outs[0],
             lambda i, v: v >= c.val(outs[1], i))


def wiring(c, percentile):
    """the optimizer searches over the current design with its own bounds,
    bracket, target, volumes and filter, along the gradient it was given (up
    to one positive factor), and leaves the design found"""
    from props import updates as U
    from props.P08 import oc_cfg
    M = c.load(MOD)
    S = U.setup(c, M, "OC_Optimizer", AnyFilter(c), oc_cfg(c))
    U.bisection_contract(c, M)
    S.o.running_scale = c.real("running", lo_open=0)
    # the work arrays of earlier iterations hold anything
    S.o._rho_e_buffer = c.array("stale_rho", S.d)
    S.o._dC_raw_buffer = c.array("stale_dC", S.d)
    U.update(S, percentile)
    g, f, o = c.ghost.get("bis_args"), c.ghost.get("bis_in"), S.o
    if g is None or len(f) != 5:
        raise Unsupported("search call not recognised")
    for nm, x in (("rho_min", S.rmin), ("rho_max", S.rmax),
                  ("move_limit", S.ml), ("eta", S.eta), ("beta", S.beta),
                  ("beta_eta", o.cfg.beta_eta), ("l1", o.cfg.lambda_lower),
                  ("l2", o.cfg.lambda_upper), ("vol_frac", S.vf),
                  ("scaling_rate_min", o.cfg.scaling_rate_min),
                  ("scaling_rate_max", o.cfg.scaling_rate_max),
                  ("elements_volume_sum", S.V)):
        if nm not in g:
            raise Unsupported(f"search parameter {nm} not found")
        c.post(f"search uses the configured {nm}", _t(g[nm]) == _t(x))
    c.post("search uses the optimizer's filter", z3.BoolVal(
        any(v is o.filter for v in g.values())))
    i, j = c.fresh_idx(S.d.t), c.fresh_idx(S.d.t)
    k = c.fresh_idx(S.N.t)
    ufn = lambda n: z3.Function(n, T.I, T.R)
    dC, old, rho, vol = (ufn(n) for n in ("dC", "old", "rho", "vol"))
    c.post("search starts from the current design",
           f["rho_e"]((i,)) == old(i))
    c.post("search freezes the current field", f["rho_full"]((k,)) == rho(k))
    c.post("search weighs by the element volumes",
           f["elements_volume"]((i,)) == vol(i))
    c.post("search places the candidate on the design elements",
           T.lift(f["design_elements"]((i,))) == c.val(S.design, i))
    a, b = T.to_real(f["dC"]((i,))), T.to_real(f["dC"]((j,)))
    c.post("search follows the gradient: sign", z3.And(
        z3.Implies(dC(i) > 0, a > 0), z3.Implies(dC(i) < 0, a < 0)))
    c.post("search follows the gradient: one factor",
           a * dC(j) == b * dC(i))
    out = ufn("bis_out0")
    c.forall("the design found is returned", S.old,
             lambda i, v: v == out(i))
    c.reach("end")


UNITS = [Unit(PROP, "wiring", lambda c: wiring(c, None)),
         Unit(PROP, "wiring_pct", lambda c: wiring(c, 95.0)),
         Unit(PROP, "bracket", u_bracket), Unit(PROP, "exit", u_exit),
         Unit(PROP, "design", u_design), Unit(PROP, "volume", u_volume),
         Unit(PROP, "monotone", u_monotone)]


def r_search(rt):
    import numpy as np
    from rt import oc
    B = rt.get(MOD, "bisection_with_physical_volume")
    for k in range(rt.n(250, 4000)):
        g = rt.np_rng
        q = oc.case(g)
        filt = oc.rand_filter(g, q["N"])
        with rt.case("search", seconds=20, **q):
            lam, ve, x, re, same, V = oc.run(B, q, filt)
            rt.ok("multiplier in bracket", q["l1"] <= lam <= q["l2"],
                  f"{lam}")
            rt.close("design at the multiplier", x, oc.step(q, re, lam),
                     1e-9, 1e-11)
            f = lambda z: oc.verr(q, re, z, filt, V)
            rt.close("reported error", ve, f(lam), 1e-6, 1e-9)
            if abs(ve) < q["vol_tol"]:
                continue
            # otherwise: the error changes sign within the remaining
            # bracket, or the whole bracket lies on one side
            w = max(q["tolerance"], (q["l2"] - q["l1"]) *
                    0.5 ** q["max_iter"], 4e-16 * lam) * 1.0001
            up, dn = f(min(lam + w, q["l2"])), f(max(lam - w, q["l1"]))
            t = 1e-9
            rt.ok("volume target bracketed at exit",
                  (up <= t or lam + w >= q["l2"]) and
                  (dn >= -t or lam - w <= q["l1"]),
                  f"lambda={lam} err={ve} up={up} down={dn} w={w}")


def r_target(rt):
    """reachable targets are met"""
    import numpy as np
    from rt import oc
    B = rt.get(MOD, "bisection_with_physical_volume")
    for k in range(rt.n(150, 2000)):
        g = rt.np_rng
        q = oc.case(g, signs=False)
        q.update(max_iter=1000, tolerance=1e-5, vol_tol=1e-4, l1=1e-7,
                 l2=1e7)
        filt = oc.rand_filter(g, q["N"])
        re = q["rho_full"][q["design"]]
        V = float(q["vol"].sum())
        lam = 10 ** g.uniform(-1.5, 4)
        q["vol_frac"] += oc.verr(q, re, lam, filt, V)
        with rt.case("target", seconds=20, **q):
            _, ve, x, *_ = oc.run(B, q, filt)
            rt.ok("reachable volume met", abs(ve) < 1e-3, f"error {ve}")


def r_update(rt):
    """whole updates of the optimizer: the design left is the one of the
    multiplier found, which meets the volume target or brackets it"""
    import numpy as np
    from rt import oc, opt
    from props.P08 import oc_concrete
    O = rt.get(MOD, "OC_Optimizer")
    for k in range(rt.n(60, 800)):
        g = rt.np_rng
        q = oc.case(g)
        filt = oc.rand_filter(g, q["N"])
        o = opt.make(O, q, filt, oc_concrete(q))
        x, V = None, float(q["vol"].sum())
        pct = None if g.random() < .5 else 90.0
        with rt.case("whole", seconds=20, percentile=pct, **q):
            for it in range(1, 4):
                dC = q["dC"] * g.uniform(.5, 2, q["d"])
                sc, _ = opt.oc_refs(q, o.cfg.__dict__, it, pct, dC,
                                    o.running_scale)
                h = dict(q, dC=sc, rho_full=o._state.rho.copy())
                old, x = opt.update(o, q, it, pct, x, dC)
                lam = float(o.recorder.fed["lmid"][-1])
                ve = float(o.recorder.fed["vol_error"][-1])
                rt.ok("multiplier in bracket", q["l1"] <= lam <= q["l2"],
                      f"{lam}")
                rt.close("design at the multiplier", x,
                         oc.step(h, old, lam), 1e-7, 1e-9)
                f = lambda z: oc.verr(h, old, z, filt, V)
                rt.close("reported error", ve, f(lam), 1e-6, 1e-9)
                if abs(ve) >= 1e-4:
                    w = max(1e-5, 4e-16 * lam) * 1.0001
                    up, dn = f(min(lam + w, q["l2"])), f(
                        max(lam - w, q["l1"]))
                    rt.ok("volume target bracketed at exit",
                          (up <= 1e-9 or lam + w >= q["l2"]) and
                          (dn >= -1e-9 or lam - w <= q["l1"]),
                          f"lambda={lam} err={ve} up={up} down={dn}")
                o._state.rho[q["design"]] = x


RUNTIME = [("search", r_search, 200), ("target", r_target, 200),
           ("whole", r_update, 200)]
