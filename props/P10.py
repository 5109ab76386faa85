"""Log-space multiplier update: box, move limit, direction, dual variable."""
import z3
from vpy import terms as T
from vpy.unit import Unit
from vpy.engine import Sym
from vpy.contracts import Stub
from vpy import engine, npshim

PROP = "P10"
MOD = "sktopt.core.optimizers.logmoc"


class AnyFilter:
    """contract of the filter: arrays of the same length, argument read only"""

    def forward(self, x):
        return npshim.havoc_array(x.dims, "real", "filtered")

    def gradient(self, x):
        return npshim.havoc_array(x.dims, "real", "gradient")


def log_inputs(c):
    d = c.int("nd", 1)
    rmin = c.real("rho_min", lo_open=0)
    rmax = c.real("rho_max", hi=1)
    c.assume(rmin.t < rmax.t)
    ml = c.real("move_limit", 0)
    rho = c.array("rho", d, pred=lambda i, v: z3.And(
        v >= rmin.t, v <= rmax.t))
    return Stub(d=d, rmin=rmin, rmax=rmax, ml=ml, rho=rho,
                dL=c.array("dL", d), eta=c.real("eta", lo_open=0),
                clip=c.real("clip", lo_open=0), sr=c.array("sr", d),
                lo=c.array("lo", d), hi=c.array("hi", d))


def step(M, S):
    M.lagrangian_log_update(S.rho, S.dL, S.sr, S.eta, S.ml, S.lo, S.hi,
                            S.rmin, S.rmax, S.clip)


def u_box(c):
    """whatever the multiplier gradient: inside the bounds and within the
    move limit"""
    M = c.load(MOD)
    S = log_inputs(c)
    step(M, S)
    r, g = z3.Function("rho", T.I, T.R), z3.Function("dL", T.I, T.R)
    c.forall("inside [rho_min, rho_max]", S.rho, lambda i, v: z3.And(
        v >= S.rmin.t, v <= S.rmax.t))
    c.forall("grows by at most the move limit", S.rho,
             lambda i, v: v - r(i) <= S.ml.t)
    c.forall("shrinks by at most the move limit", S.rho,
             lambda i, v: r(i) - v <= S.ml.t)
    c.forall("gradient untouched", S.dL, lambda i, v: v == g(i))
    c.reach("end")


def u_direction(c):
    """descends the Lagrangian: never grows where its gradient is positive,
    never shrinks where it is negative, unchanged where it vanishes;
    a larger gradient never leaves more material"""
    M = c.load(MOD)
    S = log_inputs(c)
    step(M, S)
    r, g = z3.Function("rho", T.I, T.R), z3.Function("dL", T.I, T.R)
    c.forall("positive gradient does not grow", S.rho,
             lambda i, v: z3.Implies(g(i) >= 0, v <= r(i)))
    c.forall("negative gradient does not shrink", S.rho,
             lambda i, v: z3.Implies(g(i) <= 0, v >= r(i)))
    i, j = c.fresh_idx(S.d.t), c.fresh_idx(S.d.t)
    c.post("larger gradient, no more material", z3.Implies(
        z3.And(r(i) == r(j), g(i) <= g(j)),
        c.val(S.rho, i) >= c.val(S.rho, j)))


def _cfg(c, **k):
    a, b = c.real("lambda_lower"), c.real("lambda_upper")
    c.assume(a.t < b.t)
    d = dict(lambda_lower=a, lambda_upper=b, mu_p=c.real("mu", lo_open=0),
             augmented_lagrangian_mu=c.real("alm", 0), lambda_v=0.1,
             lambda_decay=c.real("decay", 0, 1),
             lagrangian_clip=c.real("clip", lo_open=0),
             lagrangian_percentile=95.0,
             lagrangian_scale_floor=c.real("floor", lo_open=0),
             normalize_volume_chain=False, volume_chain_percentile=95.0,
             volume_chain_scale_floor=c.real("vfloor", lo_open=0),
             volume_chain_gain=c.real("gain", lo_open=0),
             volume_chain_gain_under=None, dual_update="ema",
             filter_lagrangian=False, center_lagrangian=False,
             center_objective=False)
    d.update(k)
    return d


def _update(c, first, contract=True, pct=None, filt=None, **k):
    from props import updates as U
    M = c.load(MOD)
    S = U.setup(c, M, "LogMOC_Optimizer", filt or AnyFilter(),
                _cfg(c, **k), first)
    o = S.o
    o.running_scale = c.real("running", lo_open=0)
    S.lam0 = c.real("lam0")
    o.lambda_v = S.lam0
    c.assume(z3.And(S.lam0.t >= o.cfg.lambda_lower.t,
                    S.lam0.t <= o.cfg.lambda_upper.t))
    for n in ("_dL_buffer", "_dV_chain_design", "_dV_projected_full",
              "_dV_filtered_full", "_dL_full"):
        setattr(o, n, None)
    if contract:
        log_contract(c, M)
    if filt:
        # a later iteration: the work arrays hold anything
        for n, m in (("_dL_buffer", S.d), ("_dC_raw_buffer", S.d),
                     ("_rho_e_buffer", S.d), ("_dV_chain_design", S.d),
                     ("_dV_projected_full", S.N),
                     ("_dV_filtered_full", S.N), ("_dL_full", S.N)):
            setattr(o, n, c.array("stale" + n, m))
        c.patch(M, "projection", Stub(
            heaviside_projection_derivative_inplace=filt.dheav(c, S)))
    c.ghost["no_sum_sign"] = True
    U.update(S, pct)
    return S


def log_contract(c, M, name="lagrangian_log_update"):
    """the log-space step by its contract (proved in box)"""
    import inspect
    from vpy.terms import Unsupported
    from props.updates import buf_of, require
    from vpy.engine import SymArray, dim_term
    real = getattr(M, name, None)
    if real is None:
        return
    real = getattr(real, "vpy_body", real)
    sig = inspect.signature(real)

    def contract(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        g = b.arguments
        try:
            rho, dL = g["rho"], g["dL"]
            work = [g[x] for x in ("scaling_rate", "rho_clip_lower",
                                   "rho_clip_upper")]
            rmin, rmax, ml, eta, cl = (T.lift(g[x]) for x in (
                "rho_min", "rho_max", "move_limit", "eta",
                "lagrangian_clip"))
        except KeyError as e:
            raise Unsupported(f"log update parameter {e} not found")
        bufs = [id(buf_of(w)) for w in [rho, dL] + work]
        require(c, "arrays are distinct",
                z3.BoolVal(len(set(bufs)) == len(bufs)))
        require(c, "valid bounds", z3.And(rmin > 0, rmin < rmax, ml >= 0,
                                          eta > 0, cl > 0))
        c.forall("callee precondition: previous design inside the box", rho,
                 lambda i, v: z3.And(v >= rmin, v <= rmax))
        r0 = rho.snap()
        c.ghost["log_args"] = dict(g, dL=npshim.copy(dL))
        for w in work:
            npshim.assign(w, npshim.havoc_array(w.dims, "real", "work"))
        f = z3.Function("log_out", T.I, T.R)
        gr = dL.snap()
        npshim.assign(rho, SymArray(rho.dims, lambda ix: f(*ix), "real",
                                    "log_out"))
        c.fact(lambda i: z3.And(
            f(i) >= rmin, f(i) <= rmax, f(i) - r0((i,)) <= ml,
            r0((i,)) - f(i) <= ml,
            z3.Implies(gr((i,)) >= 0, f(i) <= r0((i,))),
            z3.Implies(gr((i,)) <= 0, f(i) >= r0((i,)))),
            (dim_term(rho.dims[0]),))
    contract.vpy_body = real
    setattr(M, name, contract)


def _posts(c, S):
    o, cfg = S.o, S.o.cfg
    old = z3.Function("old", T.I, T.R)
    c.forall("inside [rho_min, rho_max]", S.old, lambda i, v: z3.And(
        v >= S.rmin.t, v <= S.rmax.t))
    c.forall("within the move limit of the previous design", S.old,
             lambda i, v: z3.And(v - old(i) <= S.ml.t, old(i) - v <= S.ml.t))
    for nm, a in (("rho", S.rho), ("proj", S.proj), ("dC", S.dC),
                  ("rho_filt", S.filt_rho), ("vol", S.vol)):
        f = z3.Function(nm, T.I, T.R)
        c.forall(f"{nm} untouched", a, lambda i, v: v == f(i))
    lam = T.to_real(T.val(T.lift(o.lambda_v)))
    c.post("dual variable inside its bounds", z3.And(
        lam >= cfg.lambda_lower.t, lam <= cfg.lambda_upper.t))
    rs = T.to_real(T.val(T.lift(o.running_scale)))
    c.post("normalisation stays positive", rs > 0)
    return lam


def _err(S):
    y = S.proj[S.o.tsk.design_elements]
    return T.to_real(T.val(T.lift(
        npshim.np_sum(y * S.vol) / S.V - S.vf)))


def _dual(kind, first):
    def u(c):
        S = _update(c, first, dual_update=kind)
        lam = _posts(c, S)
        cfg = S.o.cfg
        pen = cfg.mu_p.t * _err(S)
        if first:
            raw = pen
        elif kind == "augmented":
            raw = S.lam0.t + pen
        else:
            raw = cfg.lambda_decay.t * S.lam0.t + \
                (1 - cfg.lambda_decay.t) * pen
        lo, hi = cfg.lambda_lower.t, cfg.lambda_upper.t
        c.post("dual update follows the volume error", lam == z3.If(
            raw < lo, lo, z3.If(raw > hi, hi, raw)))
        c.reach("end")
    u.__name__ = f"u_{kind}_{'first' if first else 'later'}"
    u.__doc__ = f"{kind} dual update, " + (
        "first iteration" if first else "later iterations")
    return u


class LogFilter(AnyFilter):
    """remembers what went through the filter and the projection"""

    def __init__(self):
        self.log = []
        self.dH = z3.Function("dH", T.I, T.R)

    def note(self, kind, x):
        f = x.snap()
        r = npshim.havoc_array(x.dims, "real", kind)
        self.log.append((kind, f, r.snap()))
        return r

    def forward(self, x):
        return self.note("filtered", x)

    def gradient(self, x):
        return self.note("gradient", x)

    def dheav(self, c, S):
        """contract of the projection derivative (P05)"""
        def dheav(x, beta, eta, out=None):
            f = z3.Function("rho_filt", T.I, T.R)
            c.forall("projection derivative at the filtered density", x,
                     lambda i, v: v == f(i))
            c.post("sharpness of this iteration",
                   T.t_eq(T.lift(beta), S.beta.t))
            c.post("configured threshold", T.t_eq(
                T.lift(eta), S.o.cfg.beta_eta.t))
            npshim.assign(x if out is None else out, engine.SymArray(
                x.dims, lambda ix: self.dH(*ix), "real", "dH"))
        return dheav


def lagrangian(c, centre=False, filt=False):
    """the step follows the gradient of the Lagrangian: objective gradient
    plus coefficient times the gradient of the physical volume fraction (one
    positive factor apart), with the configured bounds"""
    F = LogFilter()
    S = _update(c, False, filt=F, center_objective=centre,
                filter_lagrangian=filt)
    g, o, cfg = c.ghost.get("log_args"), S.o, S.o.cfg
    if g is None or not F.log:
        raise T.Unsupported("update step not recognised")
    for nm, x in (("rho_min", S.rmin), ("rho_max", S.rmax),
                  ("move_limit", S.ml), ("eta", S.eta),
                  ("lagrangian_clip", cfg.lagrangian_clip)):
        c.post(f"step uses the configured {nm}", T.t_eq(
            T.lift(g[nm]), x.t))
    c.post("volume gradient goes back through the filter",
           z3.BoolVal(F.log[0][0] == "gradient"))
    ufn = lambda n: z3.Function(n, T.I, T.R)
    dC, vol = ufn("dC"), ufn("vol")
    idx, mem = S.design.snap(), c.mem(S.design)
    i, k = c.fresh_idx(S.d.t), c.fresh_idx(S.N.t)
    e = T.lift(idx((i,)))
    x = F.log[0][1]
    c.post("volume gradient: projection derivative and volume share",
           x((e,)) == F.dH(e) * (vol(i) / S.V.t))
    c.post("volume gradient: only designed elements",
           z3.Implies(z3.Not(mem(k)), x((k,)) == 0))
    back = F.log[0]
    rest = F.log[1:]
    if rest and rest[0][0] == "filtered" and not (filt and len(rest) == 1):
        back, rest = rest[0], rest[1:]
        c.post("the fallback filters the same field",
               back[1]((k,)) == x((k,)))
    dV = back[2]
    coeff = T.to_real(T.val(T.lift(o.lambda_v))) + \
        cfg.augmented_lagrangian_mu.t * _err(S)
    dL = g["dL"].snap()
    mean = z3.RealVal(0)
    if centre:
        cc = engine.SymArray(S.dC.dims, lambda ix: dC(*ix), "real", "dC")
        mean = T.to_real(T.val(T.lift(npshim.np_sum(cc * S.vol) / S.V)))
    grad = dC(i) - mean + coeff * dV((e,))
    rs = T.to_real(T.val(T.lift(o.running_scale)))
    if filt:
        if len(rest) != 1:
            raise T.Unsupported("filter calls not recognised")
        _, a, b = rest[0]
        c.post("the Lagrangian gradient is filtered", a((e,)) == grad)
        c.post("filtered over the design only",
               z3.Implies(z3.Not(mem(k)), a((k,)) == 0))
        grad = b((e,))
    c.post("step follows the Lagrangian gradient", z3.And(
        rs > 0, dL((i,)) == grad / rs))
    out = ufn("log_out")
    c.forall("the step taken is returned", S.old, lambda i, v: v == out(i))
    c.reach("end")


def _opts(**k):
    def u(c):
        """optional centring, filtering and normalisation keep the bounds"""
        S = _update(c, None, **k)
        _posts(c, S)
    return u


UNITS = [
    Unit(PROP, "lagrangian", lagrangian),
    Unit(PROP, "lagrangian_centred", lambda c: lagrangian(c, centre=True)),
    Unit(PROP, "lagrangian_filtered", lambda c: lagrangian(c, filt=True)),
    Unit(PROP, "box", u_box), Unit(PROP, "direction", u_direction),
    Unit(PROP, "ema_first", _dual("ema", True)),
    Unit(PROP, "ema_later", _dual("ema", False)),
    Unit(PROP, "aug_first", _dual("augmented", True)),
    Unit(PROP, "aug_later", _dual("augmented", False)),
    Unit(PROP, "centred", _opts(center_lagrangian=True,
                                center_objective=True)),
    Unit(PROP, "filtered", _opts(filter_lagrangian=True, pct=90.0)),
    Unit(PROP, "normalised", _opts(normalize_volume_chain=True,
                                   volume_chain_gain_under=1.5)),
]


def r_step(rt):
    import numpy as np
    F = rt.get(MOD, "lagrangian_log_update")
    for k in range(rt.n(400, 8000)):
        g = rt.np_rng
        n = int(g.integers(1, 30))
        rmin, rmax = float(g.choice([1e-3, 1e-2, .1])), float(
            g.choice([1.0, .9]))
        x = g.uniform(rmin, rmax, n)
        x[g.random(n) < .2] = rmin
        x[g.random(n) < .2] = rmax
        dL = g.normal(size=n) * 10 ** g.uniform(-3, 3)
        dL[g.random(n) < .1] = 0.0
        ml = float(g.choice([0.0, .01, .1, .3, 2.0]))
        eta = float(g.choice([.1, .5, 1.0, 5.0]))
        cl = float(g.choice([.5, 1.0, 10.0]))
        with rt.case("step", n=n, rho=x, dL=dL, rho_min=rmin, rho_max=rmax,
                     move_limit=ml, eta=eta, clip=cl):
            y, d = x.copy(), dL.copy()
            e = lambda: np.full(n, np.nan)
            F(y, d, e(), eta, ml, e(), e(), rmin, rmax, cl)
            t = 1e-9
            rt.ok("finite", np.all(np.isfinite(y)))
            rt.ok("box", np.all((y >= rmin - t) & (y <= rmax + t)))
            rt.ok("move limit", np.all(np.abs(y - x) <= ml + t),
                  f"{np.abs(y - x).max()} > {ml}")
            rt.ok("gradient untouched", np.array_equal(d, dL))
            rt.ok("direction", np.all(y[dL >= 0] <= x[dL >= 0] + t) and
                  np.all(y[dL <= 0] >= x[dL <= 0] - t))
            ref = np.clip(np.clip(
                x * np.exp(-eta * np.clip(dL, -cl, cl)),
                x / (1 + ml / x), x + ml), rmin, rmax)
            rt.close("log-space step", y, ref, 1e-9, 1e-10)


def concrete_cfg(q, g, **k):
    d = dict(lambda_lower=-float(10 ** g.uniform(-1, 2)),
             lambda_upper=float(10 ** g.uniform(-1, 2)), mu_p=5.0,
             augmented_lagrangian_mu=float(g.choice([0.0, 2.0])),
             lambda_v=.1, lambda_decay=.9,
             lagrangian_clip=1.0, lagrangian_percentile=95.0,
             lagrangian_scale_floor=1e-8,
             normalize_volume_chain=bool(g.integers(2)),
             volume_chain_percentile=95.0, volume_chain_scale_floor=1e-8,
             volume_chain_gain=float(g.choice([1.0, .5])),
             volume_chain_gain_under=[None, 1.5][int(g.integers(2))],
             dual_update=str(g.choice(["ema", "augmented"])),
             filter_lagrangian=bool(g.integers(2)),
             center_lagrangian=bool(g.integers(2)),
             center_objective=bool(g.integers(2)))
    d.update(k)
    return d


def r_full(rt):
    """consecutive whole updates on one optimizer object"""
    import numpy as np
    from rt import oc, opt
    O = rt.get(MOD, "LogMOC_Optimizer")
    for k in range(rt.n(80, 1000)):
        g = rt.np_rng
        q = oc.case(g)
        filt = oc.rand_filter(g, q["N"])
        cfg = concrete_cfg(q, g)
        o = opt.make_log(O, q, filt, cfg, g)
        x = None
        pct = None if g.random() < .5 else 90.0
        with rt.case("full", seconds=20, percentile=pct, cfg=cfg, **q):
            for it in range(1, 4):
                dC = q["dC"] * g.uniform(.5, 2, q["d"])
                f0 = o._state.rho.copy()
                lam0 = o.lambda_v
                rp = opt.heav(o._state.rho_filtered, q["beta"],
                              q["beta_eta"])
                ve = float(np.sum(rp[q["design"]] * q["vol"]) /
                           q["vol"].sum() - q["vol_frac"])
                ref = opt.log_refs(q, cfg, it, pct, dC, filt, o._state, lam0,
                                   getattr(o, "running_scale", 0.0))
                old, x = opt.update(o, q, it, pct, x, dC)
                if not ref.noisy:
                    rt.close("step along the Lagrangian gradient", x, ref.x,
                             1e-6, 1e-8)
                rt.ok("box", np.all(x >= q["rho_min"] - 1e-9) and
                      np.all(x <= q["rho_max"] + 1e-9), f"{it}: {x}")
                rt.ok("move limit", np.all(np.abs(x - old) <=
                                           q["move_limit"] + 1e-9),
                      f"iteration {it}: moved {np.abs(x - old).max()}")
                rt.ok("full field untouched",
                      np.array_equal(f0, o._state.rho))
                pen = cfg["mu_p"] * ve
                raw = pen if it == 1 else (
                    lam0 + pen if cfg["dual_update"] == "augmented" else
                    .9 * lam0 + (1 - .9) * pen)
                rt.close("dual variable", o.lambda_v, np.clip(
                    raw, cfg["lambda_lower"], cfg["lambda_upper"]),
                    1e-9, 1e-10)
                o._state.rho[q["design"]] = x
                o._state.rho_filtered = filt.forward(o._state.rho)


RUNTIME = [("step", r_step, 200), ("full", r_full, 200)]
