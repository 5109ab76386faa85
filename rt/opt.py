"""optimizer objects with concrete collaborators (no mesh, no solver)"""
import contextlib
import numpy as np


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


class Rec:
    def __init__(self):
        self.fed = {}

    def feed_data(self, k, v):
        self.fed.setdefault(k, []).append(np.array(v, copy=True))


class Timer:
    def section(self, name):
        return contextlib.nullcontext()


def make(cls, q, filt, cfg):
    o = cls.__new__(cls)
    o.cfg = NS(rho_min=q["rho_min"], rho_max=q["rho_max"],
               beta_eta=q["beta_eta"], **cfg)
    o.tsk = NS(design_elements=q["design"].copy())
    g = np.random.default_rng(3)
    o._state = NS(rho=q["rho_full"].copy(),
                  rho_filtered=filt.forward(q["rho_full"]))
    o.filter = filt
    o.recorder = Rec()
    o.timer = Timer()
    o._rho_e_buffer = None
    o._dC_raw_buffer = None
    o._dV_drho_design = q["vol"] / q["vol"].sum()
    o.kkt_residual = None
    o.running_scale = 0.0
    return o


def update(o, q, it=1, percentile=None, x=None, dC=None):
    """one density update; returns (previous design, new design)"""
    d = q["d"]
    x = q["rho_full"][q["design"]].copy() if x is None else x.copy()
    old = x.copy()
    st = o._state
    rp = heav(st.rho_filtered, q["beta"], q["beta_eta"])
    dC = (q["dC"] if dC is None else dC).copy()
    o.rho_update(it, x, rp, dC, np.zeros((1, 1)), np.zeros(q["N"]),
                 np.full(d, np.nan), q["move_limit"], q["eta"], q["beta"],
                 np.full(d, np.nan), np.full(d, np.nan), percentile,
                 q["vol"].copy(), float(q["vol"].sum()), q["vol_frac"])
    return old, x


def heav(x, b, e):
    den = np.tanh(b * e) + np.tanh(b * (1 - e))
    return (np.tanh(b * e) + np.tanh(b * (x - e))) / den


def oc_refs(q, cfg, it, pct, dC, rs0):
    """scaled sensitivity and normalisation of one OC update"""
    a = np.abs(dC)
    s = np.percentile(a, pct) if isinstance(pct, float) else a.max()
    s = max(s, cfg["sensitivity_scale_floor"])
    rs = .6 * rs0 + (1 - .6) * s if it > 1 else s
    return dC / rs, rs


def log_refs(q, cfg, it, pct, dC, filt, st, lam0, rs0):
    """one whole LogMOC update, written out: gradient of the Lagrangian,
    dual variable, normalisation, log-space step"""
    v, V, des, N = q["vol"], q["vol"].sum(), q["design"], q["N"]
    b, e = q["beta"], q["beta_eta"]
    x = st.rho[des]
    proj = heav(st.rho_filtered, b, e)
    ve = float(np.sum(proj[des] * v) / V - q["vol_frac"])
    dC = dC.copy()
    if cfg["center_objective"]:
        dC -= np.sum(dC * v) / V
    den = np.tanh(b * e) + np.tanh(b * (1 - e))
    dH = b * (1 - np.tanh(b * (st.rho_filtered - e)) ** 2) / den
    w = np.zeros(N)
    w[des] = v / V
    dV = filt.gradient(w * dH)
    if np.allclose(dV, 0) and np.any(w * dH > 0):
        dV = filt.forward(w * dH)
    dV = dV[des]
    vs = 1.0
    if cfg["normalize_volume_chain"]:
        a = max(np.percentile(np.abs(dC), cfg["lagrangian_percentile"]),
                cfg["lagrangian_scale_floor"])
        c = max(np.percentile(np.abs(dV), cfg["volume_chain_percentile"]),
                cfg["volume_chain_scale_floor"])
        gain = cfg["volume_chain_gain"]
        if cfg["volume_chain_gain_under"] is not None and ve < 0:
            gain = cfg["volume_chain_gain_under"]
        vs = gain * (a / c)
        dV = dV * vs
    pen = cfg["mu_p"] * ve
    lam = pen if it == 1 else (
        lam0 + pen if cfg["dual_update"] == "augmented" else
        cfg["lambda_decay"] * lam0 + (1 - cfg["lambda_decay"]) * pen)
    lam = float(np.clip(lam, cfg["lambda_lower"], cfg["lambda_upper"]))
    co = lam + cfg["augmented_lagrangian_mu"] * ve
    dL = dC + co * dV
    if cfg["filter_lagrangian"]:
        f = np.zeros(N)
        f[des] = dL
        dL = filt.forward(f)[des]
    if cfg["center_lagrangian"]:
        dL = dL - np.sum(dL * v) / V
    s = max(np.percentile(np.abs(dL), pct if isinstance(pct, float)
                          else cfg["lagrangian_percentile"]),
            cfg["lagrangian_scale_floor"])
    rs = .2 * rs0 + (1 - .2) * s if it > 1 else s
    raw, dL = dL, dL / rs
    ml, cl = q["move_limit"], cfg["lagrangian_clip"]
    y = np.clip(np.clip(
        x * np.exp(-q["eta"] * np.clip(dL, -cl, cl)),
        x / (1 + ml / x), x + ml), q["rho_min"], q["rho_max"])
    # cancellation leaves noise that the normalisation magnifies
    noisy = float(np.max(np.abs(dC)) + abs(co) * np.max(np.abs(dV))) \
        > 1e5 * max(float(s), 1e-300)
    return NS(x=y, lam=lam, coeff=co, ve=ve, dC=dC, dV=dV, vs=vs, dL=dL,
              rs=rs, raw=raw, noisy=noisy)


def make_log(O, q, filt, cfg, g):
    """LogMOC optimizer whose work arrays do not exist yet"""
    o = make(O, q, filt, cfg)
    if hasattr(o, "running_scale"):
        del o.running_scale
    o.lambda_v = .1
    for n in ("_dL_buffer", "_dV_chain_design", "_dV_projected_full",
              "_dV_filtered_full", "_dL_full"):
        setattr(o, n, None)
    return o


def kkt(q, x, dL):
    m = (x > q["rho_min"] + 1e-6) & (x < q["rho_max"] - 1e-6)
    return float(np.abs(dL[m]).max()) if m.any() else 0.0
