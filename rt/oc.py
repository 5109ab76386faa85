"""concrete inputs for the OC update contracts"""
import numpy as np


class MatrixFilter:
    def __init__(self, W):
        self.W = W
        self.radius = 1.0

    def forward(self, x):
        return self.W @ x

    def gradient(self, g):
        return self.W.T @ g


def rand_filter(g, N, kind=None):
    kind = kind or g.choice(["id", "avg", "const"])
    if kind == "id":
        W = np.eye(N)
    elif kind == "avg":
        W = np.maximum(g.random((N, N)) - 0.6, 0) + np.eye(N)
        W /= W.sum(1, keepdims=True)
    else:
        W = np.full((N, N), 1.0 / N)
    return MatrixFilter(W)


def case(g, signs=True):
    N = int(g.integers(1, 25))
    d = int(g.integers(1, N + 1))
    design = np.sort(g.choice(N, d, replace=False))
    rmin = float(g.choice([1e-3, 1e-2, 0.1]))
    rmax = float(g.choice([1.0, 0.95]))
    rho_full = g.uniform(rmin, rmax, N)
    rho_full[g.random(N) < 0.2] = rmin
    rho_full[g.random(N) < 0.2] = rmax
    dC = -10 ** g.uniform(-4, 1, d)
    dC[g.random(d) < 0.1] = 0.0
    if signs and g.random() < 0.3:
        k = g.random(d) < 0.3
        dC[k] = -dC[k]
    vol = g.uniform(0.2, 2.0, d) if g.random() < 0.5 else np.ones(d)
    return dict(
        N=N, d=d, design=design, rho_min=rmin, rho_max=rmax,
        rho_full=rho_full, dC=dC, vol=vol,
        move_limit=float(g.choice([0.02, 0.1, 0.3, 1.0])),
        eta=float(g.choice([0.3, 0.5, 0.6, 1.0])),
        smin=float(g.choice([0.7, 0.5])), smax=float(g.choice([1.3, 2.0])),
        vol_frac=float(g.choice([g.uniform(0.1, 0.9), 0.4, 0.8])),
        beta=float(g.choice([1e-2, 1.0, 4.0, 16.0])),
        beta_eta=float(g.choice([0.5, 0.3])),
        max_iter=int(g.choice([1000, 1000, 40, 0])),
        tolerance=float(g.choice([1e-5, 1e-5, 1e-4, 0.0])),
        vol_tol=float(g.choice([1e-4, 1e-4, 0.0])),
        l1=float(g.choice([1e-7, 1e-7, 1e-3])),
        l2=float(g.choice([1e7, 1e7, 10.0])))


def run(B, q, filt):
    d, N = q["d"], q["N"]
    out = np.full(d, np.nan)
    b = [np.full(d, np.nan) for _ in range(3)]
    f = [np.full(N, np.nan) for _ in range(3)]
    re = q["rho_full"][q["design"]].copy()
    a = dict(dC=q["dC"].copy(), rho_e=re.copy(),
             rho_full=q["rho_full"].copy(), vol=q["vol"].copy(),
             design=q["design"].copy())
    V = float(q["vol"].sum())
    lmid, ve = B(
        a["dC"], a["rho_e"], a["rho_full"], a["design"], filt, q["rho_min"],
        q["rho_max"], q["move_limit"], q["eta"], 1e-12, q["vol_frac"],
        q["beta"], q["beta_eta"], b[0], out, b[1], b[2], a["vol"], V,
        q["smin"], q["smax"], f[0], f[1], f[2], max_iter=q["max_iter"],
        tolerance=q["tolerance"], vol_tol=q["vol_tol"], l1=q["l1"],
        l2=q["l2"])
    same = (np.array_equal(a["dC"], q["dC"]) and np.array_equal(
        a["rho_e"], re) and np.array_equal(a["rho_full"], q["rho_full"])
        and np.array_equal(a["vol"], q["vol"]) and np.array_equal(
            a["design"], q["design"]))
    return lmid, ve, out, re, same, V


def heav(x, b, e):
    den = np.tanh(b * e) + np.tanh(b * (1 - e))
    return (np.tanh(b * e) + np.tanh(b * (x - e))) / den


def step(q, re, lam):
    """reference OC step for multiplier lam"""
    t = (np.maximum(-q["dC"], 0.0) / (lam + 1e-12)) ** q["eta"]
    t = np.clip(t, q["smin"], q["smax"])
    lo = np.maximum(re - q["move_limit"], q["rho_min"])
    hi = np.minimum(re + q["move_limit"], q["rho_max"])
    return np.clip(re * t, lo, hi)


def verr(q, re, lam, filt, V):
    x = q["rho_full"].copy()
    x[q["design"]] = step(q, re, lam)
    y = heav(filt.forward(x), q["beta"], q["beta_eta"])
    return float(np.sum(y[q["design"]] * q["vol"]) / V - q["vol_frac"])
