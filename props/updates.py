"""helpers: optimizer objects whose collaborators are contract stubs"""
import contextlib
import z3
from vpy import terms as T
from vpy.contracts import Stub
from vpy.engine import Sym, SymArray
from vpy import npshim


class Rec:
    """recorder contract: takes values, gives nothing back"""

    def __init__(self):
        self.fed = {}

    def feed_data(self, k, v):
        self.fed[k] = npshim.copy(v) if isinstance(v, SymArray) else v


class Timer:
    def section(self, name):
        return contextlib.nullcontext()


def setup(c, M, cls, filt, cfg, first=None):
    """optimizer instance bypassing __init__ plus symbolic arguments of one
    density update on N elements, d of them designable"""
    N = c.int("N", 1)
    d = c.int("nd", 1)
    c.assume(d.t <= N.t)
    design = c.index_array("design", N, d)
    rmin = c.real("rho_min", lo_open=0)
    rmax = c.real("rho_max", hi=1)
    c.assume(rmin.t < rmax.t)
    ml = c.real("move_limit", 0)
    rho = c.array("rho", N)
    old = c.array("old", d, pred=lambda i, v: z3.And(
        v >= rmin.t, v <= rmax.t))
    dC = c.array("dC", d)
    vol = c.array("vol", d, lo_open=0)
    S = Stub(N=N, d=d, design=design, rmin=rmin, rmax=rmax, ml=ml,
             rho=rho, old=old, dC=dC, vol=vol, V=c.real("V", lo_open=0),
             proj=c.array("proj", N), filt_rho=c.array("rho_filt", N, 0, 1),
             sr=c.array("sr", d), lo=c.array("lo", d), hi=c.array("hi", d),
             eta=c.real("eta", lo_open=0), beta=c.real("beta", lo_open=0),
             vf=c.real("vf", 0, 1))
    S.it = c.int("it", 1) if first is None else (
        1 if first else c.int("it", 2))
    cls_ = getattr(M, cls)
    o = cls_.__new__(cls_)
    o.cfg = Stub(rho_min=rmin, rho_max=rmax, beta_eta=c.real("be", 0, 1),
                 **cfg)
    o.tsk = Stub(design_elements=design)
    o._state = Stub(rho=rho, rho_filtered=S.filt_rho)
    o.filter = filt
    o.recorder = S.rec = Rec()
    o.timer = Timer()
    o._rho_e_buffer = None
    o._dC_raw_buffer = None
    o._dV_drho_design = c.array("dV", d)
    o.kkt_residual = None
    S.o = o
    return S


def update(S, percentile=None):
    o = S.o
    o.rho_update(S.it, S.old, S.proj, S.dC, None, None, S.sr, S.ml, S.eta,
                 S.beta, S.lo, S.hi, percentile, S.vol, S.V, S.vf)


def buf_of(a):
    return getattr(a, "buf", a)


def require(c, name, goal):
    c.oblige("callee precondition: " + name, goal)


def bisection_contract(c, M, name="bisection_with_physical_volume"):
    """replace the multiplier search by its contract (proved against its body
    in P08/P09): the caller is checked against the contract only"""
    import inspect
    from vpy.terms import Unsupported
    real = getattr(M, name, None)
    if real is None:
        return
    real = getattr(real, "vpy_body", real)
    sig = inspect.signature(real)

    def contract(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        g = b.arguments
        try:
            out, re, dC = g["rho_design_eles"], g["rho_e"], g["dC"]
            rmin, rmax, ml = (T.lift(g[x]) for x in (
                "rho_min", "rho_max", "move_limit"))
            l1, l2 = T.lift(g["l1"]), T.lift(g["l2"])
            work = [g[x] for x in (
                "scaling_rate", "rho_clip_lower", "rho_clip_upper",
                "rho_full_candidate", "rho_filtered_candidate",
                "rho_projected_candidate")]
            ro = [g[x] for x in ("dC", "rho_e", "rho_full",
                                 "elements_volume")]
        except KeyError as e:
            raise Unsupported(f"search parameter {e} not found")
        for w in [out] + work:
            for r in ro:
                require(c, "written and read arrays are distinct",
                        z3.BoolVal(buf_of(w) is not buf_of(r)))
        bufs = [id(buf_of(w)) for w in [out] + work]
        require(c, "work arrays are distinct",
                z3.BoolVal(len(set(bufs)) == len(bufs)))
        require(c, "valid bounds", z3.And(rmin > 0, rmin < rmax, ml >= 0))
        require(c, "valid bracket", z3.And(l1 > 0, l1 < l2))
        require(c, "valid factors", z3.And(
            T.lift(g["scaling_rate_min"]) > 0,
            T.lift(g["scaling_rate_min"]) <= 1,
            T.lift(g["scaling_rate_max"]) >= 1))
        require(c, "positive exponent and sharpness", z3.And(
            T.lift(g["eta"]) > 0, T.lift(g["beta"]) > 0,
            T.lift(g["eps"]) >= 0,
            T.lift(g["elements_volume_sum"]) > 0))
        require(c, "iteration cap", T.lift(g["max_iter"]) >= 0)
        c.forall("callee precondition: previous design inside the box", re,
                 lambda i, v: z3.And(v >= rmin, v <= rmax))
        c.ghost["bis_args"] = dict(g)
        c.ghost["bis_in"] = {n: g[n].snap() for n in (
            "dC", "rho_e", "rho_full", "elements_volume",
            "design_elements") if n in g}
        reb = re.snap()
        for w in work:
            npshim.assign(w, npshim.havoc_array(w.dims, "real", "work"))
        f = z3.Function("bis_out" + str(c.ghost.setdefault("bis_n", 0)),
                        T.I, T.R)
        c.ghost["bis_n"] += 1
        from vpy.engine import dim_term
        npshim.assign(out, SymArray(out.dims, lambda ix: f(*ix), "real",
                                    "bis_out"))
        c.fact(lambda i: z3.And(f(i) >= rmin, f(i) <= rmax,
                                f(i) - reb((i,)) <= ml,
                                reb((i,)) - f(i) <= ml),
               (dim_term(out.dims[0]),))
        lam = c.fresh("lam", T.R)
        c.assume(z3.And(lam >= l1, lam <= l2))
        ve = c.fresh("verr", T.R)
        c.ghost["bis_ret"] = (lam, ve)
        return Sym(lam), Sym(ve)
    contract.vpy_body = real
    setattr(M, name, contract)
