"""Recorded histories and their file round trip."""
import os
import z3
from vpy import terms as T, npshim
from vpy.contracts import Stub, sum_nonneg
from vpy.engine import Sym, SymArray, dim_term
from vpy.loops import Seq, is_seq, merge, seq_len, seq_item
from vpy.unit import Unit
from props.optloop import Loop

PROP = "P20"
MOD = "sktopt.tools.history"
KINDS = {"value": 3, "min-max-mean": 3, "min-max-mean-std": 4}
R, I = T.R, T.I


def series(c, name, width):
    """a list of symbolic length: floats (width 0) or lists of `width`"""
    n = c.int(f"n_{name}", 0)
    if not width:
        f = z3.Function(f"h_{name}", I, R)
        return Seq(n.t, lambda k: Sym(f(k))), n.t
    fs = [z3.Function(f"h_{name}_{j}", I, R) for j in range(width)]
    return Seq(n.t, lambda k: [Sym(f(k)) for f in fs]), n.t


def same(a, b):
    if isinstance(a, SymArray):
        a = [a[j] for j in range(a.dims[0])]
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(
                b, (list, tuple)) and len(a) == len(b)):
            return z3.BoolVal(False)
        return z3.And(*[same(x, y) for x, y in zip(a, b)])
    return T.t_eq(T.lift(a), T.lift(b))


def length(xs):
    return seq_len(xs) if is_seq(xs) else z3.IntVal(len(xs))


def get(xs, k):
    if is_seq(xs):
        return xs.at(k)
    r = xs[-1]
    for j in range(len(xs) - 2, -1, -1):
        r = merge(k == j, xs[j], r)
    return r


def grown(c, h, n, item, what="recorded"):
    """h has one entry more than the n it had, the earlier ones unchanged"""
    c.post("exactly one entry is added", T.t_eq(length(h.data), n + 1))
    if c.decide(n > 0):
        k = c.fresh_idx(n, "earlier")
        c.post("earlier entries stay", same(get(h.data, k), item(k)))
    return seq_item(h.data, -1)


def add(c, kind, what):
    c.ghost["seq_append"] = True
    M = c.load(MOD)
    array = what == "array"
    data, n = series(c, "old", KINDS[kind] if array else 0)
    item = data.item
    h = M.HistorySeries("s", plot_type=kind)
    h.data = data
    if what == "float":
        v = c.real("v")
        h.add(v)
        e = grown(c, h, n, item)
        c.post("the value itself is recorded", same(e, v))
        c.post("latest entry", same(h.latest(), v))
        return c.reach("end")
    if what == "zero_d":
        v = c.real("v")
        h.add(SymArray((), lambda i: v.t, "real"))
        c.post("the value itself is recorded",
               same(grown(c, h, n, item), v))
        return c.reach("end")
    m = c.int("m", 1)
    x = c.array("x", m)
    s = x.snap()
    h.add(x)
    e = grown(c, h, n, item)
    c.post("a list of statistics", z3.BoolVal(
        isinstance(e, list) and len(e) == KINDS[kind]))
    lo, mean, hi = e[:3]
    i = c.fresh_idx(m.t, "i")
    c.post("minimum below", T.lift(lo) <= s((i,)))
    c.post("maximum above", T.lift(hi) >= s((i,)))
    a, b = c.real("a"), c.real("b")
    c.fact(lambda j: a.t <= s((j,)), (m.t,))
    c.fact(lambda j: b.t >= s((j,)), (m.t,))
    c.post("minimum attained", a.t <= T.lift(lo))
    c.post("maximum attained", b.t >= T.lift(hi))
    tot = npshim.np_sum(x)
    c.post("mean", T.t_eq(T.lift(mean) * z3.ToReal(m.t), tot.t))
    if len(e) > 3:
        mu = Sym(tot.t / z3.ToReal(m.t))
        d = x - mu
        f = (d * d).snap()
        sum_nonneg(c, "squares", lambda k: f((k,)), m.t)
        c.post("standard deviation is not negative", T.lift(e[3]) >= 0)
        c.post("standard deviation", T.t_eq(
            T.lift(e[3]) * T.lift(e[3]),
            npshim.np_sum(d * d).t / z3.ToReal(m.t)))
    late = h.latest()
    c.post("latest entry", same(late, e))
    c.forall("the recorded array is only read", x,
             lambda j, v: v == s((j,)))
    c.reach("end")


class File:
    """numpy's npz files: what was stored under a name comes back"""

    def __init__(self, c, M, exists=True):
        self.c, self.kept, self.path = c, None, None
        c.ghost["savez"] = self.save
        c.ghost["np_load"] = self.load
        self.exists = exists
        c.patch(M, "os", Stub(path=Stub(join=os.path.join,
                                        exists=self.there)))

    def there(self, p):
        return self.exists and (self.path is None or p == self.path)

    def save(self, path, *a, **arrays):
        self.c.post("every array is stored under a name",
                    z3.BoolVal(not a))
        self.path = path if str(path).endswith(".npz") else f"{path}.npz"
        self.kept = {k: v.copy() for k, v in arrays.items()}

    def load(self, path, *a, **k):
        self.c.post("the file that was written is read",
                    z3.BoolVal(str(path) == self.path))
        return self

    def __enter__(self):
        return self

    def __exit__(self, *e):
        return False

    def close(self):
        pass

    @property
    def files(self):
        return list(self.kept)

    def keys(self):
        return list(self.kept)

    def __contains__(self, k):
        return k in self.kept

    def __iter__(self):
        return iter(self.kept)

    def __getitem__(self, k):
        return self.kept[k]


SETS = {
    "energy": ("min-max-mean-std", 4, [0.5], ["target"], True),
    "-dC": ("min-max-mean", 3, None, None, False),
    "compliance": ("value", 0, [1.0, 2.0], ["a", "b"], True),
    "dL": ("min-max-mean-std", 0, None, None, False),
}


def collection(c, M, names):
    col = M.HistoryCollection("out")
    old = {}
    for nm in names:
        kind, width, con, cn, ylog = SETS[nm]
        col.add(nm, constants=con, constant_names=cn, plot_type=kind,
                ylog=ylog)
        h = col.histories[nm]
        c.post(f"{nm}: registered empty", z3.BoolVal(
            h.name == nm and h.plot_type == kind and h.constants is con
            and h.constant_names is cn and h.ylog is ylog
            and len(h.data) == 0))
        h.data, n = series(c, nm, width)
        old[nm] = n, h.data.item
    return col, old


def check_back(c, col, old):
    c.post("the same histories are registered", z3.BoolVal(
        set(col.histories) == set(old)))
    for nm, (n, item) in old.items():
        kind, width, con, cn, ylog = SETS[nm]
        if nm not in col.histories:
            continue
        h = col.histories[nm]
        c.post(f"{nm}: name, kind and settings", z3.BoolVal(
            h.name == nm and str(h.plot_type) == kind
            and h.constants is con and h.constant_names is cn
            and bool(h.ylog) is ylog))
        c.post(f"{nm}: as many entries", T.t_eq(length(h.data), n))
        if c.decide(n > 0):
            k = c.fresh_idx(n, f"k_{nm}")
            c.post(f"{nm}: entries come back",
                   same(get(h.data, k), item(k)))


def round_trip(c, names, fname=None, fresh=False):
    """everything recorded is written and comes back; a history without
    entries stays registered.  fresh: read by a new collection that only
    registered the same names (a restarted run)"""
    M = c.load(MOD)
    f = File(c, M)
    col, old = collection(c, M, names)
    col.export_histories() if fname is None else col.export_histories(fname)
    if f.kept is None:
        for nm, (n, _) in old.items():
            c.post(f"{nm}: nothing recorded", n == 0)
        check_back(c, col, old)
        return
    c.post("file", z3.BoolVal(f.path == os.path.join(
        "out", fname or "histories.npz")))
    if fresh:
        col = M.HistoryCollection("out")
        for nm in names:
            kind, width, con, cn, ylog = SETS[nm]
            col.add(nm, constants=con, constant_names=cn, plot_type=kind,
                    ylog=ylog)
        col.import_histories() if fname is None \
            else col.import_histories(fname)
    check_back(c, col, old)
    c.reach("end")


def continues(c):
    """recording goes on after loading: the entry is appended to the
    history of that name only"""
    c.ghost["seq_append"] = True
    M = c.load(MOD)
    File(c, M)
    col, old = collection(c, M, ["compliance", "-dC"])
    c.assume(old["compliance"][0] > 0)
    c.assume(old["-dC"][0] > 0)
    col.export_histories()
    v = c.real("v")
    col.feed_data("compliance", v)
    n, item = old["compliance"]
    c.post("the value is recorded",
           same(grown(c, col.histories["compliance"], n, item), v))
    c.post("other histories stay", T.t_eq(
        length(col.histories["-dC"].data), old["-dC"][0]))
    x = c.array("x", c.int("m", 1))
    col.feed_data("-dC", x)
    c.post("other histories stay 2", T.t_eq(
        length(col.histories["compliance"].data), n + 1))
    n, item = old["-dC"]
    grown(c, col.histories["-dC"], n, item)
    c.reach("end")


def missing(c):
    """without a file nothing changes"""
    M = c.load(MOD)
    File(c, M, exists=False)
    col, old = collection(c, M, ["compliance", "-dC"])
    col.import_histories()
    check_back(c, col, old)
    c.reach("end")


def refused(c):
    M = c.load(MOD)
    col, old = collection(c, M, ["compliance", "-dC"])

    def fails(fn, kind):
        try:
            fn()
        except kind:
            return True
        return False
    c.post("unknown name refused",
           z3.BoolVal(fails(lambda: col.latest("nosuch"), KeyError)))
    c.post("unknown name is not recorded", z3.BoolVal(
        fails(lambda: col.feed_data("nosuch", 1.0), KeyError)
        and set(col.histories) == set(old)))
    n, item = old["compliance"]
    try:
        v = col.latest("compliance")
        c.post("an empty history has no latest entry", n > 0)
        c.post("latest entry", same(v, item(n - 1)))
    except ValueError:
        c.post("a filled history has one", n == 0)
    n, item = old["-dC"]
    try:
        v = col.latest("-dC")
        c.post("an empty history has no latest entry 2", n > 0)
        c.post("latest entry 2", same(v, item(n - 1)))
    except ValueError:
        c.post("a filled history has one 2", n == 0)
    c.reach("end")


def views(c):
    """the attribute-style views hold every history / its latest entry"""
    M = c.load(MOD)
    col, old = collection(c, M, ["compliance", "-dC"])
    for n, _ in old.values():
        c.assume(n > 0)
    o, l = col.as_object(), col.as_object_latest()
    for nm, (n, item) in old.items():
        a = getattr(o, nm)
        c.post(f"{nm}: all entries", T.t_eq(dim_term(a.dims[0]), n))
        k = c.fresh_idx(n, "k")
        c.post(f"{nm}: entry", same(a[Sym(k)], item(k)))
        c.post(f"{nm}: latest", same(getattr(l, nm), item(n - 1)))
    c.reach("end")


def driver(c, **k):
    """every iteration records one entry in every history: this iteration's
    data"""
    L = Loop(c, checks=("record",), **k)
    L.start()
    L.o.optimize()
    if L.broke:
        L.recorded()
    c.reach("end")


UNITS = [Unit(PROP, f"add_{w}_{k}", lambda c, k=k, w=w: add(c, k, w))
         for w in ("float", "array") for k in KINDS]
UNITS += [
    Unit(PROP, "add_zero_d", lambda c: add(c, "min-max-mean", "zero_d")),
    Unit(PROP, "trip_all", lambda c: round_trip(c, list(SETS))),
    Unit(PROP, "trip_named", lambda c: round_trip(
        c, ["-dC", "compliance"], fname="h.npz")),
    Unit(PROP, "trip_restart", lambda c: round_trip(
        c, ["energy", "compliance"], fresh=True)),
    Unit(PROP, "continues", continues),
    Unit(PROP, "driver_any", driver),
    Unit(PROP, "driver_one", lambda c: driver(c, tasks=1)),
    Unit(PROP, "driver_two", lambda c: driver(c, tasks=2)),
    Unit(PROP, "driver_converging", lambda c: driver(
        c, tasks=1, check_convergence=True)),
    Unit(PROP, "missing", missing),
    Unit(PROP, "refused", refused),
    Unit(PROP, "views", views),
]


# -- bounded: real files ---------------------------------------------------
def r_files(rt):
    import numpy as np
    import shutil
    import tempfile
    H = rt.get(MOD, "HistoryCollection")
    S = rt.get(MOD, "HistorySeries")
    g = rt.np_rng
    for t in range(rt.n(60, 600)):
        d = tempfile.mkdtemp(prefix="hist")
        try:
            steps = [int(x) for x in g.integers(0, 6, 4)]
            if t % 3 == 0:
                steps = [int(g.integers(1, 4))] * 4
            kinds = [str(g.choice(list(KINDS))) for _ in range(4)]
            arr = [bool(g.random() < .6) for _ in range(4)]
            size = [int(g.integers(1, 6)) for _ in range(4)]
            ylog = [bool(g.random() < .5) for _ in range(4)]
            with rt.case("files", steps=steps, kinds=kinds, arr=arr,
                         size=size):
                a = H(d)
                want = {}
                for j in range(4):
                    con = [float(j)] if j % 2 else None
                    a.add(f"N{j}", constants=con,
                          constant_names=["c"] if con else None,
                          plot_type=kinds[j], ylog=ylog[j])
                    want[f"N{j}"] = []
                for j in range(4):
                    for _ in range(steps[j]):
                        if arr[j]:
                            x = g.normal(size=size[j])
                            e = [x.min(), x.mean(), x.max()]
                            if kinds[j].endswith("std"):
                                e.append(x.std())
                        else:
                            x = e = float(g.normal())
                            if g.random() < .3:
                                x = np.array(x)
                        a.feed_data(f"N{j}", x)
                        want[f"N{j}"].append(e)

                def check(b, lbl):
                    rt.ok(f"{lbl} names", set(b.histories) == set(want))
                    for j in range(4):
                        h = b.histories[f"N{j}"]
                        rt.ok(f"{lbl} settings", h.name == f"N{j}"
                              and h.plot_type == kinds[j]
                              and h.ylog == ylog[j] and h.constants == (
                                  [float(j)] if j % 2 else None))
                        w = np.array(want[f"N{j}"], float)
                        v = np.array(h.data, float)
                        rt.ok(f"{lbl} entries", w.shape == v.shape)
                        if w.shape == v.shape:
                            rt.close(f"{lbl} values", v, w, 1e-12, 1e-14)
                        if len(w):
                            rt.close(f"{lbl} latest", np.asarray(
                                b.latest(f"N{j}")), w[-1], 1e-12, 1e-14)
                check(a, "recorded")
                if all(steps):
                    o, l = a.as_object(), a.as_object_latest()
                    for j in range(4):
                        w = np.array(want[f"N{j}"], float)
                        rt.close("view", getattr(o, f"N{j}"), w, 1e-12,
                                 1e-14)
                        rt.close("latest view", np.asarray(
                            getattr(l, f"N{j}")), w[-1], 1e-12, 1e-14)
                a.export_histories()
                check(a, "written")
                b = H(d)
                for j in range(4):
                    b.add(f"N{j}", plot_type=kinds[j], ylog=ylog[j],
                          constants=[float(j)] if j % 2 else None,
                          constant_names=["c"] if j % 2 else None)
                if sum(steps):
                    b.import_histories()
                    check(b, "loaded")
                    for j in range(4):
                        b.feed_data(f"N{j}", np.ones(3) if arr[j] else 1.5)
                        rt.ok("goes on", len(
                            b.histories[f"N{j}"].data) == steps[j] + 1)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    rt.ok("series", S("x").data == [])


def r_updates(rt):
    """what the update rules record: their own multiplier, volume error,
    gradients and residual of this very update, once"""
    import numpy as np
    from rt import oc, opt
    from props.P08 import oc_concrete
    from props.P10 import concrete_cfg
    B = "sktopt.core.optimizers."
    for k in range(rt.n(120, 1500)):
        g = rt.np_rng
        q = oc.case(g)
        filt = oc.rand_filter(g, q["N"])
        log = bool(k % 2)
        pct = None if g.random() < .5 else 90.0
        x, V = None, float(q["vol"].sum())
        if log:
            cfg = concrete_cfg(q, g)
            o = opt.make_log(rt.get(B + "logmoc", "LogMOC_Optimizer"), q,
                             filt, cfg, g)
        else:
            cfg = oc_concrete(q)
            o = opt.make(rt.get(B + "oc", "OC_Optimizer"), q, filt, cfg)
        with rt.case("updates", seconds=20, log=log, percentile=pct, cfg=cfg,
                     **q):
            for it in range(1, 4):
                o.recorder.fed.clear()
                dC = q["dC"] * g.uniform(.5, 2, q["d"])
                rs0 = getattr(o, "running_scale", 0.0)
                if log:
                    r = opt.log_refs(q, cfg, it, pct, dC, filt, o._state,
                                     o.lambda_v, rs0)
                    old, x = opt.update(o, q, it, pct, x, dC)
                    want = {"lambda_v": r.lam, "constraint_coeff": r.coeff,
                            "vol_error": r.ve, "-dC": -r.dC,
                            "dV_chain": np.abs(r.dV),
                            "volume_chain_scale": r.vs, "dL": r.dL,
                            "kkt_residual": opt.kkt(q, old, r.dL)}
                    if r.noisy:
                        want = {n: w if n not in ("dL", "kkt_residual")
                                else None for n, w in want.items()}
                else:
                    sc, rs = opt.oc_refs(q, cfg, it, pct, dC, rs0)
                    h = dict(q, dC=sc, rho_full=o._state.rho.copy())
                    old, x = opt.update(o, q, it, pct, x, dC)
                    lam = float(np.ravel(o.recorder.fed["lmid"])[-1])
                    rt.close("lmid: the multiplier of the design", x,
                             oc.step(h, old, lam), 1e-7, 1e-9)
                    # (the residual also depends on the unprojected volume
                    # gradient of the object: its size is not compared)
                    want = {"lmid": None, "kkt_residual": None,
                            "vol_error": oc.verr(h, old, lam, filt, V),
                            "-dC": -sc}
                fed = o.recorder.fed
                for n, w in want.items():
                    if rt.ok(f"{n}: one entry", len(fed.get(n, ())) == 1) \
                            and w is not None:
                        rt.close(f"{n}: this update's value", fed[n][0],
                                 np.asarray(w), 1e-6, 1e-8)
                rt.ok("nothing else", set(fed) == set(want))
                if "kkt_residual" in fed:
                    rt.close("residual recorded", fed["kkt_residual"][-1],
                             np.asarray(o.kkt_residual), 1e-12, 0)
                o._state.rho[q["design"]] = x
                o._state.rho_filtered = filt.forward(o._state.rho)


class watch:
    """what a history should hold, seen from outside the recorder"""

    def __init__(self, o, tsk, np):
        self.o, self.np, self.des = o, np, tsk.design_elements
        self.want, self.n = {}, tsk.n_tasks
        for name, key in (("objectives_multi_load", "compliance"),
                          ("energy_multi_load", "energy")):
            fn = getattr(o.fem, name, None)
            if fn is not None:
                setattr(o.fem, name, self.spy(fn, key))

    def put(self, name, v):
        self.want.setdefault(name, []).append(v)

    def stats(self, v):
        return [v.min(), v.mean(), v.max(), v.std()]

    def spy(self, fn, key):
        def call(*a, **k):
            r = fn(*a, **k)
            if key == "compliance":
                if "force_scale" in k:
                    self.put("neumann_scale", float(k["force_scale"]))
                self.put(key, float(self.np.mean(r)))
            else:
                self.put(key, self.stats(self.np.mean(r, axis=1)))
            return r
        return call

    def pre(self, it, x, rp, dC, u, sem, sr, *a, **k):
        np = self.np
        self.put("rho_projected", self.stats(rp[self.des]))
        m = np.abs(u).max(axis=0)
        self.put("u_max", float(m[0]) if self.n == 1 else self.stats(m))
        self.x = x.copy()

    def post(self, it, x, rp, dC, u, sem, sr, *a, **k):
        self.put("scaling_rate", self.stats(sr))
        self.put("rho_change_max", float(self.np.abs(x - self.x).max()))


def r_runs(rt):
    """real runs: every registered history has one entry per iteration,
    in memory, in the file and after a restart"""
    import numpy as np
    import shutil
    from rt import driver as D
    D.quiet()
    H = rt.get(MOD, "HistoryCollection")
    for k in range(rt.n(6, 40)):
        g = rt.np_rng
        tsk = D.domain_ok(rt, g)
        kind = ["oc", "log"][k % 2]
        n = int(g.integers(1, 5))
        with rt.case("runs", seconds=60, kind=kind, iters=n,
                     loads=tsk.n_tasks):
            d = D.scratch()
            try:
                S = rt.get("sktopt.tools", "SchedulerConfig")
                o = D.optimizer(rt, tsk, d, kind, max_iters=n,
                                record_times=1, neumann_scale=S.step_to_one(
                                    num_steps=2))
                seen = watch(o, tsk, np)
                D.spy(o, seen.pre, seen.post)
                D.run(o)
                hs = o.recorder.histories
                for nm, w in seen.want.items():
                    w = np.array(w, float)
                    v = np.array(hs[nm].data, float)
                    if rt.ok(f"{nm}: shape", v.shape == w.shape):
                        rt.close(f"{nm}: this iteration's value", v, w,
                                 1e-9, 1e-12)
                for nm, h in hs.items():
                    rt.ok(f"{nm}: one entry per iteration",
                          len(h.data) == n, f"{len(h.data)} of {n}")
                c = H(d)
                for nm, h in hs.items():
                    c.add(nm, plot_type=h.plot_type, ylog=h.ylog)
                c.import_histories()
                for nm, h in hs.items():
                    a = np.array(h.data, float)
                    b = np.array(c.histories[nm].data, float)
                    rt.ok(f"{nm}: in the file", a.shape == b.shape
                          and np.allclose(a, b, rtol=1e-12, atol=0,
                                          equal_nan=True))
            finally:
                shutil.rmtree(d, ignore_errors=True)


RUNTIME = [("files", r_files, 200), ("updates", r_updates, 200),
           ("runs", r_runs, 300)]
