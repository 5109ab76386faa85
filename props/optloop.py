"""the optimization driver run on contract stubs of its collaborators (finite
elements, filter, projection, schedules, recorder, update rule)"""
import contextlib
import types
import z3
from vpy import terms as T, npshim
from vpy.contracts import Stub
from vpy.engine import Sym, SymArray, dim_term
from vpy.loops import Opaque

MOD = "sktopt.core.optimizers.common_density"
OPAQUE = {"last_iter", "compliance", "rho_change_max", "u_max",
          "kkt_residual", "vol_error"}
R, I = T.R, T.I


def fun(name, *sorts):
    return z3.Function(name, *sorts)


GENERIC = ("iter_num", "rho_design_eles", "rho_projected",
           "dC_drho_design_eles", "u_dofs", "energy_mean|strain_energy_mean",
           "scaling_rate", "move_limit", "eta", "beta", "rho_clip_lower",
           "rho_clip_upper", "percentile", "elements_volume_design",
           "elements_volume_design_sum", "vol_frac")


def is_ckpt(path, it, d="out"):
    """path names the checkpoint of iteration `it` (six digits)"""
    k = it if isinstance(it, Sym) else Sym(it)
    return str(path) in {f"{d}/data/{n}-rho.npz" for n in (
        str(k).zfill(6), f"{k:06d}", f"{k:06}", "%06d" % k
        if isinstance(k, int) else str(k).rjust(6, "0"))}


class Loop:
    """symbolic optimization problem plus the contracts of its parts"""

    def __init__(self, c, design_dirichlet=False, custom=False, tasks=None,
                 check_convergence=False, sensitivity_filter=False,
                 checks=(), max_iters=None, loads=True):
        self.c = c
        self.broke = False
        M = self.M = c.load(MOD)
        self.custom, self.checks = custom, set(checks)
        N = self.N = c.int("N", 1)
        Tn = self.T = tasks if isinstance(tasks, int) else c.int("T", 1)
        self.tn = z3.IntVal(Tn) if isinstance(Tn, int) else Tn.t
        d = self.d = c.int("nd", 1)
        c.assume(d.t <= N.t)
        design = self.design = c.index_array("design", N, d)
        fixed = c.index_array("fixed", N, c.int("nf", 0))
        neu = c.index_array("neumann", N, c.int("nn", 0)) if loads else None
        dn = c.index_array("dirneu", N, c.int("ndn", 0), sorted_=False)
        mD, mF, mN, mB = (c.mem(a) if a is not None else
                          (lambda i: z3.BoolVal(False))
                          for a in (design, fixed, neu, dn))
        self.mD, self.mN, self.mB = mD, mN, mB
        # element partition (established by the task constructors, P17)
        c.fact(lambda i: z3.And(
            z3.Or(mD(i), mF(i), z3.BoolVal(False) if design_dirichlet
                  else mB(i)),
            z3.Implies(mD(i), z3.And(z3.Not(mF(i)), z3.Not(mN(i)))),
            z3.Implies(mD(i), z3.Not(mB(i))) if not design_dirichlet
            else z3.BoolVal(True)), (N.t,))
        rmin = self.rmin = c.real("rho_min", lo_open=0)
        rmax = self.rmax = c.real("rho_max", hi=1)
        c.assume(rmin.t < rmax.t)
        self.maxit = c.int("max_iters", 1) if max_iters is None else max_iters
        self.be = c.real("beta_eta", 0, 1)
        self.emin = c.real("E_min_coeff", lo_open=0)
        self.mat = c.real("material", lo_open=0)
        self.vf0 = c.real("vf_init", 0, 1)
        self.cfg = Stub(
            dst_path="out", max_iters=self.maxit,
            record_times=c.int("record_times", 1), beta_eta=self.be,
            E_min_coeff=self.emin, rho_min=rmin, rho_max=rmax,
            restart=False, restart_from=-1, export_img=False,
            design_dirichlet=design_dirichlet,
            sensitivity_filter=sensitivity_filter, scaling=False,
            check_convergence=check_convergence,
            tol_rho_change=c.real("tol_rho", 0),
            tol_kkt_residual=c.real("tol_kkt", 0), interpolation="SIMP",
            vol_frac=Stub(init_value=self.vf0, target_value=self.vf0),
            filter_radius=Stub(init_value=c.real("fr0", lo_open=0),
                               target_value=c.real("fr1", lo_open=0),
                               num_steps=3),
            vtu_path=lambda i: "vtu", image_path=lambda i, p: None)
        ev = c.array("elements_volume", N, lo_open=0)
        self.vol = ev
        self.tsk = Stub(
            all_elements=npshim.arange(N), design_elements=design,
            fixed_elements=fixed, neumann_elements=neu,
            dirichlet_neumann_elements=dn, n_tasks=Tn, material_coef=self.mat,
            basis=Stub(N=c.int("ndof", 1)), elements_volume=ev, mesh=Stub(),
            design_mask=None,
            export_analysis_condition_on_mesh=lambda p: None)
        self.log = []
        self.saved = []
        self.stage = 0
        self.task = None
        self._patch()
        self._object()
        c.ghost["attr_opaque"] = OPAQUE
        c.ghost["no_sum_sign"] = True
        c.ghost["inst_rounds"] = 1
        c.ghost["light_feasible"] = True
        c.ghost["no_transcendental"] = True
        c.ghost["savez"] = self._save
        c.ghost["array_inv"] = self._inv
        c.ghost.setdefault("loop_hooks", []).append(self._hook)
        self.heads = []
        self.next = self.first = None
        self.usnap = None

    # -- obligations by topic ----------------------------------------------
    def post(self, tag, name, cond):
        if any(t in self.checks for t in tag.split()):
            self.c.post(name, cond)

    def same(self, tag, name, a, f):
        """array a equals f(i) everywhere"""
        if any(t in self.checks for t in tag.split()):
            self.c.forall(name, a, lambda *i: i[-1] == f(*i[:-1]))

    def each(self, tag, name, a, pred):
        if any(t in self.checks for t in tag.split()):
            self.c.forall(name, a, pred)

    def sched(self, key):
        return fun("sched_" + key, I, R)(self.it)

    def arg(self, tag, name, v, key):
        self.post(tag, name, T.t_eq(T.lift(v), self.sched(key)))

    # -- ghost iteration counter ------------------------------------------
    def _hook(self, when, cut, env):
        if cut.rng is None:
            return
        if when == "head":
            if not self.heads:
                self.heads.append(cut.key)
            if self.heads[0] == cut.key:
                self.post("count", "iterations continue where the previous "
                          "run stopped", T.t_eq(cut.rng.lo, self.next))
                self.first = cut.rng.lo
                self.next = cut.k
                self.it = cut.k
                self.updates = 0
                self.usnap = None
                self.limit = cut.rng.hi
                self.broke = cut.mode == "iter"
                self.saved = []
                self.rec.fed = {}
                self.rec.times = {}
                self.task = None
            else:
                self.task = cut.k
                if cut.mode == "iter":
                    self.post("chain", "load cases start at the first",
                              T.t_eq(cut.rng.lo, z3.IntVal(0)))
                    self.post("chain", "every load case contributes",
                              T.t_eq(cut.rng.hi, self.tn))
        elif when == "back" and cut.key == self.heads[0]:
            self.post("count", "one update per iteration",
                      z3.BoolVal(self.updates == 1))
            self.recorded()
            if self.cfg.check_convergence:
                self.post("count", "a converged run stops",
                          z3.Not(self.settled()))
            self.post("count", "iteration count advances by one",
                      T.t_eq(self.next, z3.simplify(cut.k + 1)))
            if not self.saved:
                self.post("ckpt", "the last iteration of a run is saved",
                          z3.simplify(cut.k + 1) < self.limit)

    def _inv(self, mods):
        mD, rmin, rmax = self.mD, self.rmin.t, self.rmax.t
        S = self.S
        for b in mods:
            if len(b.shape) != 1 or b.dtype != "real" or not z3.simplify(
                    dim_term(b.shape[0])).eq(z3.simplify(self.N.t)):
                continue
            if "frame" in self.checks:
                yield "solid outside the design", b, \
                    lambda f, k, i: z3.Implies(z3.Not(mD(i)), f((i,)) == 1)
                yield "design inside the bounds", b, \
                    lambda f, k, i: z3.Implies(mD(i), z3.And(
                        f((i,)) >= rmin, f((i,)) <= rmax))
            if "chain" in self.checks:
                yield "sum over load cases", b, lambda f, k, i: \
                    f((i,)) == S(k, i)
                yield "or their mean so far", b, lambda f, k, i: \
                    f((i,)) * z3.ToReal(self.tn) == S(k, i)

    # -- collaborators -------------------------------------------------------
    def _patch(self):
        c, M, L = self.c, self.M, self
        self.Hf, self.dHf = fun("H", I, R), fun("dH", I, R)
        self.Ff = fun("filtered", I, R)
        self.G = fun("gradfilt", I, I, R)
        self.S = fun("chain_sum", I, I, R)
        self.DC = fun("dC", I, I, R)
        self.En = fun("energy", I, I, R)
        self.Obj = fun("objective", I, R)
        if "chain" in self.checks:
            c.fact(lambda i: self.S(z3.IntVal(0), i) == 0, (self.N.t,))
            c.fact(lambda k, i: self.S(k + 1, i) == self.S(k, i) +
                   self.G(k, i), (self.tn, self.N.t))

        def heav(x, beta, eta, out=None):
            L.arg("chain", "projection sharpness", beta, "beta")
            L.post("chain", "projection threshold",
                   T.t_eq(T.lift(eta), L.be.t))
            L.same("chain", "projection of the filtered density", x, L.Ff)
            r = SymArray(x.dims, lambda ix: L.Hf(*ix), "real", "H")
            c.fact(lambda i: z3.And(L.Hf(i) >= 0, L.Hf(i) <= 1), (L.N.t,))
            if out is None:
                out = x
            npshim.assign(out, r)

        def dheav(x, beta, eta, out=None):
            L.arg("chain", "projection derivative sharpness", beta, "beta")
            L.post("chain", "projection derivative threshold",
                   T.t_eq(T.lift(eta), L.be.t))
            L.same("chain", "projection derivative at the filtered density",
                   x, L.Ff)
            r = SymArray(x.dims, lambda ix: L.dHf(*ix), "real", "dH")
            if out is None:
                out = x
            npshim.assign(out, r)
        M.projection = Stub(
            heaviside_projection_inplace=heav,
            heaviside_projection_derivative_inplace=dheav)
        nop = lambda *a, **k: None

        def last(*a, **k):
            L.log.append("histo")
        M.visualization = Stub(export_mesh_with_info=nop,
                               write_mesh_with_info_as_image=nop,
                               rho_histo_plot=last)
        M.visualization_mesh = Stub(export_submesh=nop)

        def dc(rho, energy, E0, Emin, p, *a, **k):
            L.same("chain", "sensitivity at the projected density", rho,
                   L.Hf)
            k_ = L.task_term()
            L.same("chain", "sensitivity uses this load case's energy",
                   energy, lambda i: L.En(i, k_))
            L.post("chain", "sensitivity material", z3.And(
                T.t_eq(T.lift(E0), L.mat.t),
                T.t_eq(T.lift(Emin), L.mat.t * L.emin.t)))
            L.arg("chain", "sensitivity penalty", p, "p")
            return SymArray(rho.dims, lambda ix: L.DC(k_, *ix), "real", "dC")
        M.interpolation_funcs = lambda cfg: [None, dc]

    def recorded(self):
        """one entry per iteration and history, with this iteration's data"""
        if "record" not in self.checks:
            return
        c, N, d = self.c, self.N.t, self.d.t
        fed, idx = self.rec.fed, self.design.snap()
        names = ("rho_change_max", "rho_projected", "energy", "compliance",
                 "scaling_rate", "u_max", "neumann_scale")
        c.post("every history gets one entry", z3.BoolVal(all(
            self.rec.times.get(n) == 1 for n in names)))
        if not all(n in fed for n in names) or self.updates != 1:
            return

        def top(name, v, f, n):
            """v is the largest of f(0..n-1)"""
            v = T.lift(v)
            k = c.fresh_idx(n, "r")
            c.post(name + ": not exceeded", f(k) <= v)
            b = c.fresh("bound", R)
            c.fact(lambda i: f(i) <= b, (n,))
            c.post(name + ": attained", v <= b)
        x0, up = self.x0, fun("updated", I, R)
        top("recorded density change", fed["rho_change_max"],
            lambda i: z3.If(up(i) >= x0((i,)), up(i) - x0((i,)),
                            x0((i,)) - up(i)), d)
        a = fed["rho_projected"]
        c.post("recorded densities: the design elements", T.t_eq(
            dim_term(a.dims[0]), d))
        c.forall("recorded densities are the projected ones", a,
                 lambda i, v: v == self.Hf(idx((i,))))
        En = self.En
        m = npshim.mean(SymArray((N, self.T if isinstance(self.T, int)
                                  else self.tn), lambda ix: En(*ix), "real",
                                 "En"), axis=1).snap()
        a = fed["energy"]
        c.post("recorded energies: every element", T.t_eq(
            dim_term(a.dims[0]), N))
        c.forall("recorded energies are the mean over load cases", a,
                 lambda i, v: v == m((i,)))
        Ob = self.Obj
        m = npshim.mean(SymArray((self.T if isinstance(self.T, int)
                                  else self.tn,), lambda ix: Ob(*ix), "real",
                                 "Ob"))
        c.post("recorded objective is the mean over load cases", T.t_eq(
            T.lift(fed["compliance"]), T.lift(m)))
        sr = self.sr
        c.forall("recorded scaling rates are those of the update",
                 fed["scaling_rate"], lambda i, v: v == sr((i,)))
        c.post("recorded load factor", T.t_eq(
            T.lift(fed["neumann_scale"]), self.sched("neumann_scale")))
        if isinstance(self.T, int):
            us = fed["u_max"]
            if self.T > 1 and isinstance(us, Sym):
                c.post("recorded displacements: one per load case",
                       z3.BoolVal(False))
                return
            us = [us] if self.T == 1 else [us[t] for t in range(self.T)]
            f, n = self.usnap, dim_term(self.tsk.basis.N)
            for t, v in enumerate(us):
                t = z3.IntVal(t)
                top(f"recorded largest displacement {t}", v, lambda i, t=t:
                    z3.If(f((i, t)) >= 0, f((i, t)), -f((i, t))), n)

    def settled(self):
        """both convergence measures below their tolerances"""
        k = T.lift(self.o.kkt_residual)
        d = T.lift(self.rec.fed["rho_change_max"])
        tk = self.cfg.tol_kkt_residual.t
        return z3.And(d < self.cfg.tol_rho_change.t, k < tk, -k < tk)

    def accounting(self, start, steps):
        """after a call that was to run `steps` iterations from `start`"""
        o = self.o
        end = z3.simplify(T.lift(self.maxit) + 1)
        want = end if steps is None else z3.If(
            start + steps < end, start + steps, end)
        want = z3.If(start < end, want, start)
        self.post("count", "counter stands after the last iteration",
                  T.t_eq(T.lift(o._iter_next), self.next))
        if self.broke:
            self.post("count", "stops early only when converged",
                      self.settled() if self.cfg.check_convergence
                      else z3.BoolVal(False))
            self.post("count", "not more iterations than asked",
                      T.lift(o._iter_next) <= want)
        else:
            self.post("count", "exactly the asked number of iterations",
                      T.t_eq(T.lift(o._iter_next), want))
        fin = z3.BoolVal(o._completed is True)
        self.post("count", "complete exactly at the end or on convergence",
                  fin == z3.Or(self.next >= end, z3.BoolVal(self.broke)))
        self.post("count", "results written once, when complete", z3.BoolVal(
            self.log.count("export_histories") == int(bool(o._completed))))

    def task_term(self):
        if isinstance(self.T, int) and self.task is None:
            return z3.IntVal(self.ntask)
        return self.task

    def _object(self):
        c, M, L = self.c, self.M, self
        cols = L.T if isinstance(L.T, int) else L.tn

        class Filter:
            def __init__(self):
                self.radius = c.real("radius", lo_open=0)

            def update_radius(self, r):
                self.radius = r

            def forward(self, x):
                L.post("chain", "current filter radius", T.t_eq(
                    T.lift(self.radius), L.sched("filter_radius")))
                if L.usnap is not None:
                    # optional sensitivity filter
                    L.same("chain", "sensitivity filter input", x, lambda i:
                           L.S(L.tn, i) / z3.ToReal(L.tn))
                    return SymArray(x.dims, lambda ix: fun(
                        "sens_filtered", I, R)(*ix), "real", "sf")
                r = L.rho.snap()
                L.same("chain count", "current density is filtered", x,
                       lambda i: r((i,)))
                L.each("frame", "solid outside the design when filtering",
                       x, lambda i, v: z3.Implies(z3.Not(L.mD(i)), v == 1))
                return SymArray(x.dims, lambda ix: L.Ff(*ix), "real", "F")

            def gradient(self, x):
                k = L.task_term()
                DC, dH = L.DC, L.dHf
                L.same("chain", "chain rule through the projection", x,
                       lambda i: DC(k, i) * dH(i))
                if isinstance(L.T, int):
                    L.ntask += 1
                G = L.G
                return SymArray(x.dims, lambda ix: G(k, *ix), "real", "G")

        class Fem:
            def objectives_multi_load(self, rho, p, u_dofs, timer=None,
                                      force_scale=1.0, **k):
                if k:
                    raise T.Unsupported("objective options")
                L.same("chain", "state solved at the projected density", rho,
                       L.Hf)
                L.arg("chain", "state penalty", p, "p")
                L.arg("chain", "load factor", force_scale, "neumann_scale")
                L.ntask = 0
                npshim.assign(u_dofs, npshim.havoc_array(
                    u_dofs.dims, "real", "u"))
                L.usnap = u_dofs.snap()
                return SymArray((L.T if isinstance(L.T, int) else L.T.t,),
                                lambda ix: L.Obj(*ix), "real", "obj")

            def energy_multi_load(self, rho, p, u_dofs, *a, **k):
                if a or k:
                    raise T.Unsupported("energy options")
                L.same("chain", "energy at the projected density", rho, L.Hf)
                L.arg("chain", "energy penalty", p, "p")
                L.fields(u_dofs)
                return SymArray((L.N.t, cols), lambda ix: L.En(*ix), "real",
                                "energy")
        if self.custom:
            def sens(self_, rho, p, u_dofs):
                L.same("chain", "sensitivity at the projected density", rho,
                       L.Hf)
                L.arg("chain", "sensitivity penalty", p, "p")
                L.fields(u_dofs)
                return SymArray((L.N.t, cols), lambda ix: L.DC(
                    ix[1], ix[0]), "real", "custom")
            Fem.compliance_sensitivity_multi_load = sens

        class Sched:
            def values_as_list(self, it, names, export_log=True,
                               precision=None):
                L.post("chain count", "schedules evaluated at this iteration",
                       T.t_eq(T.lift(it), L.it))
                return [Sym(fun("sched_" + n, I, R)(T.lift(it)))
                        for n in names]

        class Rec:
            def __init__(self):
                self.fed, self.times = {}, {}

            def feed_data(self, k, v):
                self.fed[k] = v.copy() if isinstance(v, SymArray) else v
                self.times[k] = self.times.get(k, 0) + 1

            def latest(self, k):
                return c.real("latest_" + k)

            def import_histories(self, *a):
                L.log.append("import")

            def export_histories(self, *a, **k):
                L.log.append("export_histories")

            def print(self):
                pass
            export_progress = print

        base = M.DensityMethod
        import inspect
        OC = c.load("sktopt.core.optimizers.oc").OC_Optimizer
        pars = list(inspect.signature(
            getattr(OC.rho_update, "vpy_real", OC.rho_update)).parameters)[1:]

        def rho_update(self, *a, **k):
            k = dict(zip(pars, a), **k)
            got = []
            for n in GENERIC:
                hit = [q for q in n.split("|") if q in k]
                if not hit:
                    raise T.Unsupported(f"update rule parameter {n}")
                got.append(k[hit[0]])
            L.update(*got)
        cls = type("Driver", (base,), {"rho_update": rho_update,
                                       "__module__": MOD})
        o = self.o = cls.__new__(cls)
        o.cfg, o.tsk = self.cfg, self.tsk
        o.timer = Stub(section=lambda n: contextlib.nullcontext(),
                       stats=lambda: {}, report=lambda **k: None)
        o.fem, o.filter, o.schedulers = Fem(), Filter(), Sched()
        o.recorder = self.rec = Rec()
        o._schedulers_initialized = True
        o._rho_e_buffer = o._dC_raw_buffer = None
        o._dV_drho_design = None
        o.kkt_residual = None
        o._state = o._iter_next = o._iter_end = None
        o._completed = False

    def fields(self, u):
        f = self.usnap
        if f is None:
            self.post("chain", "state solved before it is used",
                      z3.BoolVal(False))
            return
        self.same("chain", "state fields of this iteration", u,
                  lambda i, j: f((i, j)))

    def _save(self, path, **arrays):
        c, L = self.c, self
        L.saved.append(path)
        if "ckpt" not in L.checks:
            return
        c.post("checkpoint file name", z3.BoolVal(
            is_ckpt(path, L.it)))
        c.post("checkpoint content", z3.BoolVal(
            list(arrays) == ["rho_design_elements"]))
        a = arrays.get("rho_design_elements")
        idx, r = L.design.snap(), L.rho.snap()
        if a is not None:
            c.post("one saved density per design element", T.t_eq(
                dim_term(a.dims[0]), L.d.t))
            L.same("ckpt", "the checkpoint holds the design", a,
                   lambda i: r((idx((i,)),)))
        c.post("saved after the update", z3.BoolVal(L.updates == 1))

    def update(self, it, x, proj, dC, u, energy, sr, ml, eta, beta, lo, hi,
               pct, vol, V, vf):
        """contract of the update rule (P08, P10): the design moves inside
        its box; nothing else is written"""
        c, L = self.c, self
        L.updates += 1
        L.x0 = x.snap()
        L.post("count", "update of this iteration",
               T.t_eq(T.lift(it), L.it))
        for n, v in (("move_limit", ml), ("eta", eta), ("beta", beta),
                     ("percentile", pct), ("vol_frac", vf)):
            L.arg("chain", "update parameter " + n, v, n)
        idx = L.design.snap()
        r = L.rho.snap()
        L.same("chain count", "update starts from the current design", x,
               lambda i: r((idx((i,)),)))
        L.same("chain", "update sees the projected density", proj, L.Hf)
        ev = L.vol.snap()
        L.same("chain", "update weighs by element volume", vol,
               lambda i: ev((idx((i,)),)))
        if "chain" in L.checks:
            c.post("total design volume", T.t_eq(T.lift(V), T.lift(
                npshim.np_sum(vol))))
        if isinstance(L.T, int):
            L.post("chain", "every load case contributes",
                   z3.BoolVal(L.ntask == L.T))
            tot = lambda i: sum((L.G(z3.IntVal(k), i) for k in range(L.T)),
                                z3.RealVal(0)) / L.T
        else:
            tot = lambda i: L.S(L.tn, i) / z3.ToReal(L.tn)
        if L.cfg.sensitivity_filter:
            tot = fun("sens_filtered", I, R)
        L.same("chain", "design gradient is the mean chain rule over load "
               "cases", dC, lambda i: tot(idx((i,))))
        L.fields(u)
        L.each("frame", "design inside the bounds", x, lambda i, v: z3.And(
            v >= L.rmin.t, v <= L.rmax.t))
        st = L.o._state
        L.same("chain", "state keeps the filtered density", st.rho_filtered,
               L.Ff)
        for w in (sr, lo, hi):
            npshim.assign(w, npshim.havoc_array(w.dims, "real", "work"))
        L.sr = sr.snap()
        f = fun("updated", I, R)
        npshim.assign(x, SymArray(x.dims, lambda ix: f(*ix), "real", "upd"))
        if "frame" in L.checks:
            c.fact(lambda i: z3.And(f(i) >= L.rmin.t, f(i) <= L.rmax.t),
                   (L.d.t,))
        L.o.kkt_residual = c.real("kkt")
        L.next = z3.simplify(L.it + 1)

    # -- entry -----------------------------------------------------------
    @property
    def rho(self):
        return self.o._state.rho

    def start(self):
        self.o._ensure_state_initialized()
        self.next = z3.IntVal(1)
        self.invariant("initially")

    def restarting(self, latest=False):
        """configured to restart from a checkpoint this optimizer wrote: the
        design densities of some field inside the bounds (P13); the listing
        of the checkpoint folder is a contract stub"""
        c = self.c
        at = self.at = c.int("from", 1)
        c.assume(at.t <= T.lift(self.maxit))
        self.cfg.restart = True
        self.cfg.restart_from = -1 if latest else at
        saved = self.loaded = c.array("saved", self.d)
        s = saved.snap()
        c.fact(lambda i: z3.And(s((i,)) >= self.rmin.t,
                                s((i,)) <= self.rmax.t), (self.d.t,))
        self.asked = []

        def np_load(path, *a, **kw):
            self.asked.append(path)
            return {"rho_design_elements": saved}
        c.ghost["np_load"] = np_load
        d = self.cfg.dst_path

        def find(folder):
            c.post("checkpoint folder", z3.BoolVal(folder == f"{d}/data"))
            return at, f"{d}/data/{at:06d}-rho.npz"
        if latest:
            self.M.misc = Stub(find_latest_iter_file=find)
        self.next = z3.simplify(at.t + 1)
        return self.next

    def invariant(self, when):
        self.each("frame", f"{when}: solid outside the design", self.rho,
                  lambda i, v: z3.Implies(z3.Not(self.mD(i)), v == 1))
        self.each("frame", f"{when}: design inside the bounds", self.rho,
                  lambda i, v: z3.Implies(self.mD(i), z3.And(
                      v >= self.rmin.t, v <= self.rmax.t)))

    def resume(self):
        """a later call: any state the previous one may have left"""
        c = self.c
        st = self.o._state
        for n, v in list(vars(st).items()):
            if isinstance(v, SymArray) and n not in (
                    "elements_volume_design",):
                npshim.assign(v, npshim.havoc_array(v.dims, v.kind, n))
            elif n in OPAQUE:
                setattr(st, n, Opaque(n))
        if "frame" in self.checks:
            r = st.rho.snap()
            c.fact(lambda i: z3.And(
                z3.Implies(z3.Not(self.mD(i)), r((i,)) == 1),
                z3.Implies(self.mD(i), z3.And(r((i,)) >= self.rmin.t,
                                              r((i,)) <= self.rmax.t))),
                (self.N.t,))
        k = c.int("resume_at", 1)
        c.assume(k.t <= T.lift(self.maxit) + 1)
        self.o._iter_next = k
        self.next = k.t
        return k
