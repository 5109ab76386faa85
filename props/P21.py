"""Configurations: what is written to a results folder is what is read back;
keyword collections set exactly the options they name."""
import z3
from vpy import terms as T
from vpy.terms import Unsupported
from vpy.engine import Sym
from vpy.unit import Unit

PROP = "P21"
MOD = "sktopt.core.optimizers.common_density"
CLS = {"OC": ("sktopt.core.optimizers.oc", "OC_Config"),
       "LogMOC": ("sktopt.core.optimizers.logmoc", "LogMOC_Config"),
       "base": (MOD, "DensityMethodConfig")}
SCHED = ("p", "vol_frac", "beta", "filter_radius", "move_limit", "percentile",
         "neumann_scale")


def plain(x):
    """what a JSON file can hold of x (assumed: json keeps plain data)"""
    if isinstance(x, dict):
        if not all(isinstance(k, str) for k in x):
            raise TypeError("key")
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None or isinstance(x, (str, bool, int, float, Sym)):
        return x
    raise TypeError(f"Object of type {type(x)} is not JSON serializable")


class Files:
    """text files holding one JSON document each"""

    def __init__(self, c, mods):
        import json
        self.docs, self.path = {}, None

        def open_(path, mode="r", *a, **k):
            if mode.startswith("r") and path not in self.docs:
                raise FileNotFoundError(path)
            return Handle(path, mode)
        open_.vpy_contract = True

        class Handle:
            def __init__(self, path, mode):
                self.path, self.mode = path, mode

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self):
                pass

            def write(self, text):
                docs[self.path] = plain(text.doc)

            def read(self):
                return Text(docs[self.path])
        docs = self.docs

        class Text(str):
            def __new__(cls, doc):
                t = str.__new__(cls, "{document}")
                t.doc = plain(doc)
                return t

        def dump(obj, f, **k):
            if not f.mode.startswith("w"):
                raise OSError("not writable")
            docs[f.path] = plain(obj)

        def load(f, **k):
            return plain(docs[f.path])

        def dumps(obj, **k):
            return Text(obj)

        def loads(text, **k):
            return plain(text.doc)
        for g in (dump, load, dumps, loads):
            g.vpy_contract = True
        for m in mods:
            if not hasattr(m, "open"):
                m.open = open
            c.patch(m, "open", open_)
        c.patch(json, "dump", dump)
        c.patch(json, "load", load)
        c.patch(json, "dumps", dumps)
        c.patch(json, "loads", loads)


def same(c, name, a, b):
    """same type and value, schedules and settings field by field"""
    if isinstance(a, Sym) or isinstance(b, Sym):
        ok = isinstance(a, (Sym, int, float, bool)) and \
            isinstance(b, (Sym, int, float, bool))
        if not ok:
            c.post(name, z3.BoolVal(False))
            return
        x, y = T.lift(a), T.lift(b)
        if z3.is_bool(x) != z3.is_bool(y):
            c.post(name, z3.BoolVal(False))
        elif z3.is_bool(x):
            c.post(name, x == y)
        else:
            c.post(name, T.to_real(x) == T.to_real(y))
        return
    if hasattr(a, "__dataclass_fields__"):
        c.post(f"{name}: kind", z3.BoolVal(type(a) is type(b)))
        if type(a) is type(b):
            for f in a.__dataclass_fields__:
                same(c, f"{name}.{f}", getattr(a, f), getattr(b, f))
        return
    c.post(name, z3.BoolVal(type(a) is type(b) and a == b))


def values(c, M, cls, kinds, solver, floats=True):
    """symbolic value for every option; schedules of the given kinds"""
    S = M.tools.SchedulerConfig
    out = {}
    for n, f in cls.__dataclass_fields__.items():
        d = f.default
        if n in SCHED:
            continue
        if isinstance(d, bool):
            out[n] = c.bool(n)
        elif isinstance(d, int):
            out[n] = c.int(n)
        elif isinstance(d, float):
            out[n] = c.real(n)
    if "volume_chain_gain_under" in cls.__dataclass_fields__ and floats:
        out["volume_chain_gain_under"] = c.real("gain_under")
    for i, n in enumerate(SCHED + ("eta",)):
        if n not in cls.__dataclass_fields__ or (n == "eta" and
                                                 "eta" in out and not floats):
            continue
        k = kinds[i % len(kinds)]
        g = (lambda x, n=n: c.real(f"{n}_{x}"))
        ns, tot = c.int(f"{n}_num_steps", 1), c.int(f"{n}_total", 1)
        out[n] = {
            "constant": lambda: S.constant(n, g("target")),
            "one": lambda: S.constant_one(n),
            "none": S.none,
            "step": lambda: S.step(n, g("init"), g("target"), ns, tot),
            "accel": lambda: S.step_accelerating(
                n, g("init"), g("target"), ns, tot, g("curvature")),
            "decel": lambda: S.step_decelerating(
                n, g("init"), g("target"), ns, None, g("curvature")),
            "to_one": lambda: S.step_to_one(n, ns, tot),
            "saw": lambda: S.sawtooth_decay(n, g("init"), g("target"), tot,
                                            ns),
        }[k]()
    if not floats:
        out["filter_type"] = "spacial"
        if "dual_update" in cls.__dataclass_fields__:
            out["dual_update"] = "augmented"
        else:
            out["interpolation"] = "RAMP"
    out["dst_path"] = "results"
    out["solver_option"] = solver
    return out


def round_trip(c, which, kinds, solver, floats=True):
    """every option, schedule and solver setting survives the file"""
    M = c.load(MOD)
    mod, nm = CLS[which]
    cls = getattr(c.load(mod), nm)
    files = Files(c, [M])
    kw = values(c, M, cls, kinds, solver, floats)
    if floats and solver.startswith("petsc"):
        direct = solver == "petsc_spdirect"
        kw["petsc_options"] = M.PETScOptions(
            ksp_type="preonly" if direct else "minres",
            pc_type="lu" if direct else "jacobi", options_prefix="a_",
            pc_factor_mat_solver_type="mumps" if direct else None,
            use_set_from_options=False)
    cfg = cls(**kw)
    for n, v in kw.items():
        same(c, f"set {n}", v, getattr(cfg, n))
    try:
        cfg.export("folder")
    except OSError as e:
        raise Unsupported(f"files written in another way: {e}")
    c.post("one file", z3.BoolVal(list(files.docs) == ["folder/cfg.json"]))
    back = cls.import_from("folder")
    c.post("same kind", z3.BoolVal(type(back) is cls))
    for n, v in kw.items():
        same(c, f"still set {n}", v, getattr(cfg, n))
    for n in cls.__dataclass_fields__:
        same(c, f"read {n}", getattr(cfg, n), getattr(back, n))
    same(c, "read solver configuration", cfg.solver_config,
         back.solver_config)
    c.reach("end")


def legacy(c):
    """files of earlier versions that still carry record_timing are read"""
    M = c.load(MOD)
    files = Files(c, [M])
    cfg = M.DensityMethodConfig(rho_min=c.real("rho_min"))
    cfg.export("folder")
    files.docs["folder/cfg.json"]["record_timing"] = True
    back = M.DensityMethodConfig.import_from("folder")
    same(c, "read rho_min", cfg.rho_min, back.rho_min)
    same(c, "read p", cfg.p, back.p)
    try:
        M.DensityMethodConfig.import_from("elsewhere")
        c.post("missing file refused", z3.BoolVal(False))
    except FileNotFoundError:
        c.post("missing file refused", z3.BoolVal(True))
    c.reach("end")


def known_only(c, which):
    """named options are set, unknown names ignored, the rest is default"""
    M = c.load(MOD)
    mod, nm = CLS[which]
    cls = getattr(c.load(mod), nm)
    kw = {"rho_min": c.real("rho_min"), "max_iters": c.int("max_iters"),
          "restart": c.bool("restart"), "beta_eta": c.real("beta_eta"),
          "vol_frac": M.tools.SchedulerConfig.constant(
              target_value=c.real("v")),
          "dst_path": "", "filter_type": "spacial"}
    if "percentile" in cls.__dataclass_fields__:
        kw["percentile"] = None          # named, and set to nothing
    cfg, ref = cls.from_defaults(**kw, no_such_option=1, mesh_path="x"), cls()
    for n in cls.__dataclass_fields__:
        same(c, f"{n}", kw[n] if n in kw else getattr(ref, n),
             getattr(cfg, n))
    c.post("unknown ignored", z3.BoolVal(not hasattr(cfg, "no_such_option")
                                         and not hasattr(cfg, "mesh_path")))
    c.reach("end")


def solver(c):
    """the solver configuration names the solver chosen and its settings"""
    M = c.load(MOD)
    for opt in ("spsolve", "cg_pyamg", "petsc", "petsc_spdirect"):
        cfg = M.DensityMethodConfig(solver_option=opt)
        s = cfg.solver_config
        c.post(f"{opt} chosen", z3.BoolVal(s.solver == opt))
        same(c, f"{opt} settings", cfg.petsc_options, s.petsc_options)
        o = s.petsc_options
        c.post(f"{opt} method", z3.BoolVal(
            (getattr(o, "ksp_type", 0), getattr(o, "pc_type", 0)) == (
                ("preonly", "lu") if opt == "petsc_spdirect"
                else ("cg", "gamg"))))
    for opt, ksp in (("petsc", "minres"), ("petsc_spdirect", "preonly")):
        for own in ({"ksp_type": ksp, "options_prefix": "b_"},
                    M.PETScOptions(ksp_type=ksp, options_prefix="b_")):
            o = M.DensityMethodConfig(
                solver_option=opt,
                petsc_options=own).solver_config.petsc_options
            c.post(f"{opt} own settings kept", z3.BoolVal(
                getattr(o, "ksp_type", 0) == ksp and
                o.options_prefix == "b_"))
    c.reach("end")


ALL = ("constant", "one", "none", "step", "accel", "decel", "to_one", "saw")
UNITS = [
    Unit(PROP, f"file_{w}_{i}", lambda c, w=w, k=k, s=s, fl=fl: round_trip(
        c, w, k, s, fl), doc=round_trip.__doc__)
    for w in CLS for i, (k, s, fl) in enumerate((
        (ALL, "spsolve", True), (ALL[3:] + ALL[:3], "cg_pyamg", False),
        (ALL[5:] + ALL[:5], "petsc_spdirect", True),
        (("step",), "petsc", True), (("accel", "none"), "petsc_spdirect",
                                     False)))
] + [
    Unit(PROP, "legacy", legacy),
    Unit(PROP, "solver", solver),
] + [Unit(PROP, f"known_only_{w}", lambda c, w=w: known_only(c, w),
          doc=known_only.__doc__) for w in CLS]


def r_files(rt):
    """random configurations written to and read from real files"""
    import os
    import tempfile
    S = rt.get("sktopt.tools.scheduler", "SchedulerConfig")
    Petsc = rt.get(MOD, "PETScOptions")
    g = rt.np_rng
    kinds = ("constant", "step", "accel", "decel", "to_one", "saw", "none")

    def sched(nm):
        k = str(g.choice(kinds))
        a, b, cu = (float(v) for v in g.uniform(.01, 5, 3))
        n, t = int(g.integers(1, 9)), int(g.integers(1, 300))
        return {"constant": lambda: S.constant(nm, a),
                "step": lambda: S.step(nm, a, b, n, t),
                "accel": lambda: S.step_accelerating(nm, a, b, n, t, cu),
                "decel": lambda: S.step_decelerating(nm, a, b, n, t, cu),
                "to_one": lambda: S.step_to_one(nm, n, t),
                "saw": lambda: S.sawtooth_decay(nm, a, b, t, n),
                "none": S.none}[k]()
    for k in range(rt.n(60, 600)):
        mod, nm = list(CLS.values())[k % 3]
        cls = rt.get(mod, nm)
        kw = {}
        for n, f in cls.__dataclass_fields__.items():
            if g.random() < .4:
                continue
            d = f.default
            if n in SCHED or (n == "eta" and g.random() < .7):
                kw[n] = sched(n)
            elif isinstance(d, bool):
                kw[n] = bool(g.integers(2))
            elif isinstance(d, int):
                kw[n] = int(g.integers(0, 400))
            elif isinstance(d, float):
                kw[n] = float(10 ** g.uniform(-9, 7)) * int(g.integers(2))
        kw["solver_option"] = str(g.choice(
            ["spsolve", "cg_pyamg", "petsc", "petsc_spdirect"]))
        direct = kw["solver_option"] == "petsc_spdirect"
        if g.random() < .6:
            kw["petsc_options"] = Petsc(
                "preonly" if direct else "minres",
                "lu" if direct else "jacobi", "mumps" if direct else None,
                str(g.choice(["a_", "b_"])), bool(g.integers(2)))
        for n, vs in (("filter_type", ["spacial", "helmholtz"]),
                      ("interpolation", ["SIMP", "RAMP"]),
                      ("dual_update", ["ema", "augmented"])):
            if n in cls.__dataclass_fields__:
                kw[n] = str(g.choice(vs))
        kw["dst_path"] = str(g.choice(["./here", "/tmp/no where", "x"]))
        with rt.case("files", cls=nm, options={
                n: str(v) for n, v in kw.items()}):
            cfg = cls(**kw)
            with tempfile.TemporaryDirectory() as d:
                cfg.export(d)
                rt.ok("one file", os.listdir(d) == ["cfg.json"])
                back = cls.import_from(d)
            bare = {"dst_path": ""}
            if "percentile" in cls.__dataclass_fields__:
                bare["percentile"] = None
            rt.ok("named options taken when empty", all(
                getattr(cls.from_defaults(**bare), n) == v
                for n, v in bare.items()))
            some = cls.from_defaults(no_such_option=3, **kw)
            rt.ok("named options taken", some == cfg and all(
                getattr(some, n) == v for n, v in kw.items()))
            sc = cfg.solver_config
            rt.ok("solver as chosen", sc.solver == kw["solver_option"] and
                  sc.petsc_options == cfg.petsc_options)
            rt.ok("options as given", all(
                getattr(cfg, n) == v for n, v in kw.items()))
            for n in cls.__dataclass_fields__:
                a, b = getattr(cfg, n), getattr(back, n)
                rt.ok(f"read {n}", type(a) is type(b) and a == b,
                      f"{a} {b}")
            rt.ok("read solver configuration",
                  cfg.solver_config == back.solver_config)


RUNTIME = [("files", r_files, 60)]
