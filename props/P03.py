"""Schedule construction: constants, 'to one' variants, disabled schedules,
validation, and the collection that hands values to the optimizer."""
import itertools
import z3
from vpy import terms as T
from vpy.unit import Unit

PROP = "P03"
MOD = "sktopt.tools.scheduler"


def _real(c, x):
    return T.to_real(c.val(x))


def u_constant(c):
    """constant schedules return their value at every iteration; the
    disabled schedule returns nothing"""
    S = c.load(MOD)
    v, it, tot = c.real("value"), c.int("it", 0), c.int("total", 1)
    col = S.Schedulers("x")
    for nm, cfg in (("c", S.SchedulerConfig.constant(target_value=v)),
                    ("one", S.SchedulerConfig.constant_one()),
                    ("none", S.SchedulerConfig.none()),
                    ("d", S.SchedulerConfig.from_defaults(
                        target_value=v, scheduler_type="Constant")),
                    ("i", S.SchedulerConfig.from_defaults(
                        init_value=c.real("other"), target_value=v))):
        col.add_object_from_config(cfg, nm)
    col.set_iters_max(tot)
    r = col.values_as_list(it, ["c", "one", "none", "d", "i"])
    c.post("constant", _real(c, r[0]) == v.t)
    c.post("constant one", _real(c, r[1]) == 1)
    c.post("disabled", z3.BoolVal(r[2] is None))
    c.post("from_defaults constant", _real(c, r[3]) == v.t)
    c.post("constant ignores init", _real(c, r[4]) == v.t)
    c.reach("end")


def mk_to_one(kind):
    def u(c):
        """target 1, init 1/num_steps, by configuration and by class; a
        value between init and 1 at every iteration"""
        S = c.load(MOD)
        ns, tot, it = c.int("ns", 1), c.int("total", 1), c.int("it", 0)
        cu = c.real("curvature", lo_open=0)
        C = S.SchedulerConfig
        if kind == "step":
            cfg = C.step_to_one("x", ns, tot)
            cls = S.SchedulerStepToOne("x", ns, tot)
        elif kind == "accel":
            cfg = C.step_accelerating_to_one("x", ns, tot, cu)
            cls = S.SchedulerStepAcceleratingToOne("x", ns, tot, cu)
        else:
            cfg = C.step_decelerating_to_one("x", ns, tot, cu)
            cls = S.SchedulerStepDeceleratingToOne("x", ns, tot, cu)
        a = S.Scheduler.from_config(cfg)
        for nm, s in (("config", a), ("class", cls)):
            c.post(f"{nm} init", _real(c, s.init_value)
                   * z3.ToReal(ns.t) == 1)
            c.post(f"{nm} target", _real(c, s.target_value) == 1)
            v = _real(c, s.value(it))
            c.post(f"{nm} never above one", v <= 1)
            c.post(f"{nm} never below init", v * z3.ToReal(ns.t) >= 1)
            c.post(f"{nm} reaches one", z3.Implies(it.t >= tot.t, v == 1))
    return u


def u_to_one_reject(c):
    """non-positive step counts and targets other than one are rejected"""
    S = c.load(MOD)
    ns, t = c.int("ns"), c.real("target")
    c.assume(z3.And(ns.t <= 0, T.t_abs(t.t - 1) > z3.RealVal("0.001")))
    cu = c.real("curvature", lo_open=0)
    C = S.SchedulerConfig
    calls = [lambda: C.step_to_one("x", ns, 10),
             lambda: C.step_accelerating_to_one("x", ns, 10, cu),
             lambda: C.step_decelerating_to_one("x", ns, 10, cu),
             lambda: S.SchedulerStepToOne("x", ns, 10),
             lambda: S.SchedulerStepAcceleratingToOne("x", ns, 10, cu),
             lambda: S.SchedulerStepDeceleratingToOne("x", ns, 10, cu)]
    for k, f in enumerate(calls):
        try:
            f()
            c.post(f"rejected {k}", z3.BoolVal(False))
        except ValueError:
            c.post(f"rejected {k}", z3.BoolVal(True))


def u_preserve(c):
    """a validated configuration carries exactly the values it was given"""
    S = c.load(MOD)
    a, b, cu = c.real("init"), c.real("target"), c.real("curvature")
    ns, tot = c.int("ns", 1), c.int("total", 1)
    for ty in ("Step", "StepAccelerating", "StepDecelerating",
               "SawtoothDecay"):
        cfg = S.SchedulerConfig.from_defaults(
            "q", a, b, ns, tot, cu, ty)
        s = S.Scheduler.from_config(cfg)
        for o, w in ((cfg, "config"), (s, "scheduler")):
            c.post(f"{ty} {w}", z3.And(
                _real(c, o.init_value) == a.t,
                _real(c, o.target_value) == b.t,
                c.val(o.num_steps) == ns.t, c.val(o.iters_max) == tot.t,
                _real(c, o.curvature) == cu.t))
            c.post(f"{ty} {w} name", z3.BoolVal(o.name == "q"))


def u_collection(c):
    """values come back in the requested order, one per name, each from its
    own schedule; negative step counts mean the target; set_iters_max
    reaches every schedule"""
    S = c.load(MOD)
    it, tot = c.int("it", 0), c.int("total", 1)
    a, b, d = c.real("a"), c.real("b"), c.real("d")
    ns = c.int("ns", 2)
    col = S.Schedulers("x")
    col.add_object_from_config(S.SchedulerConfig.step("zz", a, b, ns), "p")
    col.add_object_from_config(S.SchedulerConfig.constant(
        target_value=d), "v")
    col.add("eta", a, d, -1, 7)
    col.set_iters_max(tot)
    r = col.values_as_list(it, ["eta", "p", "v"])
    ref = S.SchedulerStep("p", a, b, ns, tot).value(it)
    c.post("eta", _real(c, r[0]) == d.t)
    c.post("p", _real(c, r[1]) == _real(c, ref))
    c.post("v", _real(c, r[2]) == d.t)
    one = col.value_on_a_scheduler("p", it)
    c.post("single", _real(c, one) == _real(c, ref))
    for s in col.scheduler_list:
        c.post("iters_max", c.val(s.iters_max) == tot.t)


UNITS = [Unit(PROP, "constant", u_constant),
         Unit(PROP, "to_one_step", mk_to_one("step")),
         Unit(PROP, "to_one_accel", mk_to_one("accel")),
         Unit(PROP, "to_one_decel", mk_to_one("decel")),
         Unit(PROP, "to_one_reject", u_to_one_reject),
         Unit(PROP, "preserve", u_preserve),
         Unit(PROP, "collection", u_collection)]


REQUIRED = {
    "Constant": {"target_value"}, "ConstantOne": set(), "None": set(),
    "Step": {"init_value", "target_value", "num_steps"},
    "StepToOne": {"num_steps"},
    "StepAcceleratingToOne": {"num_steps", "curvature"},
    "StepDeceleratingToOne": {"num_steps", "curvature"},
    "StepAccelerating": {"init_value", "target_value", "num_steps",
                         "curvature"},
    "StepDecelerating": {"init_value", "target_value", "num_steps",
                         "curvature"},
    "SawtoothDecay": {"init_value", "target_value", "num_steps"},
}


def r_required(rt):
    """exhaustive: every type x every subset of supplied parameters"""
    C = rt.get(MOD, "SchedulerConfig")
    S = rt.get(MOD, "Scheduler")
    full = {"init_value": 0.2, "target_value": 1.0, "num_steps": 4,
            "curvature": 2.0}
    for ty, req in REQUIRED.items():
        for k in range(len(full) + 1):
            for sub in itertools.combinations(sorted(full), k):
                kw = {n: full[n] for n in sub}
                with rt.case("required", type=ty, given=list(sub)):
                    try:
                        cfg = C.from_defaults("x", iters_max=20,
                                              scheduler_type=ty, **kw)
                        acc = True
                    except ValueError:
                        acc = False
                    rt.ok("rejected exactly when a required parameter is "
                          "missing", acc == (req <= set(sub)),
                          f"accepted={acc}")
                    if acc and not (ty == "None" and sub):
                        s = S.from_config(cfg)
                        s.iters_max = 20
                        vs = [s.value(i) for i in range(1, 25)]
                        if ty == "None":
                            rt.ok("disabled", all(v is None for v in vs))
                        else:
                            rt.ok("finite values", all(
                                v == v and 0 <= v <= 1 for v in vs))
                            rt.ok("ends at target", vs[19] == 1.0)
    with rt.case("unknown type"):
        try:
            C.from_defaults("x", scheduler_type="Bogus")
            rt.ok("unknown type rejected", False)
        except ValueError:
            rt.ok("unknown type rejected", True)
        try:
            S.from_config(C(scheduler_type="Bogus", target_value=1.))
            rt.ok("unknown type rejected", False)
        except ValueError:
            rt.ok("unknown type rejected", True)


def r_one(rt):
    C = rt.get(MOD, "SchedulerConfig")
    S = rt.get(MOD, "Scheduler")
    G = rt.get(MOD, "Schedulers")
    for k in range(rt.n(200, 3000)):
        r = rt.rng
        ns, tot = r.randint(1, 40), r.randint(1, 200)
        cu = r.uniform(.3, 5)
        ty = r.choice(["step", "accel", "decel"])
        with rt.case("to one", type=ty, ns=ns, total=tot, curvature=cu):
            cfg = {"step": lambda: C.step_to_one("x", ns),
                   "accel": lambda: C.step_accelerating_to_one(
                       "x", ns, curvature=cu),
                   "decel": lambda: C.step_decelerating_to_one(
                       "x", ns, curvature=cu)}[ty]()
            g = G(".")
            g.add_object_from_config(cfg, "y")
            g.add("z", 3., 4., -1)
            if k % 2:           # the total is set anew for every run
                g.set_iters_max(r.randint(1, 200))
            g.set_iters_max(tot)
            vs = [g.values_as_list(i, ["z", "y"], export_log=False)
                  for i in range(1, tot + 2)]
            h = G(".")
            h.add_object_from_config(cfg, "y")
            h.set_iters_max(tot)
            rt.ok("only the last total counts", [v[1] for v in vs] == [
                h.values_as_list(i, ["y"], export_log=False)[0]
                for i in range(1, tot + 2)])
            rt.ok("order", all(v[0] == 4. for v in vs))
            rt.ok("range", all(1 / ns - 1e-9 <= v[1] <= 1 + 1e-12
                               for v in vs))
            rt.ok("reaches one", vs[tot - 1][1] == 1.0)
            rt.ok("negative target rejected", _rej(C, ns, r))


def _rej(C, ns, r):
    try:
        C.from_defaults("x", num_steps=ns, curvature=1.,
                        target_value=r.choice([0.5, 2.0, -1.0]),
                        scheduler_type=r.choice(
                            ["StepToOne", "StepAcceleratingToOne",
                             "StepDeceleratingToOne"]))
        return False
    except ValueError:
        return True


RUNTIME = [("required", r_required, 120), ("to_one", r_one, 120)]
