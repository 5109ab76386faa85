"""Step schedules: bounded, monotone, start at init, end exactly at target."""
import z3
from vpy import terms as T
from vpy.unit import Unit

PROP = "P01"
MOD = "sktopt.tools.scheduler"
KINDS = {"step": "schedule_step", "accel": "schedule_step_accelerating",
         "decel": "schedule_step_decelerating"}


def _sched(c, kind, S, ns, total, a, b, curv):
    if kind == "step":
        return S.SchedulerStep("x", a, b, ns, total)
    if kind == "accel":
        return S.SchedulerStepAccelerating("x", a, b, ns, total, curv)
    return S.SchedulerStepDecelerating("x", a, b, ns, total, curv)


def _inputs(c):
    total = c.int("total", 1)
    ns = c.int("num_steps", 1)
    a, b = c.real("init"), c.real("target")
    curv = c.real("curvature", lo_open=0)
    return total, ns, a, b, curv


def _between(v, a, b):
    return z3.Or(z3.And(a <= v, v <= b), z3.And(b <= v, v <= a))


def mk_bounds(kind):
    def u(c):
        """value between init and target; target from the last iteration on;
        init on the first plateau"""
        S = c.load(MOD)
        total, ns, a, b, curv = _inputs(c)
        it = c.int("it", 0)
        s = _sched(c, kind, S, ns, total, a, b, curv)
        v = T.to_real(c.val(s.value(it)))
        c.post("bounded", _between(v, a.t, b.t))
        c.post("target at and after the last iteration",
               z3.Implies(it.t >= total.t, v == b.t))
        c.post("init on the first plateau", z3.Implies(
            z3.And(ns.t >= 2, it.t * ns.t < total.t), v == a.t))
        c.post("single step is the target", z3.Implies(ns.t == 1, v == b.t))
        c.reach("end")
    return u


def mk_monotone(kind):
    def u(c):
        """later iterations are never farther from the target"""
        S = c.load(MOD)
        total, ns, a, b, curv = _inputs(c)
        i1, i2 = c.int("it1", 0), c.int("it2", 0)
        c.assume(i1.t <= i2.t)
        s = _sched(c, kind, S, ns, total, a, b, curv)
        v1, v2 = T.to_real(c.val(s.value(i1))), T.to_real(c.val(s.value(i2)))
        c.post("monotone up", z3.Implies(a.t <= b.t, v1 <= v2))
        c.post("monotone down", z3.Implies(a.t >= b.t, v1 >= v2))
    return u


def mk_plateau(kind):
    def u(c):
        """the value on plateau k (k = floor(it*num_steps/total)) is the
        curved interpolation at k/(num_steps-1)"""
        S = c.load(MOD)
        total, ns, a, b, curv = _inputs(c)
        it, k = c.int("it", 0), c.int("k", 0)
        c.assume(z3.And(it.t < total.t, ns.t >= 2, k.t < ns.t,
                        k.t * total.t <= it.t * ns.t,
                        it.t * ns.t < (k.t + 1) * total.t))
        s = _sched(c, kind, S, ns, total, a, b, curv)
        v = T.to_real(c.val(s.value(it)))
        al = z3.ToReal(k.t) / z3.ToReal(ns.t - 1)
        if kind == "accel":
            al = T.POW(al, curv.t)
        elif kind == "decel":
            al = 1 - T.POW(1 - al, curv.t)
        c.post("plateau value", v == a.t + al * (b.t - a.t))
        c.reach("end")
    return u


def u_order(c):
    """with curvature >= 1: accelerating <= linear <= decelerating progress"""
    S = c.load(MOD)
    total, ns, a, b, curv = _inputs(c)
    c.assume(z3.And(curv.t >= 1, a.t < b.t))
    it = c.int("it", 0)
    v = {k: T.to_real(c.val(_sched(c, k, S, ns, total, a, b, curv)
                            .value(it))) for k in KINDS}
    c.post("accelerating lags", v["accel"] <= v["step"])
    c.post("decelerating leads", v["step"] <= v["decel"])


UNITS = []
for _k in KINDS:
    UNITS += [Unit(PROP, f"bounds_{_k}", mk_bounds(_k)),
              Unit(PROP, f"monotone_{_k}", mk_monotone(_k)),
              Unit(PROP, f"plateau_{_k}", mk_plateau(_k))]
UNITS.append(Unit(PROP, "order", u_order))


def r_float(rt):
    S = rt.get(MOD, "Scheduler")
    C = rt.get(MOD, "SchedulerConfig")
    import math
    for k in range(rt.n(400, 8000)):
        r = rt.rng
        total = r.choice([1, 2, 3, 5, 10, 22, 100, r.randint(1, 400)])
        ns = r.choice([1, 2, 3, 5, 10, 20, r.randint(1, 60)])
        a, b = r.uniform(-5, 20), r.uniform(-5, 20)
        curv = r.choice([1.0, 2.0, 3.0, r.uniform(0.2, 6)])
        if r.random() < .1:
            b = a
        vals = {}
        for kind, mk in (("step", C.step), ("accel", C.step_accelerating),
                         ("decel", C.step_decelerating)):
            kw = {} if kind == "step" else {"curvature": curv}
            with rt.case(kind, total=total, num_steps=ns, init=a, target=b,
                         curvature=curv):
                s = S.from_config(mk("x", a, b, ns, total, **kw))
                v = [s.value(i) for i in range(0, total + 3)]
                vals[kind] = v
                tol = 1e-9 * (1 + abs(a) + abs(b))
                rt.ok("bounded", all(min(a, b) - tol <= x <= max(a, b) + tol
                                     for x in v))
                sg = 1 if b >= a else -1
                rt.ok("monotone", all(sg * (y - x) >= -tol
                                      for x, y in zip(v, v[1:])))
                rt.ok("target exactly at the end",
                      v[total] == b and v[total + 2] == b)
                if ns >= 2 and total >= ns:
                    rt.ok("starts at init", abs(v[0] - a) <= tol and
                          abs(v[1] - a) <= tol if total > ns else True)
                for i in range(total):
                    al = []
                    for j in (0, 1):
                        kk = min(max((i * ns - j) // total, 0), ns - 1)
                        x = kk / (ns - 1) if ns > 1 else 1.0
                        if kind == "accel":
                            x = x ** curv
                        elif kind == "decel":
                            x = 1 - (1 - x) ** curv
                        al.append((1 - x) * a + x * b)
                    if not rt.ok("plateau value",
                                 any(abs(v[i] - y) <= tol for y in al),
                                 f"it={i}: {v[i]} not in {al}"):
                        break
        if len(vals) == 3 and curv >= 1:
            with rt.case("order", total=total, num_steps=ns, init=a,
                         target=b, curvature=curv):
                sg = 1 if b >= a else -1
                tol = 1e-9 * (1 + abs(a) + abs(b))
                rt.ok("accel<=step<=decel", all(
                    sg * (y - x) >= -tol and sg * (z - y) >= -tol
                    for x, y, z in zip(vals["accel"], vals["step"],
                                       vals["decel"])))


RUNTIME = [("float", r_float, 120)]
