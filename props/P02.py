"""Sawtooth schedule: bounded, starts every cycle at init, decays linearly,
never resets inside a cycle, ends at the target."""
import z3
from vpy import terms as T
from vpy.unit import Unit

PROP = "P02"
MOD = "sktopt.tools.scheduler"


def _inputs(c):
    total = c.int("total", 1)
    ns = c.int("num_steps", 1)
    return total, ns, c.real("init"), c.real("target")


def u_bounds(c):
    S = c.load(MOD)
    total, ns, a, b = _inputs(c)
    it = c.int("it", 1)
    v = T.to_real(c.val(S.SchedulerSawtoothDecay("m", a, b, ns, total)
                        .value(it)))
    c.post("between init and target",
           z3.Or(z3.And(a.t <= v, v <= b.t), z3.And(b.t <= v, v <= a.t)))
    c.post("target at and after the last iteration",
           z3.Implies(it.t >= total.t, v == b.t))
    c.post("first iteration is init",
           z3.Implies(z3.And(it.t == 1, total.t > 1), v == a.t))
    c.reach("end")


def u_cycle(c):
    """iteration it (1-based) in cycle k: linear decay
    init + (target-init) * ((it-1)*num_steps - k*total)/total"""
    S = c.load(MOD)
    total, ns, a, b = _inputs(c)
    it, k = c.int("it", 1), c.int("k", 0)
    c.assume(z3.And(it.t < total.t, k.t * total.t <= (it.t - 1) * ns.t,
                    (it.t - 1) * ns.t < (k.t + 1) * total.t))
    v = T.to_real(c.val(S.SchedulerSawtoothDecay("m", a, b, ns, total)
                        .value(it)))
    num = z3.ToReal((it.t - 1) * ns.t - k.t * total.t)
    c.post("linear decay inside the cycle",
           (v - a.t) * z3.ToReal(total.t) == (b.t - a.t) * num)
    c.post("reset to init at a cycle start", z3.Implies(
        k.t * total.t == (it.t - 1) * ns.t, v == a.t))
    c.reach("end")


def u_decay(c):
    """two iterations of the same cycle: the later is nearer the target"""
    S = c.load(MOD)
    total, ns, a, b = _inputs(c)
    i1, i2, k = c.int("i1", 1), c.int("i2", 1), c.int("k", 0)
    c.assume(z3.And(i1.t < i2.t, i2.t < total.t,
                    k.t * total.t <= (i1.t - 1) * ns.t,
                    (i2.t - 1) * ns.t < (k.t + 1) * total.t))
    s = S.SchedulerSawtoothDecay("m", a, b, ns, total)
    v1, v2 = T.to_real(c.val(s.value(i1))), T.to_real(c.val(s.value(i2)))
    c.post("decays", z3.And(z3.Implies(a.t > b.t, v1 > v2),
                            z3.Implies(a.t < b.t, v1 < v2)))


def u_reject(c):
    """non-positive totals or cycle counts are rejected, not divided by"""
    S = c.load(MOD)
    total, ns = c.int("total"), c.int("num_steps")
    a, b, it = c.real("init"), c.real("target"), c.int("it", 1)
    c.assume(z3.Or(total.t <= 0, ns.t <= 0))
    try:
        S.schedule_sawtooth_decay(it, total, a, b, ns)
        c.post("rejected", z3.BoolVal(False))
    except ValueError:
        c.post("rejected", z3.BoolVal(True))


UNITS = [Unit(PROP, "bounds", u_bounds), Unit(PROP, "cycle", u_cycle),
         Unit(PROP, "decay", u_decay), Unit(PROP, "reject", u_reject)]


def r_float(rt):
    S = rt.get(MOD, "Scheduler")
    C = rt.get(MOD, "SchedulerConfig")
    from fractions import Fraction
    for k in range(rt.n(800, 12000)):
        r = rt.rng
        total = r.choice([1, 2, 5, 10, 22, 30, 100, 120, r.randint(1, 300)])
        ns = r.choice([1, 2, 3, 5, 6, 10, 20, r.randint(1, 60)])
        a, b = r.choice([(.3, .1), (.1, .05), (r.uniform(0, 5),
                                               r.uniform(0, 5))])
        with rt.case("sawtooth", total=total, num_steps=ns, init=a,
                     target=b):
            s = S.from_config(C.sawtooth_decay("m", a, b, total, ns))
            tol = 1e-9 * (1 + abs(a) + abs(b))
            for it in range(1, total + 3):
                v = s.value(it)
                if it >= total:
                    if not rt.ok("target at the end", v == b, f"it={it}: "
                                 f"{v}"):
                        break
                    continue
                kk = (it - 1) * ns // total
                al = float(Fraction((it - 1) * ns - kk * total, total))
                ref = (1 - al) * a + al * b
                if not rt.ok("linear decay / reset", abs(v - ref) <= tol,
                             f"it={it}: {v} expected {ref}"):
                    break
                if not rt.ok("bounded", min(a, b) - tol <= v
                             <= max(a, b) + tol):
                    break


RUNTIME = [("float", r_float, 120)]
