"""Discharging obligations: z3 (default, then nlsat after Ackermannisation),
then cvc5.  `unknown` stays unknown."""
import itertools
import time
import z3

from . import linear
from . import terms as T
from .engine import Ctx

STATS = {"z3": 0, "z3-nlsat": 0, "cvc5": 0, "time": 0.0}


_inst_cache = {}


def _inst(ns, fn, combo):
    key = (id(fn),) + tuple(k.get_id() for k in combo)
    hit = _inst_cache.get(key)
    c = Ctx.cur
    if hit is not None:
        if c is not None:
            for t in hit[4]:
                c.note_idx(t)
        return hit[0]
    n0 = 0 if c is None else len(c.idx)
    guard = []
    for k, n in zip(combo, ns):
        if n is not None and not isinstance(n, T.Pool):
            guard += [k >= 0, k < n]
    f = fn(*combo)
    f = f if isinstance(f, z3.ExprRef) else z3.BoolVal(bool(f))
    f = z3.Implies(z3.And(*guard), f) if guard else f
    if len(_inst_cache) > 200000:
        _inst_cache.clear()
    _inst_cache[key] = (f, fn, combo, ns, [] if c is None else c.idx[n0:])
    return f


def instantiate(facts, idx, limit=4000):
    out = []
    from .engine import quiet
    with quiet():
        for ns, fn in facts:
            ar = sum(not isinstance(n, T.Pool) for n in ns)
            pool = idx if ar == 1 else idx[:24]
            cnt = 0
            for combo in itertools.product(*[
                    n.terms if isinstance(n, T.Pool) else pool for n in ns]):
                cnt += 1
                if cnt > limit:
                    break
                out.append(_inst(ns, fn, combo))
    return out


def _instances(facts, idx, ctx=None):
    """instantiate at the known index terms; index terms that appear while
    instantiating (positions, selected elements) get one further round"""
    from .engine import Ctx
    c = Ctx.cur
    if c is None:
        return instantiate(facts, idx)
    base = list(idx)
    out = instantiate(facts, base)
    from .engine import quiet
    seen = {t.get_id() for t in base}
    for rnd in range(c.ghost.get("inst_rounds", 1)):
        extra = [t for t in c.idx if t.get_id() not in seen]
        if not extra or len(extra) > 60:
            break
        seen |= {t.get_id() for t in extra}
        with quiet():
            for ns, fn in facts:
                fr = [q for q, n in enumerate(ns)
                      if not isinstance(n, T.Pool)]
                if len(fr) != 1:
                    continue
                for combo in itertools.product(*[
                        n.terms if isinstance(n, T.Pool) else extra
                        for n in ns]):
                    out.append(_inst(ns, fn, combo))
    return out


def quantify(c, facts):
    """the facts as quantified formulas (for contexts that ask for it)"""
    from .engine import quiet
    out = []
    n = len(c.idx)
    with quiet():
        for ns, fn in facts:
            key = ("quant", id(fn))
            hit = _quant_cache.get(key)
            if hit is not None and hit[1] is fn:
                out.append(hit[0])
                continue
            vs, free, guard = [], [], []
            pools = [m.terms for m in ns if isinstance(m, T.Pool)]
            if pools:
                continue
            for q, m in enumerate(ns):
                v = z3.Const(f"q!{q}", T.I)
                free.append(v)
                if m is not None:
                    guard += [v >= 0, v < m]
            body = fn(*free)
            body = body if isinstance(body, z3.ExprRef) else \
                z3.BoolVal(bool(body))
            f = z3.ForAll(free, z3.Implies(z3.And(*guard), body)
                          if guard else body) if free else body
            _quant_cache[key] = (f, fn)
            out.append(f)
    for t in c.idx[n:]:
        c.idx_ids.discard(t.get_id())
    del c.idx[n:]
    return out


_quant_cache = {}


def _check(solver_asserts, timeout, tactic=None):
    s = z3.Solver() if tactic is None else tactic.solver()
    s.set("timeout", int(timeout))
    s.add(*solver_asserts)
    r = s.check()
    return r, s


def feasible(c, cond):
    n = len(c.idx)
    try:
        return _feasible(c, cond)
    finally:
        if c.family or "inst_rounds" in c.ghost:
            for t in c.idx[n:]:
                c.idx_ids.discard(t.get_id())
            del c.idx[n:]


def _feasible(c, cond):
    from .engine import quiet
    t0 = time.time()
    try:
        r, _ = _check(c.pc + [cond], 300)
        if r == z3.unsat:
            return False
        if c.ghost.get("light_feasible"):
            return True
        if c.ghost.get("quantified"):
            r, _ = _check(c.pc + quantify(c, c.facts) + [cond], 800)
            return r != z3.unsat
        with quiet():
            n = len(c.idx)
            inst = instantiate(c.facts, list(c.idx)[:30], 400)
        ex = c.pc + inst + [cond]
        ex += T.transcendental_axioms(ex, 200)
        r, _ = _check(ex, 800)
        return r != z3.unsat
    finally:
        STATS["time"] += time.time() - t0


def provable(c, goal, timeout=1500):
    if not (c.family or "inst_rounds" in c.ghost):
        return _provable(c, goal, timeout)
    n = len(c.idx)
    try:
        return _provable(c, goal, timeout)
    finally:
        for t in c.idx[n:]:
            c.idx_ids.discard(t.get_id())
        del c.idx[n:]


UNKNOWN = [False]      # the last `provable` answer was given up on


def _provable(c, goal, timeout=1500):
    UNKNOWN[0] = False
    g = goal if isinstance(goal, z3.ExprRef) else z3.BoolVal(bool(goal))
    g = z3.simplify(g)
    if z3.is_true(g):
        return True
    if z3.is_false(g):
        return not feasible(c, z3.BoolVal(True))
    t0 = time.time()
    try:
        r, _ = _check(c.pc + [z3.Not(g)], timeout // 2)
        if r == z3.unsat:
            return True
        if r == z3.sat and not c.facts and not T.collect_apps(
                c.pc + [g], [T.TANH])["tanh"]:
            apps = T.collect_apps(c.pc + [g], [T.EXP, T.LOG, T.POW, T.SQRT,
                                               T.COSH])
            if not any(apps.values()):
                return False
        if linear.check(c.pc, z3.Not(g), timeout // 2) == z3.unsat:
            return True
        if c.ghost.get("quantified"):
            r, _ = _check(c.pc + quantify(c, c.facts) + [z3.Not(g)], timeout)
            return r == z3.unsat
        pool = list(c.idx)
        if len(pool) > 40 or "inst_rounds" in c.ghost:
            pool = pool[:-13:-1] + pool[:-12]
        if "light_feasible" in c.ghost:
            rel = goal_terms(g, c.idx)[:14]
            n0 = len(c.idx)
            inst = instantiate(c.facts, rel, 200)
            for t in c.idx[n0:]:
                c.idx_ids.discard(t.get_id())
            del c.idx[n0:]
            r, _ = _check(c.pc + inst + [z3.Not(g)], timeout)
            if r == z3.unsat:
                return True
            pool = (rel + [t for t in pool
                           if not any(t is q for q in rel)])[:24]
        inst = instantiate(c.facts, pool[:44], 600)
        if linear.check(c.pc + inst, z3.Not(g), timeout) == z3.unsat:
            return True
        ex = c.pc + inst + [z3.Not(g)]
        ex += T.transcendental_axioms(ex, 300)
        r, _ = _check(ex, timeout)
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            r2 = nlsat(ex, timeout)
            UNKNOWN[0] = r2 == z3.unknown
            return r2 == z3.unsat
        return False
    finally:
        STATS["time"] += time.time() - t0


_ack_full = [True]


def goal_terms(goal, idx):
    """the index terms that occur in the goal, then the most recent ones"""
    ids, todo = set(), [goal]
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in ids:
            continue
        ids.add(i)
        todo += e.children()
    rel = [t for t in idx if t.get_id() in ids]
    for t in idx[:-5:-1]:
        if not any(t is r for r in rel):
            rel.append(t)
    return rel


_real_memo = {}


def _has_real(e, memo=None):
    i = e.get_id()
    h = _real_memo.get(i)
    if h is None:
        if len(_real_memo) > 400000:
            _real_memo.clear()
        v = e.sort() == z3.RealSort() or any(
            _has_real(c) for c in e.children())
        h = _real_memo[i] = (v, e)
    return h[0]


def _bool_part(e, memo):
    """e with atoms over reals dropped where that weakens e; None if nothing
    is left"""
    if not _has_real(e, memo):
        return e
    if z3.is_and(e):
        ps = [p for p in (_bool_part(c, memo) for c in e.children())
              if p is not None]
        return z3.And(*ps) if ps else None
    if z3.is_implies(e) and not _has_real(e.arg(0), memo):
        p = _bool_part(e.arg(1), memo)
        return None if p is None else z3.Implies(e.arg(0), p)
    return None


def index_equalities(exprs, idx):
    """[(F(G(x)), x)] for selected elements F(G(x)) that provably equal x"""
    cand = []
    for t in idx:
        if z3.is_app(t) and t.num_args() and t.decl().kind() == \
                z3.Z3_OP_UNINTERPRETED:
            g = t.arg(t.num_args() - 1)
            if z3.is_app(g) and g.num_args() and g.decl().kind() == \
                    z3.Z3_OP_UNINTERPRETED and g.sort() == z3.IntSort():
                cand.append((t, g.arg(g.num_args() - 1)))
    if not cand:
        return []
    memo = {}
    parts = [p for p in (_bool_part(e, memo) for e in exprs)
             if p is not None]
    out = []
    s = z3.Solver()
    s.set("timeout", 1500)
    s.add(*parts)
    for t, x in cand[:12]:
        s.push()
        s.add(t != x)
        if s.check() == z3.unsat:
            out.append((t, x))
        s.pop()
    return out


def ackermann(exprs):
    """replace uninterpreted applications by fresh constants (+ congruence)"""
    apps = {}
    order = []

    def walk(e, seen=set()):
        pass
    subst = {}
    memo = {}

    def go(e):
        i = e.get_id()
        if i in memo:
            return memo[i][0]
        if z3.is_app(e) and e.num_args() > 0:
            ch = [go(x) for x in e.children()]
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                key = (e.decl().name(), tuple(x.get_id() for x in ch))
                if key not in subst:
                    v = z3.Const(f"ack!{len(subst)}", e.sort())
                    subst[key] = (v, e.decl(), ch)
                r = subst[key][0]
            else:
                r = e.decl()(*ch) if any(
                    not a.eq(b) for a, b in zip(ch, e.children())) else e
        else:
            r = e
        memo[i] = (r, e)
        return r
    out = [go(e) for e in exprs]
    groups = {}
    for v, d, ch in subst.values():
        groups.setdefault(d.name(), []).append((v, ch))
    cong = []
    _ack_full[0] = True
    for lst in groups.values():
        for i in range(len(lst)):
            for j in range(i + 1, len(lst)):
                if len(cong) > 600:
                    _ack_full[0] = False
                    break
                cond = z3.And(*[a == b for a, b in zip(lst[i][1],
                                                       lst[j][1])])
                cond = z3.simplify(cond)
                if z3.is_false(cond):
                    continue
                cong.append(z3.Implies(cond, lst[i][0] == lst[j][0]))
    return out + cong


def nlsat(exprs, timeout):
    try:
        ex = ackermann(exprs)
        t = z3.Then("simplify", "propagate-values", "solve-eqs",
                    "purify-arith", "elim-term-ite", "simplify", "tseitin-cnf",
                    "nlsat")
        s = t.solver()
        s.set("timeout", int(timeout))
        s.add(*ex)
        r = s.check()
        if r == z3.sat and not _ack_full[0]:
            return z3.unknown
        return r
    except z3.Z3Exception:
        return z3.unknown


def cvc5_check(exprs, timeout):
    """unsat / unknown from cvc5 through SMT-LIB"""
    try:
        import cvc5
        s = z3.Solver()
        s.add(*exprs)
        txt = s.to_smt2()
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(int(timeout)))
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            if "check-sat" in str(cmd):
                break
            cmd.invoke(slv, sm)
        r = slv.checkSat()
        return "unsat" if r.isUnsat() else "sat" if r.isSat() else "unknown"
    except Exception as e:           # parser/option errors: undecided
        return "unknown"


class Result:
    def __init__(self, status, backend, secs, model=None):
        self.status, self.backend = status, backend
        self.secs, self.model = secs, model


def discharge(o, budget=20000):
    t0 = time.time()

    def done(st, be, model=None):
        dt = time.time() - t0
        if st == "proved":
            STATS[be] = STATS.get(be, 0) + 1
        STATS["time"] += dt
        return Result(st, be, dt, model)
    g = z3.simplify(o.goal)
    if z3.is_true(g):
        return done("proved", "simplify")
    c = Ctx.cur
    if c is not None and "inst_rounds" in c.ghost:
        c.idx = list(o.idx)
        c.idx_ids = {t.get_id() for t in o.idx}
    neg = z3.Not(o.goal)
    # 1. cheap: no instantiation
    r, s = _check(o.hyps + [neg], min(1500, budget))
    if r == z3.unsat:
        return done("proved", "z3")
    if linear.check(o.hyps, neg, min(1500, budget)) == z3.unsat:
        return done("proved", "z3-linear")
    own = T.transcendental_axioms([neg])
    if own:     # what the functions in the goal alone are known to do
        r, s = _check([neg] + own, min(500, budget))
        if r == z3.unsat:
            return done("proved", "z3")
    if c is not None and c.ghost.get("quantified"):
        r, s = _check(o.hyps + quantify(c, o.facts) + [neg],
                      min(c.ghost["quantified"], budget))
        if r == z3.unsat:
            return done("proved", "z3-quantified")
        rel = goal_terms(o.goal, o.idx)
        rel += [t for t in o.idx[::-1] if not any(t is x for x in rel)]
        r, s = _check(o.hyps + instantiate(o.facts, rel[:14], 600) + [neg],
                      4000)
        if r == z3.unsat:
            return done("proved", "z3")
        return done("refuted", "z3", s.model()) if r == z3.sat \
            else done("unknown", "none")
    pool = o.idx
    if c is not None and "inst_rounds" in c.ghost:
        # 2. index terms of the goal only
        rel = goal_terms(o.goal, o.idx)
        pool = rel + [t for t in o.idx if not any(t is r for r in rel)]
        if rel:
            n0 = len(c.idx)
            ex = o.hyps + instantiate(o.facts, rel[:12], 600) + [neg]
            for t in c.idx[n0:]:
                c.idx_ids.discard(t.get_id())
            del c.idx[n0:]
            eqs = index_equalities(ex[:-1], rel[:12])
            if eqs:
                eqs.sort(key=lambda p: -len(str(p[0])))
                sub = [z3.substitute(e, *eqs) for e in ex]
                r, s = _check(sub, min(1500, budget))
                if r == z3.unsat:
                    return done("proved", "z3")
                if linear.check(sub[:-1], sub[-1],
                                min(1500, budget)) == z3.unsat:
                    return done("proved", "z3-linear")
            r, s = _check(ex, min(2500, budget))
            if r == z3.unsat:
                return done("proved", "z3")
    inst = _instances(o.facts, pool)
    if linear.check(o.hyps + inst, neg, min(3000, budget)) == z3.unsat:
        return done("proved", "z3-linear")
    ex = o.hyps + inst + [neg]
    eqs = index_equalities(o.hyps + inst, o.idx)
    if eqs:
        eqs.sort(key=lambda p: -len(str(p[0])))
        ex = [z3.substitute(e, *eqs) for e in ex]
        if linear.check(ex[:-1], ex[-1], min(3000, budget)) == z3.unsat:
            return done("proved", "z3-linear")
        ex += [a == b for a, b in eqs]
    ax = T.transcendental_axioms(ex)
    full = ex + ax
    r, s = _check(full, min(6000, budget))
    if r == z3.unsat:
        return done("proved", "z3")
    model = s.model() if r == z3.sat else None
    if r == z3.sat:
        return done("refuted", "z3", model)
    r2 = nlsat(full, min(8000, budget))
    if r2 == z3.unsat:
        return done("proved", "z3-nlsat")
    # relevance-filtered attempt: only hypotheses sharing symbols
    c5 = cvc5_check(full, min(8000, budget))
    if c5 == "unsat":
        return done("proved", "cvc5")
    if r2 == z3.sat or c5 == "sat":
        # get a model from z3 with more time
        r, s = _check(full, 10000)
        if r == z3.sat:
            return done("refuted", "z3", s.model())
        if r == z3.unsat:
            return done("proved", "z3")
        return done("refuted", "z3-nlsat" if r2 == z3.sat else "cvc5", None)
    s = z3.SolverFor("QF_UFNIRA")
    s.set("timeout", 8000)
    s.add(*full)
    r = s.check()
    if r == z3.unsat:
        return done("proved", "z3")
    if r == z3.sat:
        return done("refuted", "z3", s.model())
    if guided(o.hyps + inst, neg, ax) == z3.unsat:
        return done("proved", "z3-guided")
    return done("unknown", "none")


def _size(e, cap=400):
    n, todo = 0, [e]
    while todo and n < cap:
        x = todo.pop()
        n += 1
        todo += x.children()
    return n


def guided(hyps, neg, ax, limit=12.0):
    """prove the premises of the function axioms one by one, keep the
    conclusions, then decide the goal over opaque function values"""
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", 400)
    s.add(*hyps)

    def holds(f):
        if time.time() - t0 > limit:
            return False
        s.push()
        s.add(z3.Not(f))
        r = s.check()
        s.pop()
        return r == z3.unsat
    got = []
    for a in ax:
        if _size(a) >= 400:
            continue
        if z3.is_implies(a):
            if holds(a.arg(0)):
                got.append(a.arg(1))
        elif z3.is_eq(a) and z3.is_bool(a.arg(0)):
            p, q = a.arg(0), a.arg(1)
            if holds(p):
                got.append(q)
            elif holds(z3.Not(p)):
                got.append(z3.Not(q))
        else:
            got.append(a)
    # second round: conclusions of the form And(p == q, ...)
    more = []
    for g in got:
        for e in (g.children() if z3.is_and(g) else [g]):
            if z3.is_eq(e) and z3.is_bool(e.arg(0)):
                p, q = e.arg(0), e.arg(1)
                if holds(p):
                    more.append(q)
                elif holds(z3.Not(p)):
                    more.append(z3.Not(q))
                else:
                    # one-sided information of a strict comparison
                    if z3.is_lt(p) and holds(p.arg(0) <= p.arg(1)) \
                            and z3.is_lt(q):
                        more.append(q.arg(0) <= q.arg(1))
                    if z3.is_lt(p) and holds(p.arg(1) <= p.arg(0)):
                        more.append(z3.Not(q))
            else:
                more.append(e)
    small = [h for h in hyps if _size(h) < 25]
    if nlsat(more + [neg], 4000) == z3.unsat:
        return z3.unsat
    return nlsat(more + small + [neg], 6000)


import contextlib


@contextlib.contextmanager
def quiet_idx(c):
    """c.idx temporarily extended by the terms instantiation brings up"""
    n = len(c.idx)
    try:
        _instances(c.facts, c.idx)
        yield
    finally:
        for t in c.idx[n:]:
            c.idx_ids.discard(t.get_id())
        del c.idx[n:]
