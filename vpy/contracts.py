"""Reusable ghost contracts: termination measures, collaborator stubs."""
import z3
from . import terms as T
from .terms import Unsupported
from .engine import Sym, SymArray, ctx, Ctx, quiet


def terminates(c, key_part):
    """every back edge of the loops whose key contains key_part decreases an
    integer measure bounded below: some integer local grows by at least one
    while bounded above by a value fixed at loop entry"""
    def hook(when, cut, env):
        if key_part not in cut.key or cut.rng is not None:
            return
        if when == "head":
            cut.ghost_head = dict(env)
            return
        h = cut.ghost_head
        ints = []
        for n in cut.names:
            a, b = h.get(n), env.get(n)
            if isinstance(a, (Sym, int)) and isinstance(b, (Sym, int)) \
                    and not isinstance(a, bool):
                ta, tb = T.val(T.lift(a)), T.val(T.lift(b))
                if T.is_int(ta) and T.is_int(tb):
                    ints.append((n, ta, tb))
        for n, ta, tb in ints:
            if not c.provable(tb >= ta + 1):
                continue
            for rn, r in cut.refs:
                if not T.is_int(r) or rn == "0":
                    continue
                if c.provable(ta <= r):
                    c.oblige(f"terminates: {rn} - {n} decreases",
                             z3.And(tb >= ta + 1, ta <= r))
                    return
        raise Unsupported(f"no termination measure found for {cut.key}")
    c.ghost.setdefault("loop_hooks", []).append(hook)


class Stub:
    """collaborator object with attributes and method contracts"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def sum_le(c, name, f, g, n):
    """lemma: pointwise order carries over to the sums over 0..n-1"""
    from .npshim import sum_term
    n0 = len(c.pc)
    k = c.fresh_idx(n, "sl")
    with quiet():
        a, b = f(k), g(k)
    c.oblige(f"lemma {name}: pointwise", a <= b, kind="lemma")
    del c.pc[n0:]
    c.assume(sum_term(f, n) <= sum_term(g, n))


def sum_pos(c, name, f, n):
    """lemma: a non-empty sum of positive terms is positive"""
    from .npshim import sum_term
    n0 = len(c.pc)
    k = c.fresh_idx(n, "sl")
    with quiet():
        a = f(k)
    c.oblige(f"lemma {name}: summand positive", a > 0, kind="lemma")
    del c.pc[n0:]
    c.oblige(f"lemma {name}: not empty", n >= 1, kind="lemma")
    c.assume(sum_term(f, n) > 0)


def sum_nonneg(c, name, f, n):
    """lemma: a sum of non-negative terms is not negative"""
    from .npshim import sum_term
    n0 = len(c.pc)
    k = c.fresh_idx(n, "sl")
    with quiet():
        a = f(k)
    c.oblige(f"lemma {name}: summand not negative", a >= 0, kind="lemma")
    del c.pc[n0:]
    c.assume(sum_term(f, n) >= 0)


def induct(c, name, P, n, ns=()):
    """lemma by induction: P(k, *idx) for all 0 <= k <= n (ghost functions
    only); afterwards available at k = n and as a quantified fact"""
    n0 = len(c.pc)
    i1 = len(c.idx)
    ns = tuple(T.val(T.lift(m)) for m in ns)
    ix = tuple(c.fresh_idx(m, "li") for m in ns)
    c.oblige(f"lemma {name}: base", P(z3.IntVal(0), *ix), kind="lemma")
    k = c.fresh_idx(n, "lk")
    c.note_idx(z3.simplify(k + 1))
    c.oblige(f"lemma {name}: step", z3.Implies(P(k, *ix), P(k + 1, *ix)),
             kind="lemma")
    del c.pc[n0:]
    for t in c.idx[i1:]:
        c.idx_ids.discard(t.get_id())
    del c.idx[i1:]
    nt = T.val(T.lift(n))
    if ns:
        c.fact(lambda *i: P(nt, *i), tuple(ns))
    else:
        c.assume(P(nt))


def note_positions(c, e):
    """let the prover look at the position of element e in every selection
    (np.nonzero) made so far"""
    from .npshim import index_info
    for k, v in list(c.ghost.items()):
        if isinstance(k, tuple) and k and k[0] == "nz":
            try:
                index_info(v[0]).pos(e)
            except (Unsupported, TypeError):
                pass
