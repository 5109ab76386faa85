"""Sound linearisation: products are expanded to sums of monomials and each
nonlinear monomial becomes one fresh real.  Unsatisfiable afterwards implies
unsatisfiable before (the monomial variables forget their meaning)."""
from fractions import Fraction
import z3

CAP = 400


class TooBig(Exception):
    pass


_K = z3
ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS,
         z3.Z3_OP_DIV, z3.Z3_OP_POWER}
CMP = {z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ,
       z3.Z3_OP_DISTINCT}


class Lin:
    def __init__(self):
        self.memo = {}
        self.polys = {}
        self.mono = {}
        self.keep = []
        self.atoms = {}

    def var(self, key):
        v = self.mono.get(key)
        if v is None:
            v = self.mono[key] = z3.Real(f"mono!{len(self.mono)}")
        return v

    def poly(self, e):
        """{sorted tuple of atom ids: coefficient}"""
        i = e.get_id()
        h = self.polys.get(i)
        if h is not None:
            return h[0]
        r = self._poly(e)
        if len(r) > CAP:
            raise TooBig()
        self.polys[i] = (r, e)
        return r

    def _poly(self, e):
        if z3.is_rational_value(e) or z3.is_int_value(e):
            v = e.as_fraction() if z3.is_rational_value(e) else \
                Fraction(e.as_long())
            return {(): Fraction(v)} if v else {}
        k = e.decl().kind() if z3.is_app(e) else None
        ch = e.children() if k in ARITH else ()
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            out = dict(self.poly(ch[0]))
            sg = -1 if k == z3.Z3_OP_SUB else 1
            for c in ch[1:]:
                for m, q in self.poly(c).items():
                    s = out.get(m, 0) + sg * q
                    if s:
                        out[m] = s
                    else:
                        out.pop(m, None)
            return out
        if k == z3.Z3_OP_UMINUS:
            return {m: -q for m, q in self.poly(ch[0]).items()}
        if k == z3.Z3_OP_MUL:
            out = {(): Fraction(1)}
            for c in ch:
                out = self.times(out, self.poly(c))
            return out
        if k == z3.Z3_OP_DIV:
            d = self.poly(ch[1])
            if len(d) == 1 and () in d:
                return {m: q / d[()] for m, q in self.poly(ch[0]).items()}
            n = self.poly(ch[0])
            inv = self.atom(z3.RealVal(1) / self.tr(ch[1]))
            return self.times(n, {(inv,): Fraction(1)})
        if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) or \
                k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and \
                ch[1].denominator_as_long() == 1:
            n = ch[1].numerator_as_long() if z3.is_rational_value(ch[1]) \
                else ch[1].as_long()
            if 0 < n <= 6:
                b = self.poly(ch[0])
                out = b
                for _ in range(n - 1):
                    out = self.times(out, b)
                return out
        a = self.atom(self.tr_atom(e))
        return {(a,): Fraction(1)}

    def times(self, a, b):
        if len(a) * len(b) > 40 * CAP:
            raise TooBig()
        out = {}
        for m, p in a.items():
            for n, q in b.items():
                k = tuple(sorted(m + n))
                s = out.get(k, 0) + p * q
                if s:
                    out[k] = s
                else:
                    out.pop(k, None)
        return out

    def atom(self, e):
        self.atoms[e.get_id()] = e
        return e.get_id()

    def build(self, p, real=True):
        ts = []
        for m, q in sorted(p.items()):
            if not m:
                ts.append(z3.RealVal(q))
                continue
            v = self.atoms[m[0]] if len(m) == 1 else self.var(m)
            if v.sort() == z3.IntSort():
                v = z3.ToReal(v)
            ts.append(v if q == 1 else z3.RealVal(q) * v)
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)

    def tr_atom(self, e):
        """rebuild an opaque term (ite, application) from its parts"""
        ch = e.children()
        if not ch:
            return e
        new = [self.tr(c) for c in ch]
        if all(a.eq(b) for a, b in zip(new, ch)):
            return e
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            return z3.If(*new)
        return e.decl()(*new)

    def tr(self, e):
        i = e.get_id()
        h = self.memo.get(i)
        if h is not None:
            return h[0]
        r = self._tr(e)
        self.memo[i] = (r, e)
        return r

    def _tr(self, e):
        if not z3.is_app(e):
            return e
        k = e.decl().kind()
        if k in CMP and e.arg(0).sort() == z3.RealSort() and \
                e.num_args() == 2:
            p = dict(self.poly(e.arg(0)))
            for m, q in self.poly(e.arg(1)).items():
                s = p.get(m, 0) - q
                if s:
                    p[m] = s
                else:
                    p.pop(m, None)
            if p:
                lead = p[min(p, key=lambda m: (not m, m))]
                f = abs(lead) if k not in (z3.Z3_OP_EQ,
                                           z3.Z3_OP_DISTINCT) else lead
                p = {m: q / f for m, q in p.items()}
            return e.decl()(self.build(p), z3.RealVal(0))
        if e.sort() == z3.RealSort():
            if k in ARITH:
                return self.build(self.poly(e))
            return self.tr_atom(e)
        ch = e.children()
        if not ch:
            return e
        new = [self.tr(c) for c in ch]
        if all(a.eq(b) for a, b in zip(new, ch)):
            return e
        if k == z3.Z3_OP_AND:
            return z3.And(*new)
        if k == z3.Z3_OP_OR:
            return z3.Or(*new)
        if k == z3.Z3_OP_ITE:
            return z3.If(*new)
        if k == z3.Z3_OP_ADD:
            return z3.Sum(*new)
        if k == z3.Z3_OP_MUL:
            return z3.Product(*new)
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*new)
        return e.decl()(*new)


def check(hyps, neg, timeout):
    """unsat, or unknown; nothing to gain without nonlinear monomials in the
    goal"""
    L = Lin()
    try:
        g = L.tr(neg)
    except TooBig:
        return z3.unknown
    if not L.mono:
        return z3.unknown
    out = [g]
    for h in hyps:
        try:
            out.append(L.tr(h))
        except TooBig:
            pass
    s = z3.Solver()
    s.set("timeout", int(timeout))
    s.add(*out)
    return z3.unsat if s.check() == z3.unsat else z3.unknown
