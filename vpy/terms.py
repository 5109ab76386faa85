"""Element terms: z3 expressions, and dual numbers over them (forward-mode
differentiation of the real code).  All numeric values are mathematical reals
and integers; the transcendental functions are uninterpreted and constrained
only by the axioms in AXIOMS (instantiated on the terms of each query)."""
from fractions import Fraction
import math
import z3


class Pool:
    """instantiation domain of a quantified variable"""

    def __init__(self, terms=()):
        self.terms = []
        self.ids = set()
        for t in terms:
            self.add(t)

    def add(self, t):
        if t.get_id() not in self.ids:
            self.ids.add(t.get_id())
            self.terms.append(t)


class Unsupported(Exception):
    """A construct outside the verified subset: the unit becomes undecided."""


R = z3.RealSort()
I = z3.IntSort()
TANH = z3.Function("tanh", R, R)
COSH = z3.Function("cosh", R, R)
EXP = z3.Function("exp", R, R)
LOG = z3.Function("log", R, R)
SQRT = z3.Function("sqrt", R, R)
POW = z3.Function("pow", R, R, R)
SIN = z3.Function("sin", R, R)
COS = z3.Function("cos", R, R)

_ctx_welldef = None      # set by engine: callable(name, formula)


def set_welldef(fn):
    global _ctx_welldef
    _ctx_welldef = fn


def welldef(name, formula):
    if _ctx_welldef is not None:
        _ctx_welldef(name, formula)


class Dual:
    __slots__ = ("v", "d")

    def __init__(self, v, d):
        self.v = v
        self.d = d


INF = float("inf")


def lift(x):
    """python/numpy scalar or z3 term -> term"""
    if isinstance(x, (Dual,)):
        return x
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported(f"non-finite literal {x}")
        return z3.RealVal(str(Fraction(repr(x))))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    t = type(x).__module__
    if t == "numpy":
        return lift(x.item())
    if hasattr(x, "_term"):
        return x._term()
    raise Unsupported(f"cannot lift {type(x)!r}")


def val(t):
    return t.v if isinstance(t, Dual) else t


def is_bool(t):
    return isinstance(t, z3.BoolRef)


def is_int(t):
    return isinstance(t, z3.ArithRef) and t.sort() == I


def to_real(t):
    if isinstance(t, Dual):
        return t
    if is_bool(t):
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    if is_int(t):
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


def to_arith(t):
    if is_bool(t):
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def const_val(t):
    """Fraction if t is a numeral, else None"""
    if isinstance(t, Dual):
        return None
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def _num(fr, like_int=False):
    if like_int and fr.denominator == 1:
        return z3.IntVal(fr.numerator)
    return z3.RealVal(str(fr))


def _both(a, b):
    a, b = to_arith(a), to_arith(b)
    if is_int(a) and is_int(b):
        return a, b, True
    return to_real(a), to_real(b), False


def t_add(a, b):
    if isinstance(a, Dual) or isinstance(b, Dual):
        a, b = mkdual(a), mkdual(b)
        return Dual(t_add(a.v, b.v), t_add(a.d, b.d))
    a, b, ints = _both(a, b)
    ca, cb = const_val(a), const_val(b)
    if ca is not None and cb is not None:
        return _num(ca + cb, ints)
    if ca == 0:
        return b
    if cb == 0:
        return a
    return a + b


def t_neg(a):
    if isinstance(a, Dual):
        return Dual(t_neg(a.v), t_neg(a.d))
    a = to_arith(a)
    c = const_val(a)
    if c is not None:
        return _num(-c, is_int(a))
    return -a


def t_sub(a, b):
    if isinstance(a, Dual) or isinstance(b, Dual):
        a, b = mkdual(a), mkdual(b)
        return Dual(t_sub(a.v, b.v), t_sub(a.d, b.d))
    a, b, ints = _both(a, b)
    ca, cb = const_val(a), const_val(b)
    if ca is not None and cb is not None:
        return _num(ca - cb, ints)
    if cb == 0:
        return a
    if ca == 0:
        return -b
    return a - b


def t_mul(a, b):
    if isinstance(a, Dual) or isinstance(b, Dual):
        a, b = mkdual(a), mkdual(b)
        return Dual(t_mul(a.v, b.v),
                    t_add(t_mul(a.v, b.d), t_mul(a.d, b.v)))
    a, b, ints = _both(a, b)
    ca, cb = const_val(a), const_val(b)
    if ca is not None and cb is not None:
        return _num(ca * cb, ints)
    for c, o in ((ca, b), (cb, a)):
        if c is not None:
            if c == 0:
                return _num(Fraction(0), ints)
            if c == 1:
                return o
    return a * b


def t_div(a, b, check=True):
    if isinstance(a, Dual) or isinstance(b, Dual):
        a, b = mkdual(a), mkdual(b)
        v = t_div(a.v, b.v, check)
        num = t_sub(t_mul(a.d, b.v), t_mul(a.v, b.d))
        return Dual(v, t_div(num, t_mul(b.v, b.v), False))
    a, b = to_real(to_arith(a)), to_real(to_arith(b))
    cb = const_val(b)
    ca = const_val(a)
    if cb is not None:
        if cb == 0:
            if check:
                welldef("nonzero divisor", z3.BoolVal(False))
            return a / b
        if ca is not None:
            return _num(ca / cb)
        if cb == 1:
            return a
        return t_mul(a, _num(1 / cb))
    if check:
        welldef("nonzero divisor", b != 0)
    return a / b


def mkdual(t):
    if isinstance(t, Dual):
        return t
    return Dual(to_real(to_arith(t)), z3.RealVal(0))


def t_if(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, Dual) or isinstance(b, Dual):
        a, b = mkdual(a), mkdual(b)
        return Dual(t_if(c, a.v, b.v), t_if(c, a.d, b.d))
    if is_bool(a) and is_bool(b):
        return z3.If(c, a, b)
    a, b, _ = _both(a, b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def _cmp(op, a, b):
    a, b = val(a), val(b)
    if op in ("eq", "ne") and is_bool(a) and is_bool(b):
        return (a == b) if op == "eq" else (a != b)
    a, b, _ = _both(a, b)
    ca, cb = const_val(a), const_val(b)
    if ca is not None and cb is not None:
        r = {"lt": ca < cb, "le": ca <= cb, "gt": ca > cb, "ge": ca >= cb,
             "eq": ca == cb, "ne": ca != cb}[op]
        return z3.BoolVal(r)
    if a.eq(b):
        return z3.BoolVal(op in ("le", "ge", "eq"))
    return {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b,
            "ge": lambda: a >= b, "eq": lambda: a == b,
            "ne": lambda: a != b}[op]()


def t_lt(a, b): return _cmp("lt", a, b)
def t_le(a, b): return _cmp("le", a, b)
def t_gt(a, b): return _cmp("gt", a, b)
def t_ge(a, b): return _cmp("ge", a, b)
def t_eq(a, b): return _cmp("eq", a, b)
def t_ne(a, b): return _cmp("ne", a, b)


def t_max(a, b):
    return t_if(t_ge(a, b), a, b)


def t_min(a, b):
    return t_if(t_le(a, b), a, b)


def t_abs(a):
    return t_if(t_ge(a, z3.IntVal(0)), a, t_neg(a))


def t_bool(a):
    a = val(a)
    if is_bool(a):
        return a
    return t_ne(a, z3.IntVal(0))


def _map_if(t, f):
    """push f through If-then-else"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return t_if(t.arg(0), _map_if(t.arg(1), f), _map_if(t.arg(2), f))
    return f(t)


def t_tanh(a):
    if isinstance(a, Dual):
        y = t_tanh(a.v)
        return Dual(y, t_mul(a.d, t_sub(z3.RealVal(1), t_mul(y, y))))
    a = to_real(to_arith(a))
    if const_val(a) == 0:
        return z3.RealVal(0)
    return TANH(a)


def t_cosh(a):
    if isinstance(a, Dual):
        y = t_cosh(a.v)
        return Dual(y, t_mul(a.d, t_mul(y, t_tanh(a.v))))
    a = to_real(to_arith(a))
    if const_val(a) == 0:
        return z3.RealVal(1)
    return COSH(a)


def t_sinh(a):
    if isinstance(a, Dual):
        return Dual(t_sinh(a.v), t_mul(a.d, t_cosh(a.v)))
    return t_mul(t_tanh(a), t_cosh(a))


def _summands(t, coef=Fraction(1)):
    """decompose into [(coef, term)]"""
    c = const_val(t)
    if c is not None:
        return [(coef * c, None)]
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            return [s for ch in t.children() for s in _summands(ch, coef)]
        if k == z3.Z3_OP_SUB:
            ch = t.children()
            out = _summands(ch[0], coef)
            for x in ch[1:]:
                out += _summands(x, -coef)
            return out
        if k == z3.Z3_OP_UMINUS:
            return _summands(t.arg(0), -coef)
        if k == z3.Z3_OP_MUL:
            ch = t.children()
            cs = [const_val(x) for x in ch]
            rest = [x for x, c in zip(ch, cs) if c is None]
            f = coef
            for c in cs:
                if c is not None:
                    f *= c
            if len(rest) == 1:
                return _summands(rest[0], f)
        if k == z3.Z3_OP_DIV:
            c = const_val(t.arg(1))
            if c:
                return _summands(t.arg(0), coef / c)
    return [(coef, t)]


def _has_ite(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE


def _split_ite(t, seen=None):
    """find an ITE summand and split on it"""
    for c, s in _summands(t):
        if s is not None and _has_ite(s):
            return s
    return None


def t_exp(a):
    if isinstance(a, Dual):
        y = t_exp(a.v)
        return Dual(y, t_mul(a.d, y))
    a = to_real(to_arith(a))

    def f(t):
        if _has_ite(t):
            return t_if(t.arg(0), f(t.arg(1)), f(t.arg(2)))
        parts = _summands(t)
        for k, (c, s) in enumerate(parts):
            if s is not None and _has_ite(s):
                def rebuild(rep):
                    r = z3.RealVal(0)
                    for kk, (cc, ss) in enumerate(parts):
                        x = rep if kk == k else ss
                        r = t_add(r, t_mul(_num(cc), x) if x is not None
                                  else _num(cc))
                    return r
                return t_if(s.arg(0), f(rebuild(s.arg(1))),
                            f(rebuild(s.arg(2))))
        prod = z3.RealVal(1)
        rest = z3.RealVal(0)
        for c, s in parts:
            if s is None:
                rest = t_add(rest, _num(c))
            elif s.decl().eq(LOG) and c.denominator == 1 and abs(c) <= 4:
                x = s.arg(0)
                for _ in range(abs(int(c))):
                    prod = t_mul(prod, x) if c > 0 \
                        else t_div(prod, x, False)
            else:
                rest = t_add(rest, t_mul(_num(c), s))
        cr = const_val(rest)
        if cr == 0:
            return prod
        return t_mul(prod, EXP(rest))
    return f(a)


def t_log(a, check=True):
    if isinstance(a, Dual):
        return Dual(t_log(a.v, check), t_div(a.d, a.v, False))
    a = to_real(to_arith(a))
    if const_val(a) == 1:
        return z3.RealVal(0)
    if check:
        welldef("positive log argument", a > 0)
    if z3.is_app(a) and a.decl().eq(EXP):
        return a.arg(0)
    return LOG(a)


def t_sqrt(a, check=True):
    if isinstance(a, Dual):
        y = t_sqrt(a.v, check)
        return Dual(y, t_div(a.d, t_mul(z3.RealVal(2), y), False))
    a = to_real(to_arith(a))
    c = const_val(a)
    if c in (0, 1):
        return a
    if check:
        welldef("nonnegative sqrt argument", a >= 0)
    return SQRT(a)


def t_pow(a, p, check=True):
    pv = val(p)
    if isinstance(p, Dual):
        raise Unsupported("dual exponent")
    c = const_val(pv)
    if isinstance(a, Dual):
        y = t_pow(a.v, p, check)
        return Dual(y, t_mul(a.d, t_mul(
            to_real(pv), t_pow(a.v, t_sub(pv, z3.IntVal(1)), False))))
    if c is not None and c.denominator == 1 and 0 <= c <= 6:
        r = z3.IntVal(1) if is_int(to_arith(a)) else z3.RealVal(1)
        for _ in range(int(c)):
            r = t_mul(r, a)
        return r
    if c is not None and c.denominator == 1 and -6 <= c < 0:
        return t_div(z3.RealVal(1), t_pow(a, z3.IntVal(-int(c))), check)
    if c == Fraction(1, 2):
        return t_sqrt(a, check)
    a = to_real(to_arith(a))
    pr = to_real(to_arith(pv))
    if const_val(a) == 1:
        return z3.RealVal(1)
    if check:
        if is_int(pv):
            # python/numpy accept any base for an integral exponent >= 0
            welldef("power defined", z3.Or(a != 0, pr >= 0))
        else:
            welldef("power defined (real base/exponent)",
                    z3.Or(a > 0, z3.And(a == 0, pr >= 0)))
    return POW(a, pr)


def t_sin(a):
    if isinstance(a, Dual):
        return Dual(t_sin(a.v), t_mul(a.d, t_cos(a.v)))
    return SIN(to_real(a))


def t_cos(a):
    if isinstance(a, Dual):
        return Dual(t_cos(a.v), t_neg(t_mul(a.d, t_sin(a.v))))
    return COS(to_real(a))


def t_floordiv(a, b):
    a, b = val(a), val(b)
    a, b, ints = _both(a, b)
    ca, cb = const_val(a), const_val(b)
    if ca is not None and cb is not None and cb != 0:
        return _num(Fraction(math.floor(ca / cb)), ints)
    if ints:
        # z3 div is Euclidean; floor for positive divisors coincides
        if cb is not None and cb > 0:
            return a / b
        return z3.If(b > 0, a / b, z3.ToInt(z3.ToReal(a) / z3.ToReal(b)))
    return z3.ToReal(z3.ToInt(a / b))


def t_mod(a, b):
    q = t_floordiv(a, b)
    return t_sub(a, t_mul(b, q))


def t_trunc(a):
    """python int(): truncation toward zero"""
    a = to_arith(val(a))
    if is_int(a):
        return a
    c = const_val(a)
    if c is not None:
        return z3.IntVal(int(c))
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL:
        return a.arg(0)
    return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))


def t_floor(a):
    a = to_arith(val(a))
    if is_int(a):
        return a
    return z3.ToInt(a)


# --------------------------------------------------------------------------
# axioms for the uninterpreted transcendental functions
# --------------------------------------------------------------------------
AXIOMS = [
    "tanh: -1<tanh x<1, sign(tanh x)=sign x, strictly increasing, odd, "
    "|tanh x|<=|x|",
    "cosh: cosh x>=1, even, cosh^2(1-tanh^2)=1",
    "exp: exp x>0, exp x>=1+x, exp x<1/(1-x) side (x<1), strictly "
    "increasing, exp(log a)=a, exp(u+v)=exp u exp v (log summands), "
    "u<=v iff exp u<=exp v (comparisons of logarithms)",
    "log: sign(log a)=sign(a-1), strictly increasing, log(exp x)=x",
    "sqrt: sqrt a>=0, (sqrt a)^2=a",
    "pow: positivity, pow(1,p)=1, pow(x,0)=1, pow(x,1)=x, pow(0,p>0)=0, "
    "monotone in base (p>0) and exponent, pow(x,p+1)=x pow(x,p), "
    "Bernoulli bounds on [0,1]",
]


_TR = {"tanh", "cosh", "exp", "log", "sqrt", "pow"}
_CMP = (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT)
_scan_cache = {}


def _scan(top):
    """(transcendental applications, comparisons linear in logarithms) of one
    formula; cached per formula (the cache keeps it alive)"""
    hit = _scan_cache.get(top.get_id())
    if hit is not None:
        return hit[1]
    apps, cmps = {}, {}
    seen = set()
    stack = [top]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            n = e.num_args()
            if n:
                d = e.decl()
                k = d.kind()
                if k == z3.Z3_OP_UNINTERPRETED:
                    nm = d.name()
                    if nm in _TR:
                        apps[i] = (nm, e)
                elif k in _CMP:
                    cmps[i] = e
                stack.extend(e.children())
        elif z3.is_quantifier(e):
            stack.append(e.body())
    lc = []
    if any(nm == "log" for nm, _ in apps.values()):
        for e in cmps.values():
            if e.arg(0).sort() == R and any(
                    s is not None and s.decl().eq(LOG)
                    for x in e.children() for _, s in _summands(x)):
                lc.append(e)
    if len(_scan_cache) > 60000:
        _scan_cache.clear()
    _scan_cache[top.get_id()] = (top, (list(apps.values()), lc))
    return _scan_cache[top.get_id()][1]


def collect_apps(exprs, decls):
    names = {d.name() for d in decls}
    out = {n: {} for n in names}
    for t in exprs:
        for nm, e in _scan(t)[0]:
            if nm in names:
                out[nm][e.get_id()] = e
    return {k: list(v.values()) for k, v in out.items()}


def _log_atoms(exprs, limit=24):
    """comparisons whose sides are linear in logarithms"""
    out = {}
    for t in exprs:
        for e in _scan(t)[1]:
            out[e.get_id()] = e
    return list(out.values())[:limit]


def _exp_links(exprs):
    """l <= r  iff  exp l <= exp r, with exp of log-sums as products"""
    ax = []
    for e in _log_atoms(exprs):
        try:
            a, b = t_exp(e.arg(0)), t_exp(e.arg(1))
        except Unsupported:
            continue
        k = e.decl().kind()
        pos = []
        for x in collect_apps([e], [LOG])["log"]:
            pos.append(x.arg(0) > 0)
        g = {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b,
             z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b}[k]
        ax.append(z3.Implies(z3.And(*pos), e == g))
    return ax


def transcendental_axioms(exprs, max_pairs=900):
    from .engine import Ctx
    if Ctx.cur is not None and Ctx.cur.ghost.get("no_transcendental"):
        return []
    links = _exp_links(exprs)
    return links + _transcendental_axioms(list(exprs) + links, max_pairs)


def _transcendental_axioms(exprs, max_pairs=900):
    apps = collect_apps(exprs, [TANH, COSH, EXP, LOG, SQRT, POW])
    ax = []
    th = apps["tanh"]
    ch = apps["cosh"]
    for y in th:
        x = y.arg(0)
        ax += [y > -1, y < 1, (x > 0) == (y > 0), (x < 0) == (y < 0),
               z3.Implies(x >= 0, y <= x), z3.Implies(x <= 0, y >= x)]
    def pairs(lst):
        n = 0
        for i in range(len(lst)):
            for j in range(i + 1, len(lst)):
                n += 1
                if n > max_pairs:
                    return
                yield lst[i], lst[j]
    for a, b in pairs(th):
        xa, xb = a.arg(0), b.arg(0)
        ax += [(xa < xb) == (a < b), (xa == xb) == (a == b),
               (xa == -xb) == (a == -b), (xa < -xb) == (a < -b)]
    for y in ch:
        x = y.arg(0)
        ax += [y >= 1, (x == 0) == (y == 1)]
        t = TANH(x)
        ax += [y * y * (1 - t * t) == 1, t > -1, t < 1,
               (x > 0) == (t > 0), (x < 0) == (t < 0)]
        for o in th:
            xo = o.arg(0)
            if not xo.eq(x):
                ax += [z3.Implies(xo == x, o == t),
                       z3.Implies(xo == -x, o == -t)]
    for a, b in pairs(ch):
        xa, xb = a.arg(0), b.arg(0)
        ax += [z3.Implies(z3.Or(xa == xb, xa == -xb), a == b)]
    ex = apps["exp"]
    for y in ex:
        x = y.arg(0)
        ax += [y > 0, y >= 1 + x, (x > 0) == (y > 1), (x < 0) == (y < 1)]
        ax += [z3.Implies(x < 1, y * (1 - x) <= 1)]
    for a, b in pairs(ex):
        xa, xb = a.arg(0), b.arg(0)
        ax += [(xa < xb) == (a < b), (xa == xb) == (a == b),
               z3.Implies(xa == -xb, a * b == 1)]
    lg = apps["log"]
    for y in lg:
        x = y.arg(0)
        ax += [z3.Implies(x > 0, z3.And((x > 1) == (y > 0),
                                        (x < 1) == (y < 0), y <= x - 1))]
    for a, b in pairs(lg):
        xa, xb = a.arg(0), b.arg(0)
        ax += [z3.Implies(z3.And(xa > 0, xb > 0),
                          z3.And((xa < xb) == (a < b),
                                 (xa == xb) == (a == b)))]
    for y in apps["sqrt"]:
        x = y.arg(0)
        ax += [z3.Implies(x >= 0, z3.And(y >= 0, y * y == x))]
    pw = apps["pow"]
    for y in pw:
        x, p = y.arg(0), y.arg(1)
        ax += [z3.Implies(x > 0, y > 0),
               z3.Implies(z3.And(x == 0, p > 0), y == 0),
               z3.Implies(x == 1, y == 1),
               z3.Implies(p == 0, y == 1),
               z3.Implies(p == 1, y == x),
               z3.Implies(p == 2, y == x * x),
               z3.Implies(z3.And(x >= 0, x <= 1, p >= 0),
                          z3.And(y <= 1, y >= 0)),
               z3.Implies(z3.And(x >= 1, p >= 0), y >= 1),
               z3.Implies(z3.And(x > 0, x < 1, p > 0), y < 1),
               z3.Implies(z3.And(x > 1, p > 0), y > 1),
               z3.Implies(z3.And(x >= 0, x <= 1, p >= 1), y <= x),
               z3.Implies(z3.And(x >= 0, x <= 1, p >= 0, p <= 1), y >= x),
               z3.Implies(z3.And(x >= 0, p >= 1), y >= 1 + p * (x - 1)),
               z3.Implies(z3.And(x >= 0, p > 0, p <= 1),
                          y <= 1 + p * (x - 1))]
    for a, b in pairs(pw):
        xa, pa = a.arg(0), a.arg(1)
        xb, pb = b.arg(0), b.arg(1)
        ax += [z3.Implies(z3.And(pa == pb, pa > 0, xa >= 0, xb >= 0),
                          z3.And((xa < xb) == (a < b),
                                 (xa == xb) == (a == b))),
               z3.Implies(z3.And(xa == xb, pa == pb), a == b),
               z3.Implies(z3.And(xa == xb, xa > 0, pa == pb + 1),
                          a == xa * b),
               z3.Implies(z3.And(xa == xb, xa > 0, pb == pa + 1),
                          b == xa * a),
               z3.Implies(z3.And(xa == xb, xa > 0, xa < 1),
                          (pa < pb) == (a > b)),
               z3.Implies(z3.And(xa == xb, xa > 0, pa == -pb),
                          a * b == 1)]
    return ax
