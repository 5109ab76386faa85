"""Heat states: temperatures, Robin terms, objective values, energies."""
import z3
from vpy import terms as T, loops, npshim
from vpy.engine import Sym, SymArray, dim_term, as_array, quiet
from vpy.npshim import IndexInfo
from vpy.unit import Unit
from vpy.contracts import Stub
from props.fem import Mat, Problem, Cells, Field, Params, helpers

PROP = "P26"
SH = "sktopt.fea.solver_heat"
TH = "sktopt.mesh.task_heat"


class Regions:
    """any number of load cases: Dirichlet set i has the members M(i, .),
    listed as dof(i, 0..nd(i)-1), and the prescribed temperature value(i)"""

    def __init__(self, c, N, n=None, shared=False):
        self.c, self.N = c, N
        self.n = c.int("loads", 1) if n is None else n
        nt = dim_term(self.n)
        B = z3.BoolSort()
        self.nd = z3.Function("n_fixed", T.I, T.I)
        self.dof = z3.Function("fixed", T.I, T.I, T.I)
        self.M = z3.Function("in_fixed", T.I, T.I, B)
        self.pos = z3.Function("pos_fixed", T.I, T.I, T.I)
        self.value = z3.Function("prescribed", T.I, T.R)
        nd, dof, M, pos = self.nd, self.dof, self.M, self.pos
        Nt = dim_term(N)
        c.fact(lambda i: z3.And(nd(i) >= 1, nd(i) <= Nt), (nt,))
        c.fact(lambda i, j: z3.Implies(j < nd(i), z3.And(
            dof(i, j) >= 0, dof(i, j) < Nt, M(i, dof(i, j)))), (nt, Nt))
        c.fact(lambda i, d: z3.Implies(M(i, d), z3.And(
            pos(i, d) >= 0, pos(i, d) < nd(i), dof(i, pos(i, d)) == d)),
            (nt, Nt))
        if shared:
            c.fact(lambda i: nd(i) == nd(0), (nt,))
            c.fact(lambda i, j: dof(i, j) == dof(0, j), (nt, Nt))
            c.fact(lambda i, d: M(i, d) == M(0, d), (nt, Nt))

    def array(self, i):
        a = SymArray((self.nd(i),), lambda j: self.dof(i, j[0]), "int",
                     "fixed")
        info = IndexInfo(self.nd(i), self.N, lambda j: self.dof(i, j),
                         lambda d: self.M(i, d),
                         lambda d: self.c.note_idx(self.pos(i, d)), False)
        a.prov = (info, a.buf.f)
        return a

    def dofs(self, i):
        a = self.array(i)
        return Stub(N=self.N, i=i, vpy_dofs=a, flatten=lambda: a.copy())

    def lists(self):
        n = dim_term(self.n)
        return (loops.Seq(n, self.dofs),
                loops.Seq(n, lambda i: Sym(self.value(i))))


def setting(c):
    M = c.load(SH)
    N = c.int("N", 1)
    pr = Problem(c, N)
    c.patch(M, "scipy", pr.scipy())
    c.patch(M, "pyamg", pr.amg())
    c.patch(M, "skfem", Stub(enforce=pr.enforce, CellBasis=object,
                             Basis=object))
    return M, N, pr


class Solved:
    """the linear systems of a heat problem with several load cases"""

    def __init__(self, c, shared=False):
        self.c = c
        self.M, self.N, self.pr = setting(c)
        self.R = Regions(c, self.N, shared=shared)
        self.K = Mat(self.N, "K")
        self.emit = c.array("emit", self.N)
        self.e0 = self.emit.snap()
        self.U = c.array("u_all", (self.N, self.R.n))

    def check(self, how=None):
        """column i solves the system of load case i: this matrix and this
        right-hand side, with the nodes of set i at prescribed value i"""
        c, R, pr = self.c, self.R, self.pr
        i, d = c.fresh_idx(R.n, "i"), c.fresh_idx(self.N, "d")
        u = c.val(self.U, d, i)
        for k in (i, z3.IntVal(0)):
            c.note_idx(R.pos(k, d))
        for fam in c.ghost.get("families", []):
            fam.pool.add(i)
        c.post("solved", z3.BoolVal(len(pr.solved) == 1))
        s = pr.solved[0]
        c.post("of this matrix", z3.BoolVal(
            s.K.tag == "enforced" and s.K.of is self.K))
        if how:
            c.post("by the solver asked for", z3.BoolVal(s.how in how))
        rhs = z3.If(R.M(i, d), R.value(i), self.e0((d,)))
        if s.fam:
            fam = s.fam[-1]
            at = lambda fn: z3.substitute(fam.under(fn), (fam.k, i))  # noqa
            c.post("column i is the solution of load case i",
                   u == at(lambda: T.lift(s.uf((d,)))))
            c.post("prescribed values on set i, the load elsewhere",
                   at(lambda: T.lift(s.F((d,)))) == rhs)
            c.post("constraint of set i",
                   at(lambda: s.K.mem(d)) == R.M(i, d))
        else:
            c.post("column i is the solution of load case i",
                   u == s.uf((d, i)))
            c.post("prescribed values on set i, the load elsewhere",
                   T.lift(s.F((d, i))) == rhs)
            c.post("constraint of set i", s.K.mem(d) == R.M(i, d))
        c.post("prescribed temperatures hold", z3.Implies(
            R.M(i, d), u == R.value(i)))
        c.forall("load only read", self.emit,
                 lambda d, v: v == self.e0((d,)))
        c.reach("end")


def system(c, solver):
    """any number of load cases, same or different Dirichlet sets: each load
    case has its own prescribed temperatures"""
    S = Solved(c)
    M, pr = S.M, S.pr
    opts = object()
    rtol, it = c.real("rtol", lo_open=0), c.int("maxiter", 1)
    cfg = M.LinearSolverConfig(solver=solver, rtol=rtol, maxiter=it,
                               petsc_options=opts)
    asked = []

    def petsc(K, F, rtol=None, maxiter=None, petsc_options=None):
        asked.append((rtol, maxiter, petsc_options))
        return pr.solution(K, F, "petsc"), [1]
    c.patch(M, "solve_u_petsc_multi", petsc)
    c.patch(M, "petsc_options_for_solver", lambda s, o: (s, o))
    real = M.solve_heat_system_multi

    def again(K, emit, Ds, vals, U, cf):
        """a single load case (smaller: the recursion ends)"""
        c.post("fewer load cases", z3.And(
            z3.BoolVal(len(Ds) == 1 and len(vals) == 1), S.R.n.t > 1))
        c.post("same configuration", z3.BoolVal(cf is cfg))
        c.post("room for one column", dim_term(U.dims[1]) == 1)
        Ke, F = pr.enforce(K, emit, D=Ds[0], x=npshim.np_shim.full(
            Ds[0].N, vals[0]))
        U[:, 0] = pr.solution(Ke, F, "again")
        return Ke
    again.vpy_contract, again.vpy_body = True, real
    c.patch(M, "solve_heat_system_multi", again)
    Ds, vals = S.R.lists()
    try:
        real(S.K, S.emit, Ds, vals, S.U, cfg)
    except NotImplementedError:
        c.post("only iterative solvers are refused", z3.BoolVal(
            solver.startswith("cg")))
        return
    c.post("iterative solvers are refused", z3.BoolVal(
        not solver.startswith("cg")))
    S.check(("again", "petsc" if solver.startswith("petsc")
             else "spsolve"))
    if asked:
        r, m, o = asked[0]
        c.post("tolerance", T.lift(r) == rtol.t)
        c.post("iteration limit", T.lift(m) == it.t)
        c.post("options", z3.BoolVal(o == (solver, opts)))


def no_loads(c):
    """no load case: zero temperatures, nothing solved"""
    M, N, pr = setting(c)
    K = Mat(N, "K")
    U = c.array("u_all", (N, c.int("columns", 1)))
    M.solve_heat_system_multi(K, c.array("emit", N), [], [], U,
                              M.LinearSolverConfig(solver="auto"))
    c.forall("zero", U, lambda d, i, v: v == 0)
    c.post("nothing solved", z3.BoolVal(not pr.solved))
    c.reach("end")


def scipy_each(c):
    """each load case is solved with its own Dirichlet set"""
    S = Solved(c)
    c.ghost["map_loops"] = True
    Ds, vals = S.R.lists()
    S.M.solve_scipy_heat_multi_enforce(S.K, S.emit, Ds, vals, S.U)
    S.check()


def scipy_shared(c):
    """one matrix for all load cases, given equal Dirichlet sets"""
    S = Solved(c, shared=True)
    Ds, vals = S.R.lists()
    S.M.solve_scipy(S.K, S.emit, Ds, vals, S.U)
    S.check()


# -- integrands ---------------------------------------------------------------
def cells(c):
    M = c.load(SH)
    n, N = c.int("n_el", 1), c.int("N", 1)
    b = Cells(c, n, vector=None, N=N)
    b.patch(M)
    helpers(c, M)
    c.ghost["sum_ext"] = True
    c.ghost["no_sum_sign"] = True
    return M, n, N, b


def norm(G, e, q):
    """|gradient| at a point"""
    with quiet():
        return T.lift(npshim.np_shim.sqrt(
            Sym(sum(G(a, e, q) * G(a, e, q) for a in range(3)))))


def integral(b, e, fn):
    with quiet():
        return npshim.sum_term(lambda q: fn(e, q) * b.w(e, q), b.nqp)


def flat(r):
    """element values, whatever their leading unit axes"""
    r = as_array(r)
    while r.ndim > 1:
        r = r[0]
    return r


def robin_forms(c):
    """design-dependent exchange surface: h rho^p (1-rho)^q |grad rho| u v,
    with the ambient temperature on the right-hand side"""
    M, n, N, b = cells(c)
    h, Te = c.real("h"), c.real("T_env")
    p, q = c.real("p", 1), c.real("q", 1)
    rho = b.interpolate(c.array("rho_nodal", N))
    F = rho.vpy_field
    c.fact(lambda e, k: z3.And(F.V(e, k) >= 0, F.V(e, k) <= 1),
           (n, b.nqp))
    u, v = c.array("u", b.points()), c.array("v", b.points())
    bil, lin = M.get_robin_virtual(h, Te, p, q)
    e, k = c.fresh_idx(n, "e"), c.fresh_idx(b.nqp, "q")
    w = Params(rho=rho)
    r = F.V(e, k)
    s = h.t * T.t_pow(r, p.t) * T.t_pow(1 - r, q.t) * norm(F.G, e, k)
    c.post("exchange", c.val(bil.form(u, v, w), e, k) ==
           s * c.val(u, e, k) * c.val(v, e, k))
    c.post("ambient temperature", c.val(lin.form(v, w), e, k) ==
           s * Te.t * c.val(v, e, k))
    c.reach("end")


def flux_energy(b, m, F, e):
    """half conductivity times squared gradient, integrated over e"""
    return integral(b, e, lambda e, q: m.E(e) * sum(
        F.G(a, e, q) * F.G(a, e, q) for a in range(3)) / 2)


def energy_one(c):
    """thermal energy of element e with the element's own conductivity"""
    from props.P19 import Material
    M, n, N, b = cells(c)
    m = Material(c)
    c.assume(m.n.t == n.t)
    u = c.array("T", N)
    r = M.heat_energy_skfem(b, m.rho, u, m.E0, m.Emin, m.p,
                            elem_func=m.elem_func)
    c.post("of this temperature", z3.BoolVal(
        len(b.taken) == 1 and b.taken[0].u is u))
    e = c.fresh_idx(n, "e")
    c.post("energy", c.val(flat(r), e) == flux_energy(b, m, b.taken[0], e))
    c.reach("end")


def per_case(c, call, want, extra=lambda b: None):
    """column i of the result belongs to temperature i"""
    M, n, N, b = cells(c)
    c.ghost["map_loops"] = True
    loads = c.int("loads", 1)
    U = c.array("T_all", (N, loads))
    Uf = U.snap()
    r, ctx_ = call(M, b, U)
    e, i = c.fresh_idx(n, "e"), c.fresh_idx(loads, "i")
    d = c.fresh_idx(N, "d")
    fam = c.ghost["families"][-1]
    fam.pool.add(i)
    made = [x for x in b.taken if x.fam]
    c.post("one field per load case", z3.BoolVal(len(made) == 1))
    F = made[0]
    at = lambda fn: z3.substitute(fam.under(fn), (fam.k, i))    # noqa: E731
    c.post("of temperature i", at(lambda: T.lift(F.uf((d,)))) == Uf((d, i)))
    c.post("one row per element", dim_term(r.dims[0]) == n.t)
    c.post("one column per load case", dim_term(r.dims[1]) == loads.t)
    c.post("value", c.val(r, e, i) == at(lambda: want(b, F, e, ctx_)))
    c.forall("temperatures only read", U, lambda d, i, v: v == Uf((d, i)))
    c.reach("end")


def energy_many(c):
    """column i holds the element energies of temperature i"""
    from props.P19 import Material
    m = Material(c)

    def call(M, b, U):
        c.assume(m.n.t == dim_term(b.nel))
        return M.heat_energy_skfem_multi(
            b, m.rho, U, m.E0, m.Emin, m.p, elem_func=m.elem_func), m
    per_case(c, call, lambda b, F, e, m: flux_energy(b, m, F, e))


def excess_many(c):
    """column i holds the element integrals of temperature i minus ambient"""
    Te = c.real("T_env")
    per_case(c, lambda M, b, U: (M.avg_temp_skfem_multi(b, U, Te), Te),
             lambda b, F, e, Te: integral(
                 b, e, lambda e, q: F.V(e, q) - Te.t))


def excess_one(c):
    """element integral of the temperature minus the ambient one"""
    M, n, N, b = cells(c)
    Te, u = c.real("T_env"), c.array("T", N)
    r = M.avg_temp_skfem(b, u, Te)
    e = c.fresh_idx(n, "e")
    F = b.taken[0]
    c.post("of this temperature", z3.BoolVal(F.u is u))
    c.post("value", c.val(flat(r), e) == integral(
        b, e, lambda e, q: F.V(e, q) - Te.t))
    c.reach("end")


def exchange(c):
    """heat exchange: -T_env h (T - T_env) weighted by |grad rho|, over the
    exchange area; zero without exchange surface"""
    M, n, N, b = cells(c)
    h, Te = c.real("h"), c.real("T_env")
    u, rho = c.array("T", N), c.array("rho_nodal", N)
    got = M.heat_exchange_objective(b, u, rho, Te, h)
    F, R = b.taken[0], b.taken[1]
    c.post("of this state", z3.BoolVal(F.u is u and R.u is rho))

    def total(fn):
        with quiet():
            return npshim.sum_term(lambda e: integral(b, e, fn), n)
    num = total(lambda e, q: -Te.t * h.t * (F.V(e, q) - Te.t) *
                norm(R.G, e, q))
    den = total(lambda e, q: norm(R.G, e, q))
    got = T.to_real(T.lift(got))
    c.post("no surface, no exchange", z3.Implies(den <= 0, got == 0))
    c.post("exchange per area", z3.Implies(
        den > T.lift(1e-15), got * den == num))
    c.reach("end")


# -- state solve --------------------------------------------------------------
def state(c, bil, lin):
    """matrix = conduction + all Robin terms, load = sum of their ambient
    parts; every load case gets its own Dirichlet set and value"""
    M, N, pr = setting(c)
    n = c.int("loads", 1)
    calls, made, asked = [], [], []

    def conduction(basis, rho, k0, kmin, p, elem_func):
        K = Mat(N, "conduction", args=(basis, rho, k0, kmin, p, elem_func))
        made.append(K)
        return K
    conduction.vpy_contract = True
    c.patch(M, "composer", Stub(assemble_conduction_matrix=conduction,
                                simp_interpolation=object()))

    def solve(K, emit, Ds, vals, U, cfg):
        with quiet():
            calls.append((K, as_array(emit).snap(), Ds, vals, U, cfg,
                          U.snap()))
    solve.vpy_contract = True
    c.patch(M, "solve_heat_system_multi", solve)

    def get_dofs(facets=None, elements=None, nodes=None, skip=None):
        if facets is not None or elements is not None or skip is not None:
            raise T.Unsupported("other degrees of freedom")
        return Stub(nodes=nodes, N=N)
    basis = Stub(get_dofs=get_dofs)
    nodes = z3.Function("node", T.I, T.I, T.I)
    nn = z3.Function("n_nodes", T.I, T.I)
    c.fact(lambda i: nn(i) >= 1, (n,))

    def region(i):
        return SymArray((nn(i),), lambda j: nodes(i, j[0]), "int")
    Dn = loops.Seq(n.t, region)
    vals = loops.Seq(n.t, lambda i: c.fresh("value", T.R))
    U = c.array("u_all", (N, n))
    rho, law, free = object(), object(), object()
    k0, km, p = c.real("k"), c.real("kmin"), c.real("p")
    cfg = M.LinearSolverConfig(solver="auto")
    mats = [Mat(N, f"robin{i}") for i in range(bil if bil is not None else 1)]
    es = [c.array(f"emit{i}", N) for i in range(lin if lin is not None
                                                else 1)]
    ef = [e.snap() for e in es]
    B = mats[0] if bil is None else list(mats)
    E = es[0] if lin is None else list(es)
    K, emit, Ds = M.solve_multi_load(
        basis, free, Dn, vals, B, E, k0, km, p, rho, U, solver_config=cfg,
        elem_func=law)
    c.post("one solve", z3.BoolVal(len(calls) == 1))
    K1, e1, D1, v1, U1, c1, u1 = calls[0]
    want = (basis, rho, k0, km, p, law)
    for nm, a, b in zip(("basis", "densities", "solid", "void", "exponent",
                         "interpolation"), made[0].args, want):
        c.post(f"conduction: {nm}", z3.BoolVal(a is b))
    ts = [t for t in K1.terms()]
    c.post("conduction plus every Robin term, once", z3.BoolVal(
        len(ts) == 1 + len(mats) and all(
            sum(t is q for t in ts) == 1 for q in made + mats)))
    c.post("that matrix is returned", z3.BoolVal(K is K1))
    d = c.fresh_idx(N, "d")
    tot = sum([f((d,)) for f in ef], z3.RealVal(0))
    c.post("sum of the ambient parts", T.to_real(T.lift(e1((d,)))) == tot)
    c.post("that load is returned", c.val(emit, d) == tot)
    i = c.fresh_idx(n, "i")
    c.post("one set per load case", loops.seq_len(D1) == n.t)
    j = c.fresh("j", T.I)
    x, fam = item(D1)
    c.post("nodes of set i", z3.And(
        at_region(c, fam, i, lambda: dim_term(x.nodes.dims[0])) == nn(i),
        at_region(c, fam, i, lambda: c.val(x.nodes, j)) == nodes(i, j)))
    c.post("sets returned", z3.BoolVal(Ds is D1))
    c.post("values", z3.BoolVal(v1 is vals))
    c.post("written to the caller's array", z3.BoolVal(U1 is U))
    c.post("from a clean state", T.lift(u1((d, i))) == 0)
    c.post("solver", z3.BoolVal(c1 is cfg))
    c.post("lists unchanged", z3.BoolVal(
        (bil is None or B == mats) and (lin is None or all(
            a is b for a, b in zip(E, es)) and len(E) == len(es))))
    for q, e in enumerate(es):
        c.forall(f"ambient part {q} only read", e,
                 lambda d, v, q=q: v == ef[q]((d,)))
    c.reach("end")


def average(c, k, where="helper"):
    """density of a node: average over the elements that share it, however
    often they list it"""
    M = c.load(SH)
    n, V = c.int("n_el", 1), c.int("vertices", 1)
    t = c.array("t", (k, n), kind="int")
    tf = t.snap()
    c.fact(lambda e: z3.And(*[z3.And(
        tf((z3.IntVal(a), e)) >= 0, tf((z3.IntVal(a), e)) < V.t)
        for a in range(k)]), (n,))
    rho = c.array("rho", n)
    rf = rho.snap()
    c.ghost["sum_ext"] = True
    c.ghost["no_sum_sign"] = True
    basis = Stub(mesh=Stub(t=t, nvertices=V, nelements=n), N=V)
    r, cnt = M._element_to_nodal_average(basis, rho)
    v = c.fresh_idx(V, "v")

    def total(fn):
        with quiet():
            return sum([npshim.sum_term(lambda e: z3.If(
                tf((z3.IntVal(a), e)) == v, fn(e), z3.RealVal(0)), n)
                for a in range(k)], z3.RealVal(0))
    one = total(lambda e: z3.RealVal(1))
    c.post("elements of the node", c.val(cnt, v) == one)
    c.post("average", z3.Implies(
        one >= 1, c.val(r, v) * one == total(lambda e: rf((e,)))))
    c.post("no element, no density", z3.Implies(
        one <= 0, c.val(r, v) == total(lambda e: rf((e,)))))
    c.forall("densities only read", rho, lambda e, x: x == rf((e,)))
    c.reach("end")


# -- surfaces -----------------------------------------------------------------
class Surfaces:
    """contract of boundary integration: records which form is integrated
    over which facets with which parameters"""

    def __init__(self, c, M):
        self.c, self.M = c, M
        self.basis = Stub(mesh=Stub(nelements=c.int("n_el", 1)),
                          elem=object())
        import skfem
        c.patch(M, "FacetBasis", self.facet_basis)
        c.patch(M, "asm", self.asm)
        c.patch(M, "skfem", Stub(BilinearForm=skfem.BilinearForm,
                                 LinearForm=skfem.LinearForm, asm=self.asm,
                                 FacetBasis=self.facet_basis))

    def facet_basis(self, mesh, elem, facets=None, **k):
        if k:
            raise T.Unsupported("facet basis options")
        self.c.post("on this mesh and element", z3.BoolVal(
            mesh is self.basis.mesh and elem is self.basis.elem))
        return Stub(facets=as_array(facets), interpolate=self.field)

    def field(self, u):
        f = self.c.fresh_fn("rho_facet", T.I, T.I, T.R)
        self.c.fact(lambda e, q: z3.And(f(e, q) >= 0, f(e, q) <= 1), (4, 4))
        r = SymArray((4, 4), lambda i: f(*i), "real")
        self.rho = f
        return r

    def asm(self, form, fb, **k):
        return Stub(form=form, fb=fb, params=Params(k))

    def regions(self, n):
        nf = z3.Function("n_facets", T.I, T.I)
        F = z3.Function("facet", T.I, T.I, T.I)
        self.c.fact(lambda i: nf(i) >= 1, (n,))

        def reg(i):
            return SymArray((nf(i),), lambda j: F(i, j[0]), "int")
        return reg, nf, F


def at_region(c, fam, i, fn):
    if fam is None:
        return fn()
    return z3.substitute(fam.under(fn), (fam.k, i))


def item(ls):
    """(the generic item of a list built by a loop, its family)"""
    f = getattr(ls, "fam", None)
    if f is None:
        return ls[0], None
    return f[1][0], f[0]


def surface(c, kind, many, h="list", Te="list"):
    """region i exchanges with its own coefficient and ambient temperature
    (or receives its own flux) on its own facets"""
    M = c.load(TH)
    S = Surfaces(c, M)
    n = c.int("regions", 2) if many else z3.IntVal(1)
    nt = dim_term(n)
    reg, nf, F = S.regions(n)
    hf, tf = z3.Function("h", T.I, T.R), z3.Function("T_env", T.I, T.R)

    def lst(f, how):
        if how == "one":
            return Sym(f(0)), lambda i: f(0)
        return (loops.Seq(nt, lambda i: Sym(f(i))) if many
                else [Sym(f(0))]), f
    facets = loops.Seq(nt, reg) if many else reg(z3.IntVal(0))
    H, hw = lst(hf, h)
    E, tw = lst(tf, Te)
    i = c.fresh_idx(n, "i")
    j = c.fresh("j", T.I)
    u, v = c.array("u", (4, 4)), c.array("v", (4, 4))
    e, q = c.fresh_idx(4, "e"), c.fresh_idx(4, "q")
    if kind == "flux":
        r = M.assemble_surface_neumann(S.basis, facets, H)
        lists = [r if many else [r]]
    else:
        lists = list(M.assemble_surface_robin(S.basis, facets, H, E))
    for nm, ls in zip(("exchange", "ambient") if kind != "flux"
                      else ("flux",), lists):
        m, fam = item(ls)
        if many:
            c.post(f"{nm}: one term per region", loops.seq_len(ls) == nt)
        else:
            c.post(f"{nm}: one term", z3.BoolVal(len(ls) == 1))
        got = lambda fn: at_region(c, fam, i, fn)             # noqa: E731
        c.post(f"{nm}: facets of the region", z3.And(
            got(lambda: dim_term(m.fb.facets.dims[0])) == nf(i),
            got(lambda: c.val(m.fb.facets, j)) == F(i, j)))
        args = (u, v) if nm == "exchange" else (v,)
        x = got(lambda: T.to_real(T.lift(as_array(
            m.form.form(*args, m.params)).at(e, q))))
        vv = c.val(v, e, q)
        want = {"exchange": hw(i) * c.val(u, e, q) * vv,
                "ambient": hw(i) * tw(i) * vv, "flux": hw(i) * vv}[nm]
        c.post(f"{nm}: integrand", x == want)
    c.reach("end")


def refused(c):
    """lists of different lengths are refused"""
    M = c.load(TH)
    S = Surfaces(c, M)
    reg, nf, F = S.regions(3)
    rs = [reg(z3.IntVal(i)) for i in range(3)]
    x = [c.real(f"x{i}") for i in range(3)]
    for nm, call in (
            ("flux", lambda: M.assemble_surface_neumann(S.basis, rs, x[:2])),
            ("coefficient", lambda: M.assemble_surface_robin(
                S.basis, rs, x[:2], x)),
            ("ambient", lambda: M.assemble_surface_robin(
                S.basis, rs, x, x[:2])),
            ("facets", lambda: M.assemble_surface_robin(
                S.basis, rs[:1], x, x))):
        try:
            call()
            c.post(f"{nm} refused", z3.BoolVal(False))
        except ValueError:
            c.post(f"{nm} refused", z3.BoolVal(True))
    c.reach("end")


# -- objectives ---------------------------------------------------------------
class Model:
    """a heat task on a tetrahedral mesh with any number of load cases; the
    state solve under its own contract (units `state_*`)"""

    def __init__(self, c, objective, robin, lists=2, weight=None,
                 many=True):
        M = self.M = c.load(SH)
        self.c = c
        n, V = c.int("n_el", 1), c.int("vertices", 1)
        self.n, self.V = n, V
        t = c.array("t", (4, n), kind="int")
        tf = self.tf = t.snap()
        c.fact(lambda e: z3.And(*[z3.And(
            tf((z3.IntVal(a), e)) >= 0, tf((z3.IntVal(a), e)) < V.t)
            for a in range(4)]), (n,))
        self.rho = c.array("rho", n)
        rf = self.rf = self.rho.snap()
        c.fact(lambda e: z3.And(rf((e,)) >= 0, rf((e,)) <= 1), (n,))
        c.ghost.update(sum_ext=True, no_sum_sign=True, map_loops=True)
        b = self.b = Cells(c, n, vector=None, N=V, mesh=Stub(
            t=t, nvertices=V, nelements=n))
        b.patch(M)
        helpers(c, M)
        self.bil = [Mat(V, f"bil{i}") for i in range(lists)]
        self.lin = [c.array(f"lin{i}", V) for i in range(lists)]
        self.loads = c.int("loads", 1)
        if not many:
            c.assume(self.loads.t == 1)
        nt = self.loads.t
        self.Ds = loops.Seq(nt, lambda i: Stub(i=i)) if many else object()
        vf = z3.Function("prescribed", T.I, T.R)
        self.vals = loops.Seq(nt, lambda i: Sym(vf(i))) if many \
            else Sym(vf(0))
        self.h, self.Te = c.real("h"), c.real("T_env")
        self.w = c.real("avg_weight") if weight else 0.0
        if weight:
            c.assume(self.w.t != 0)
        self.task = Stub(
            k=c.real("k"), dirichlet_nodes=self.Ds, dirichlet_values=self.vals,
            basis=b, robin_bilinear=list(self.bil) if lists else None,
            robin_linear=list(self.lin) if lists else None,
            robin_coefficient=self.h if robin else None,
            robin_bc_value=self.Te if robin else None,
            design_robin_boundary=False, free_dofs=object(),
            objective=objective, avg_temp_weight=self.w)
        self.lists = (list(self.bil), list(self.lin))
        self.coeff, self.law = c.real("coeff"), object()
        self.cfg = M.LinearSolverConfig(solver="auto")
        self.p, self.q = c.real("p", 1), c.real("q", 1)
        if objective == "heat_exchange":    # its powers are taken: 3 and 4
            self.p, self.q = Sym(z3.RealVal(3)), Sym(z3.RealVal(4))
        self.K = Mat(V, "system")
        self.emit, self.dofs = c.array("emit", V), object()
        self.U = c.array("u_all", (V, self.loads))
        self.calls, self.adj, self.forms, self.hx = [], [], [], []

        def solve(*a, **k):
            self.calls.append((a, k))
            T_ = self.c.array("T", (V, self.loads))
            self.Tf = T_.snap()
            self.U[:, :] = T_
            return self.K, self.emit, self.dofs

        def adjoint(K, F, D, v, out, cfg):
            self.adj.append((K, F, D, v, out, cfg))
            out[:, :] = self.c.array("adjoint", (V, self.loads))

        def forms(h, Te, p, q):
            self.forms.append((h, Te, p, q))
            return form("exchange"), form("ambient")

        def form(nm):
            def assemble(basis, rho=None):
                r = Mat(V, nm) if nm == "exchange" else c.array(nm, V)
                self.forms.append((nm, basis, rho, r))
                return r
            return Stub(assemble=assemble)

        def hx(basis, Ti, nodal, Te, h):
            with quiet():
                v = c.fresh("J", T.R)
                self.hx.append((basis, as_array(Ti).snap(), nodal, Te, h, v,
                                list(c.family)))
            return Sym(v)
        for nm, f in (("solve_multi_load", solve),
                      ("solve_heat_system_multi", adjoint),
                      ("get_robin_virtual", forms),
                      ("heat_exchange_objective", hx)):
            f.vpy_contract = True
            c.patch(M, nm, f)
        c.patch(M, "skfem", Stub(CellBasis=self.cell_basis))
        c.patch(M, "_hx_adj_rhs_", Stub(
            assemble=lambda *a, **k: c.array("rhs", V)))
        self.fem = M.FEM_SimpLinearHeatConduction(
            self.task, self.coeff, self.law, solver_config=self.cfg, q=self.q)

    def cell_basis(self, mesh, elem):
        self.c.post("same mesh", z3.BoolVal(
            mesh is self.b.mesh and elem is self.b.elem))
        return self.b

    def nodal(self, f, v):
        """nodal averages of the densities"""
        tf, n, rf = self.tf, self.n, self.rf

        def total(fn):
            with quiet():
                return sum([npshim.sum_term(lambda e: z3.If(
                    tf((z3.IntVal(a), e)) == v, fn(e), z3.RealVal(0)), n)
                    for a in range(4)], z3.RealVal(0))
        one = total(lambda e: z3.RealVal(1))
        return z3.Implies(one >= 1, T.to_real(T.lift(f((v,)))) * one ==
                          total(lambda e: rf((e,))))

    def problem(self):
        """the state solve was asked for this task's problem"""
        c, t = self.c, self.task
        c.post("one state solve", z3.BoolVal(len(self.calls) == 1))
        (basis, free, D, v, bil, lin, k0, km, p, rho, U), kw = self.calls[0]
        as_list = lambda x: x if isinstance(x, loops.Seq) else [x]  # noqa
        c.post("state: mesh, densities, temperatures", z3.BoolVal(
            basis is self.b and rho is self.rho and U is self.U))
        if isinstance(self.Ds, loops.Seq):
            c.post("state: Dirichlet data", z3.BoolVal(
                D is self.Ds and v is self.vals))
        else:
            c.post("state: Dirichlet data", z3.BoolVal(
                len(D) == 1 and len(v) == 1 and D[0] is self.Ds
                and v[0] is self.vals))
        c.post("state: solid conductivity", T.lift(k0) == t.k.t)
        c.post("state: void conductivity",
               T.lift(km) == t.k.t * self.coeff.t)
        c.post("state: exponent", T.lift(p) == self.p.t)
        c.post("state: law and solver", z3.BoolVal(
            kw.get("elem_func") is self.law
            and kw.get("solver_config") is self.cfg))
        bil, lin = list(bil or []), list(lin or [])
        n = len(self.bil)
        extra = 1 if t.robin_coefficient is not None else 0
        c.post("state: the task's Robin terms, once", z3.BoolVal(
            len(bil) == n + extra and len(lin) == n + extra and all(
                sum(x is y for x in bil) == 1 for y in self.bil) and all(
                sum(x is y for x in lin) == 1 for y in self.lin)))
        if extra:
            c.post("exchange terms", z3.BoolVal(len(self.forms) == 3))
            h, Te, p, q = self.forms[0]
            c.post("exchange coefficient", T.lift(h) == self.h.t)
            c.post("ambient temperature", T.lift(Te) == self.Te.t)
            c.post("exchange exponents", z3.And(
                T.lift(p) == self.p.t, T.lift(q) == self.q.t))
            made = {f[0]: f for f in self.forms[1:]}
            c.post("state: exchange on the design's surface", z3.BoolVal(
                all(nm in made and made[nm][1] is self.b and any(
                    x is made[nm][3] for x in ls)
                    for nm, ls in (("exchange", bil), ("ambient", lin)))))
            v = c.fresh_idx(self.V, "v")
            for nm in ("exchange", "ambient"):
                c.post(f"{nm}: nodal densities", self.nodal(
                    made[nm][2].vpy_field.uf, v))
        else:
            c.post("no exchange terms", z3.BoolVal(not self.forms))
        c.post("the task's lists do not grow", z3.BoolVal(
            (t.robin_bilinear or []) == self.lists[0] and
            len(t.robin_linear or []) == len(self.lists[1]) and all(
                a is b for a, b in zip(t.robin_linear or [],
                                       self.lists[1]))))
        c.forall("densities only read", self.rho,
                 lambda e, x: x == self.rf((e,)))
        d, i = c.fresh_idx(self.V, "d"), c.fresh_idx(self.loads, "i")
        c.post("temperatures of the solve are kept",
               c.val(self.U, d, i) == self.Tf((d, i)))

    def sum_T(self, i):
        with quiet():
            return npshim.sum_term(lambda d: self.Tf((d, i)), self.V)


def at_item(c, ls, i):
    """value of item i of a list or array of floats"""
    if isinstance(ls, SymArray):
        return T.to_real(T.lift(ls.at(i)))
    x, fam = item(ls)
    return at_region(c, fam, i, lambda: T.to_real(T.lift(x)))


def compliance(c, robin, many=True):
    """objective i is T_i . (K T_i) with the solved system's matrix"""
    m = Model(c, "compliance", robin, many=many)
    J = m.fem.objectives_multi_load(m.rho, m.p, m.U)
    m.problem()
    i, d = c.fresh_idx(m.loads, "i"), c.fresh_idx(m.V, "d")
    c.post("one value per load case", dim_term(as_array(J).dims[0])
           == m.loads.t)
    fam = c.ghost["families"][-1]
    fam.pool.add(i)
    ps = m.K.products
    c.post("one product per load case", z3.BoolVal(len(ps) == 1))
    xf, yf = ps[0][0], ps[0][1]
    at = lambda fn: at_region(c, fam, i, fn)                  # noqa: E731
    c.post("of temperature i",
           at(lambda: T.lift(xf((d,)))) == m.Tf((d, i)))

    def dot():
        with quiet():
            return npshim.sum_term(
                lambda e: m.Tf((e, i)) * T.lift(yf((e,))), m.V)
    c.post("compliance", at_item(c, J, i) == at(dot))
    c.reach("end")


def averaged(c, robin):
    """objective i is the sum of load case i's nodal temperatures"""
    m = Model(c, "averaged_temp", robin)
    J = m.fem.objectives_multi_load(m.rho, m.p, m.U)
    m.problem()
    i = c.fresh_idx(m.loads, "i")
    for fam in c.ghost.get("families", []):
        fam.pool.add(i)
    c.post("one value per load case", dim_term(as_array(J).dims[0])
           == m.loads.t)
    fam = c.ghost["families"][-1]
    c.post("sum of temperatures", at_item(c, J, i) == at_region(
        c, fam, i, lambda: m.sum_T(fam.k)))
    c.reach("end")


def heat_exchange(c, weight=False, many=True):
    """objective i is the heat exchange of temperature i; with an average
    temperature weight, plus the weighted sum of temperatures (each part in
    units of its mean magnitude when there are several load cases)"""
    m = Model(c, "heat_exchange", True, weight=weight, many=many)
    c.ghost["inst_rounds"] = 1
    if many and weight:
        c.assume(m.loads.t >= 2)
    J = as_array(m.fem.objectives_multi_load(m.rho, m.p, m.U))
    m.problem()
    i, d = c.fresh_idx(m.loads, "i"), c.fresh_idx(m.V, "d")
    for fam in c.ghost.get("families", []):
        fam.pool.add(i)
    c.post("one value per load case", dim_term(J.dims[0]) == m.loads.t)
    R = m.b.taken[-1] if not m.hx else None
    if R is not None:
        G = [f for f in m.b.taken][1]
        with quiet():                 # its integrand: unit `exchange`
            den = T.lift(m.M._hx_den_density_.elemental(
                m.b, rho=G.field).sum())
        c.post("only without exchange surface", den <= T.lift(1e-15))
        c.post("no surface, no exchange", at_item(c, J, i) == 0)
        c.reach("end")
        return
    basis, Tf, nodal, Te, h, v, fam = m.hx[0]
    fam = fam[-1] if fam else None
    at = lambda fn: at_region(c, fam, i, fn)                  # noqa: E731
    c.post("of this design", z3.BoolVal(basis is m.b))
    k = c.fresh_idx(m.V, "v")
    c.post("of these densities", c.val(nodal, k) == T.to_real(T.lift(
        m.b.taken[0].uf((k,)))))
    c.post("ambient and coefficient", z3.And(
        T.lift(Te) == m.Te.t, T.lift(h) == m.h.t))
    c.post("of temperature i", at(lambda: T.lift(Tf((d,)))) == m.Tf((d, i)))
    x = at(lambda: v)
    if not weight:
        c.post("heat exchange", at_item(c, J, i) == x)
    elif not many:
        c.post("weighted sum", at_item(c, J, i) == x + m.w.t * m.sum_T(i))
    else:
        with quiet():
            def mag(fn):
                s = npshim.sum_term(
                    lambda k: z3.If(fn(k) >= 0, fn(k), -fn(k)), m.loads)
                s = s / z3.ToReal(m.loads.t)
                return z3.If(s >= T.lift(1e-12), s, T.lift(1e-12))
            hs = mag(lambda k: at_region(c, fam, k, lambda: v))
            as_ = mag(lambda k: m.sum_T(k))
        c.post("weighted sum", at_item(c, J, i) ==
               x / hs + m.w.t * (m.sum_T(i) / as_))
    c.reach("end")


def energies(c):
    """conduction energies of the densities with the task's material"""
    m = Model(c, "compliance", False)
    seen, res = [], object()

    def energy(basis, rho, U, k0, km, p, elem_func=None):
        seen.append((basis, rho, U, k0, km, p, elem_func))
        return res
    energy.vpy_contract = True
    c.patch(m.M, "heat_energy_skfem_multi", energy)
    c.post("energies passed on", z3.BoolVal(
        m.fem.energy_multi_load(m.rho, m.p, m.U) is res))
    b, rho, U, k0, km, p, law = seen[0]
    c.post("of this state", z3.BoolVal(
        b is m.b and rho is m.rho and U is m.U and law is m.law))
    c.post("solid conductivity", T.lift(k0) == m.task.k.t)
    c.post("void conductivity", T.lift(km) == m.task.k.t * m.coeff.t)
    c.post("exponent", T.lift(p) == m.p.t)
    c.reach("end")


def refused_objective(c):
    """an unknown objective, and heat exchange without exchange surface, are
    refused"""
    for nm, robin, err in (("volume", False, ValueError),
                           ("heat_exchange", False, RuntimeError)):
        m = Model(c, nm, robin, many=False)
        try:
            m.fem.objectives_multi_load(m.rho, m.p, m.U)
            c.post(f"{nm} refused", z3.BoolVal(False))
        except err:
            c.post(f"{nm} refused", z3.BoolVal(True))
    c.reach("end")


def design_surface(c):
    """a Robin boundary that follows the design exchanges h rho^p (T - T_env)
    on its facets"""
    M = c.load(TH)
    S = Surfaces(c, M)
    n, V, N = S.basis.mesh.nelements, c.int("vertices", 1), 4
    t = c.array("t", (4, n), kind="int")
    tf = t.snap()
    c.fact(lambda e: z3.And(*[z3.And(
        tf((z3.IntVal(a), e)) >= 0, tf((z3.IntVal(a), e)) < V.t)
        for a in range(4)]), (n,))
    S.basis.mesh.t, S.basis.mesh.nvertices = t, V
    S.basis.interpolate = S.field
    reg, nf, F = S.regions(1)
    h, Te, p = c.real("h"), c.real("T_env"), c.real("p", 1)
    rho = c.array("rho", n)
    bil, lin = M.assemble_surface_robin(
        S.basis, [reg(z3.IntVal(0))], [h], [Te], rho=rho, p=p)
    u, v = c.array("u", (4, 4)), c.array("v", (4, 4))
    e, q = c.fresh_idx(4, "e"), c.fresh_idx(4, "q")
    r = S.rho(e, q) if hasattr(S, "rho") else c.real("rho_facet", 0, 1).t
    s = h.t * T.t_pow(r, p.t) * c.val(v, e, q)
    for nm, m, args, k in (("exchange", bil[0], (u, v), c.val(u, e, q)),
                           ("ambient", lin[0], (v,), Te.t)):
        x = T.to_real(T.lift(as_array(m.form.form(*args, m.params)).at(e, q)))
        c.post(f"{nm} follows the design", x == s * k)
    c.reach("end")


UNITS = [
    Unit(PROP, f"system_{s}", lambda c, s=s: system(c, s),
         doc=system.__doc__)
    for s in ("auto", "spsolve", "petsc", "petsc_spdirect", "cg_pyamg",
              "cg_jacobi")
] + [
    Unit(PROP, "no_loads", no_loads),
    Unit(PROP, "scipy_each", scipy_each),
    Unit(PROP, "scipy_shared", scipy_shared),
    Unit(PROP, "robin_forms", robin_forms),
    Unit(PROP, "energy_one", energy_one),
    Unit(PROP, "energy_many", energy_many),
    Unit(PROP, "excess_one", excess_one),
    Unit(PROP, "excess_many", excess_many),
    Unit(PROP, "exchange", exchange),
] + [
    Unit(PROP, f"state_{b if b is not None else 'one'}_"
         f"{l if l is not None else 'one'}",
         lambda c, b=b, l=l: state(c, b, l), doc=state.__doc__)
    for b, l in ((0, 0), (1, 1), (3, 3), (None, None), (2, 1))
] + [
    Unit(PROP, "average_tet", lambda c: average(c, 4), doc=average.__doc__),
    Unit(PROP, "average_hex", lambda c: average(c, 8), doc=average.__doc__),
] + [
    Unit(PROP, f"robin_{'many' if m else 'one'}_{h}_{t}",
         lambda c, m=m, h=h, t=t: surface(c, "robin", m, h, t),
         doc=surface.__doc__)
    for m in (False, True) for h, t in (("one", "one"), ("list", "list"),
                                        ("one", "list"))
] + [
    Unit(PROP, "flux_one", lambda c: surface(c, "flux", False),
         doc=surface.__doc__),
    Unit(PROP, "flux_many", lambda c: surface(c, "flux", True),
         doc=surface.__doc__),
    Unit(PROP, "surface_refused", refused),
]
UNITS += [
    Unit(PROP, f"compliance_{t}", lambda c, r=r, m=m: compliance(c, r, m),
         doc=compliance.__doc__)
    for t, r, m in (("plain", False, True), ("robin", True, True),
                    ("one_load", False, False))
] + [
    Unit(PROP, f"averaged_{t}", lambda c, r=r: averaged(c, r),
         doc=averaged.__doc__) for t, r in (("plain", False), ("robin", True))
] + [
    Unit(PROP, f"heat_exchange{t}",
         lambda c, w=w, m=m: heat_exchange(c, w, m),
         doc=heat_exchange.__doc__)
    for t, w, m in (("", False, True), ("_weighted", True, True),
                    ("_weighted_one", True, False))
] + [
    Unit(PROP, "energies", energies),
    Unit(PROP, "objective_refused", refused_objective),
    Unit(PROP, "robin_design", design_surface),
]


# -- real meshes, real solvers (bounded) --------------------------------------
def r_heat(rt):
    """random meshes, load cases, exchange surfaces: temperatures against an
    independent dense solve; objective values and energies of those"""
    import numpy as np
    import skfem
    from skfem.helpers import dot, grad
    from rt import toy
    F_ = rt.get(SH, "FEM_SimpLinearHeatConduction")
    Task = rt.get(TH, "LinearHeatConduction")
    Cfg = rt.get(SH, "LinearSolverConfig")
    laws = [rt.get("sktopt.fea.composer", n) for n in (
        "simp_interpolation", "ramp_interpolation")]
    g = rt.np_rng

    def matrix(form, basis, **k):
        return np.asarray(skfem.BilinearForm(form).assemble(
            basis, **k).todense())

    def vector(form, basis, **k):
        return skfem.LinearForm(form).assemble(basis, **k)
    for kk in range(rt.n(60, 300)):
        mixed = kk % 4 == 1      # some load cases give, some take heat
        m, _v = toy.mesh(g, nmax=4)
        hexa = isinstance(m, skfem.MeshHex)
        if kk % 3 == 1:          # small parts
            m = type(m)(m.p * 10. ** -g.uniform(1, 4), m.t)
        if not hexa:
            m = skfem.MeshTet(m.p, rt.get(
                "sktopt.mesh.utils", "fix_elements_orientation")(m),
                sort_t=False)
        el = skfem.ElementHex1() if hexa else skfem.ElementTetP1()
        basis = skfem.Basis(m, el)
        bf = m.boundary_facets()
        n = int(g.integers(2, 4)) if mixed else int(g.integers(1, 4))
        regs = [np.sort(g.choice(bf, int(g.integers(1, 4)), False))
                for _ in range(n)]
        if g.random() < .3:
            regs = [regs[0]] * n
        vals = [float(g.uniform(-5, 40)) for _ in range(n)]
        nr = int(g.integers(0, 3))
        rf = [np.sort(g.choice(bf, 2, False)) for _ in range(nr)]
        obj = str(g.choice(["compliance", "averaged_temp", "heat_exchange"]))
        if mixed:
            nr, obj = 1, "heat_exchange"
            vals = [(-1) ** i * abs(v) for i, v in enumerate(vals)]
            rf = [np.sort(g.choice(bf, 2, False))]
        if nr == 0 and obj == "heat_exchange":
            obj = "compliance"
        nr = min(nr, 1) if obj == "heat_exchange" or nr else nr
        rf = rf[:nr]
        h, Te = float(g.uniform(.1, 5)), float(g.uniform(-3, 30))
        Te = Te / 30 if mixed else Te
        k, co = float(g.uniform(.5, 50)), float(10. ** -g.integers(2, 5))
        p, q = float(g.uniform(1, 4)), int(g.integers(1, 5))
        law = laws[int(g.integers(2))]
        w = float(g.choice([0., .3])) if obj == "heat_exchange" else 0.
        w = .3 if mixed and kk % 8 == 1 else w
        ne = m.t.shape[1]
        rho = g.uniform(.05, .95, ne)
        used = m.facets[:, np.concatenate(regs + rf)]
        if np.isin(m.t, used).any(axis=0).all():
            continue                 # refused: no element left to design
        with rt.case("heat", p=m.p, t=m.t, hexa=hexa, regions=regs,
                     values=vals, robin=rf, h=h, T_env=Te, k=k, coeff=co,
                     exponent=p, q=q, law=law.__name__, rho=rho,
                     objective=obj, weight=w):
            task = Task.from_facets(
                basis, regs if n > 1 else regs[0],
                vals if n > 1 else vals[0],
                rf[0] if nr else None, h if nr else None,
                Te if nr else None, False, np.arange(ne), k, obj, w)
            fem = F_(task, co, law, q=q, solver_config=Cfg(
                solver=str(g.choice(["auto", "spsolve"]))))
            nb = len(task.robin_bilinear or [])
            lin = [np.array(v) for v in task.robin_linear or []]
            U = np.full((basis.N, n), 7.)
            J = fem.objectives_multi_load(rho, p, U)
            # -- reference
            ke = k * co + (k - k * co) * (
                rho ** p if law is laws[0] else rho / (1 + p * (1 - rho)))
            K = matrix(lambda u, v, w_: ke[:, None] * dot(grad(u), grad(v)),
                       basis)
            f = np.zeros(basis.N)
            nod = np.array([np.mean(rho[[e for e in range(ne)
                                         if i in m.t[:, e]]])
                            for i in range(m.p.shape[1])])
            if nr:
                fb = skfem.FacetBasis(m, el, facets=rf[0])
                K = K + matrix(lambda u, v, w_: h * u * v, fb)
                f = f + vector(lambda v, w_: h * Te * v, fb)
                R = basis.interpolate(nod)

                def s(w_):
                    r = w_["r"]
                    return h * r ** p * (1 - r) ** q * np.sqrt(
                        (r.grad ** 2).sum(axis=0))
                K = K + matrix(lambda u, v, w_: s(w_) * u * v, basis, r=R)
                f = f + vector(lambda v, w_: s(w_) * Te * v, basis, r=R)
            tol = 1e-7
            ref = np.zeros((basis.N, n))
            for i in range(n):
                D = np.unique(m.facets[:, regs[i]])
                fr = np.setdiff1d(np.arange(basis.N), D)
                ref[D, i] = vals[i]
                ref[fr, i] = np.linalg.solve(
                    K[np.ix_(fr, fr)],
                    f[fr] - K[np.ix_(fr, D)] @ ref[D, i])
            sc = np.abs(ref).max()
            rt.ok("temperatures", np.allclose(U, ref, rtol=tol,
                                              atol=tol * sc),
                  f"{np.abs(U - ref).max()}")
            rt.ok("one objective per load case", np.shape(J) == (n,))
            rt.ok("the task's terms do not grow",
                  len(task.robin_bilinear or []) == nb and
                  len(task.robin_linear or []) == len(lin) and all(
                      np.array_equal(a, b) for a, b in zip(
                          task.robin_linear or [], lin)))
            U2 = np.full((basis.N, n), -3.)
            J2 = fem.objectives_multi_load(rho, p, U2)
            rt.ok("the same again when evaluated again", np.allclose(
                U2, U, rtol=1e-9, atol=1e-9 * sc) and np.allclose(
                J2, J, rtol=1e-9, atol=1e-9 * np.abs(J).max()))
            if obj == "compliance":
                want = np.einsum("di,de,ei->i", ref, K, ref)
                scale = np.abs(ref.T) @ np.abs(K) @ np.abs(ref)
                W = fem.energy_multi_load(rho, p, U)
                Kc = matrix(lambda u, v, w_: ke[:, None] * dot(
                    grad(u), grad(v)), basis)
                half = .5 * np.einsum("di,de,ei->i", ref, Kc, ref)
                rt.ok("energies add up", np.shape(W) == (ne, n) and
                      np.allclose(W.sum(axis=0), half, rtol=1e-6,
                                  atol=1e-9 * scale.max()))
                rt.ok("no negative energy", bool(np.all(
                    W >= -1e-9 * scale.max())))
                atol = 1e-9 * scale.max()
            elif obj == "averaged_temp":
                want, atol = ref.sum(axis=0), tol * sc * basis.N
            else:
                R = basis.interpolate(nod)
                gn = np.sqrt((R.grad ** 2).sum(axis=0))
                den = (gn * basis.dx).sum()
                want = np.array([
                    -Te * h * ((basis.interpolate(ref[:, i]).value - Te) *
                               gn * basis.dx).sum() / den for i in range(n)])
                atol = tol * abs(Te * h) * (sc + abs(Te))
                if w:
                    av = ref.sum(axis=0)
                    if n > 1:
                        a, b = np.abs(want).mean(), np.abs(av).mean()
                        want, atol = want / a + w * av / b, 1e-5
                    else:
                        want = want + w * av
                        atol += tol * sc * basis.N
            rt.ok("objective", np.allclose(J, want, rtol=1e-6, atol=atol),
                  f"{J} {want}")


def r_surface(rt):
    """exchange and flux terms of several surface regions against separate
    integration over each region"""
    import numpy as np
    import skfem
    from rt import toy
    robin = rt.get(TH, "assemble_surface_robin")
    flux = rt.get(TH, "assemble_surface_neumann")
    g = rt.np_rng
    for kk in range(rt.n(40, 300)):
        m, _v = toy.mesh(g, nmax=4)
        el = skfem.ElementHex1() if isinstance(m, skfem.MeshHex) \
            else skfem.ElementTetP1()
        if isinstance(m, skfem.MeshTet):
            m = skfem.MeshTet(m.p, rt.get(
                "sktopt.mesh.utils", "fix_elements_orientation")(m),
                sort_t=False)
        basis = skfem.Basis(m, el)
        bf = m.boundary_facets()
        n = int(g.integers(1, 5))
        regs = [g.choice(bf, int(g.integers(1, 5)), False)
                for _ in range(n)]
        H = [float(x) for x in g.uniform(.1, 9, n)]
        E = [float(x) for x in g.uniform(-20, 40, n)]
        h1, e1 = (bool(x) for x in g.random(2) < .3)
        Hw, Ew = [H[0]] * n if h1 else H, [E[0]] * n if e1 else E
        with rt.case("surface", p=m.p, t=m.t, regions=regs, h=Hw, T_env=Ew,
                     one_h=h1, one_T=e1):
            keep = [r.copy() for r in regs], list(H), list(E)
            lone = n == 1 and kk % 2
            A, b = robin(basis, regs[0] if lone else regs,
                         H[0] if h1 else H, E[0] if e1 else E)
            q = flux(basis, regs[0] if lone else regs,
                     H[0] if lone else H)
            q = q if isinstance(q, list) else [q]
            rt.ok("one term per region", len(A) == len(b) == len(q) == n)
            for i in range(n):
                fb = skfem.FacetBasis(m, el, facets=regs[i])
                M = skfem.BilinearForm(lambda u, v, w: u * v).assemble(fb)
                v = skfem.LinearForm(lambda v, w: 1. * v).assemble(fb)
                sc = np.abs(v).max()
                for nm, x, y, s in (
                        ("exchange", A[i].toarray(), Hw[i] * M.toarray(),
                         9 * sc),
                        ("ambient", b[i], Hw[i] * Ew[i] * v, 400 * sc),
                        ("flux", q[i], H[i] * v, 9 * sc)):
                    rt.ok(f"{nm} of its region", np.allclose(
                        x, y, rtol=1e-9, atol=1e-12 * s))
            rt.ok("arguments untouched", H == keep[1] and E == keep[2]
                  and all(map(np.array_equal, regs, keep[0])))
            for args in ((regs + regs[:1], H, E), (regs, H + [1.], E),
                         (regs, H, E + [1.])):
                try:
                    robin(basis, *args)
                    rt.ok("lists of different lengths are refused", False)
                except ValueError:
                    rt.ok("lists of different lengths are refused", True)


def r_design(rt):
    """exchange over a boundary that follows the design depends on the
    design"""
    import numpy as np
    import skfem
    f = rt.get(TH, "assemble_surface_robin")
    m = skfem.MeshTet.init_tensor(*[np.linspace(0, 1, 3)] * 3)
    b = skfem.Basis(m, skfem.ElementTetP1())
    rho = np.full(m.t.shape[1], .5)
    with rt.case("robin_design", rho=.5, h=2., T_env=3., p=3.):
        A, _l = f(b, [m.boundary_facets()], [2.], [3.], rho=rho, p=3.)
        B, _l = f(b, [m.boundary_facets()], [2.], [3.])
        rt.ok("exchange follows the design", abs(
            A[0].sum() - B[0].sum() * .5 ** 3) < 1e-9,
            f"{A[0].sum()} {B[0].sum()}")


RUNTIME = [("heat", r_heat, 120), ("surface", r_surface, 60), ("robin_design", r_design, 30)]
