"""State solves: displacements, compliances, strain energies."""
import z3
from vpy import terms as T, loops, npshim
from vpy.engine import Sym, SymArray, dim_term, as_array, quiet
from vpy.npshim import _mem_of
from vpy.unit import Unit
from vpy.contracts import Stub
from props.fem import (Mat, Problem, Timer, Cells, Field, Params,
                       helpers)

PROP = "P19"
SE = "sktopt.fea.solver_elastic"
CO = "sktopt.fea.composer"
DIRECT = ("spsolve",)


def setting(c):
    M = c.load(SE)
    N = c.int("N", 1)
    pr = Problem(c, N)
    c.patch(M, "scipy", pr.scipy())
    c.patch(M, "pyamg", pr.amg())
    c.patch(M, "LinearOperator", pr.operator)
    c.patch(M, "skfem", Stub(enforce=pr.enforce, CellBasis=object,
                             Basis=object))
    return M, N, pr


def same_vec(c, name, f, g, N):
    """two vectors given as functions agree"""
    d = c.fresh_idx(N, "d")
    with quiet():
        c.post(name, T.to_real(T.lift(f((d,)))) ==
               T.to_real(T.lift(g((d,)))))


# -- one linear system --------------------------------------------------------
def solve_u(c, name, fallback, via="config"):
    """the solver asked for is given this matrix and right-hand side, the
    requested tolerance and iteration limit, and its solution is returned; a
    failure is passed on, or answered by the direct solver if allowed"""
    M, N, pr = setting(c)
    K = Mat(N, "K")
    F = c.array("F", N)
    Ff = F.snap()
    rtol = c.real("rtol", lo_open=0)
    maxiter = c.int("maxiter", 1)
    opts = object()
    fails = c.bool("solver_fails")
    asked = []

    def petsc(K_, F_, rtol=None, maxiter=None, petsc_options=None):
        asked.append(petsc_options)
        info = c.fresh("reason", T.I)
        u = pr.solution(K_, F_, "petsc", rtol=rtol, maxiter=maxiter,
                        sure=info > 0)
        return u, Sym(info)

    def guard(fn):
        def g(*a, **k):
            if fails:
                raise RuntimeError("solver failed")
            return fn(*a, **k)
        return g
    direct_opts = object()
    c.patch(M, "solve_u_petsc", guard(petsc))
    c.patch(M, "petsc_options_for_solver",
            lambda s, o: ("direct", o) if s == "petsc_spdirect" else o)
    if name not in DIRECT:
        pr.cg = guard(pr.cg)
        c.patch(M, "scipy", pr.scipy())
    cfg = dict(solver=name, rtol=rtol, maxiter=maxiter, petsc_options=opts,
               allow_fallback_to_spsolve=fallback)
    err = None
    try:
        if via == "config":
            u = M.solve_u(K, F, M.LinearSolverConfig(**cfg))
        else:
            cfg["chosen_solver"] = cfg.pop("solver")
            u = M.solve_u(K, F, **cfg)
    except RuntimeError as e:
        err = e
    failed = bool(fails) if name not in DIRECT else False
    if err is not None:
        c.post("a failure is reported", z3.BoolVal(failed and not fallback))
        c.reach("failed")
        return
    c.post("a failure is not hidden", z3.BoolVal(not failed or fallback))
    hit = [s for s in pr.solved if s.u is u]
    c.post("a solution is returned", z3.BoolVal(len(hit) == 1))
    s = hit[0]
    want = {"cg_jacobi": "cg", "cg_pyamg": "cg", "spsolve": "spsolve",
            "petsc": "petsc", "petsc_spdirect": "petsc"}[name]
    if failed:
        want = "spsolve"
    c.post("by the solver asked for", z3.BoolVal(s.how == want))
    c.post("of this matrix", z3.BoolVal(s.K is K))
    same_vec(c, "of this right-hand side", s.F, Ff, N)
    c.forall("right-hand side only read", F, lambda d, v: v == Ff((d,)))
    if s.how != "spsolve":
        c.post("to the requested tolerance", T.lift(s.rtol) == rtol.t)
        c.post("within the iteration limit", T.lift(s.maxiter) == maxiter.t)
        if s.how == "cg":
            c.post("no other stopping rule", T.lift(s.atol) == 0)
        if s.how == "petsc":
            c.post("with these options", z3.BoolVal(
                asked[-1] is opts if name == "petsc"
                else asked[-1] == ("direct", opts)))
        c.post("converged", s.sure)
    c.reach("end")


def unknown(c):
    """a solver that does not exist is refused"""
    M, N, pr = setting(c)
    for s in ("cg", "SPSOLVE", "", None, "direct", "auto"):
        try:
            M.solve_u(Mat(N, "K"), c.array("F", N), s)
            c.post(f"{s!r} refused", z3.BoolVal(False))
        except ValueError:
            pass
    c.post("nothing solved", z3.BoolVal(not pr.solved))
    c.reach("end")


def normalize(c):
    """a configuration is passed through; loose arguments are collected"""
    M = c.load(SE)
    o, s = object(), object()
    rtol, it = c.real("rtol"), c.int("it")
    a = M.LinearSolverConfig(solver=s, rtol=rtol, maxiter=it)
    c.post("passed through", z3.BoolVal(
        M.normalize_linear_solver_config(a, rtol=1.0, maxiter=2) is a))
    b = M.normalize_linear_solver_config(
        s, rtol=rtol, maxiter=it, petsc_options=o,
        allow_fallback_to_spsolve=True)
    c.post("solver", z3.BoolVal(b.solver is s))
    c.post("tolerance", T.lift(b.rtol) == rtol.t)
    c.post("limit", T.lift(b.maxiter) == it.t)
    c.post("petsc", z3.BoolVal(b.petsc_options is o))
    c.post("fallback", z3.BoolVal(b.allow_fallback_to_spsolve is True))
    d = M.normalize_linear_solver_config(s)
    c.post("no fallback unless asked", z3.BoolVal(
        d.allow_fallback_to_spsolve is False and d.maxiter is None
        and d.petsc_options is None))
    c.reach("end")


# -- load cases ---------------------------------------------------------------
class State:
    """one elastic problem: material, densities, constraint, loads"""

    def __init__(self, c, fixed=True):
        self.c = c
        self.M, self.N, self.pr = setting(c)
        self.basis = object()
        self.rho = object()
        self.mat = dict(E0=c.real("E0"), Emin=c.real("Emin"),
                        p=c.real("p"), nu=c.real("nu0"))
        self.elem = object()
        self.asm = []
        st = self

        def assemble(basis, rho, E0, Emin, p, nu, elem_func=None):
            K = Mat(st.N, "K", args=(basis, rho, E0, Emin, p, nu, elem_func))
            st.asm.append(K)
            return K
        assemble.vpy_contract = True
        c.patch(self.M, "composer", Stub(
            assemble_stiffness_matrix=assemble, simp_interpolation=object()))
        self.nd = c.int("n_fixed", 1)
        self.D = c.index_array("fixed", self.N, n=self.nd.t, sorted_=False)
        self.memD = c.mem(self.D)

    def args(self):
        m = self.mat
        return (m["E0"], m["Emin"], m["p"], m["nu"])

    def stiffness(self, K, tag=""):
        """K is this problem's stiffness with the constraint enforced"""
        c = self.c
        c.post(f"{tag}constraint enforced", z3.BoolVal(K.tag == "enforced"))
        A = K.of
        ok = A in self.asm
        c.post(f"{tag}assembled stiffness", z3.BoolVal(ok))
        m = self.mat
        want = (self.basis, self.rho, m["E0"], m["Emin"], m["p"], m["nu"],
                self.elem)
        for nm, a, b in zip(("basis", "densities", "E0", "Emin", "exponent",
                             "Poisson ratio", "interpolation"), A.args, want):
            c.post(f"{tag}stiffness: {nm}", z3.BoolVal(
                a is b or (isinstance(a, Sym) and a.t.eq(T.lift(b)))))
        d = c.fresh_idx(self.N, "d")
        c.post(f"{tag}exactly the constrained dofs",
               K.mem(d) == self.memD(d))

    def work(self, f, u):
        """f . u"""
        with quiet():
            return npshim.sum_term(lambda d: T.to_real(T.lift(f((d,)))) *
                                   u((d,)), self.N)

    def loads(self, many):
        """f(i, d): any number of load vectors"""
        c = self.c
        ff = z3.Function("load", T.I, T.I, T.R)
        n = c.int("loads", 2) if many else None

        def vec(i):
            return SymArray((self.N.t,), lambda d: ff(i, d[0]), "real")
        return ff, n, (loops.Seq(n.t, vec) if many else [vec(z3.IntVal(0))])


def single(c, solver, timed=False):
    """one load: displacement of the enforced system with the chosen solver,
    compliance = work of the load"""
    st = State(c)
    c.ghost["sum_ext"] = True
    c.ghost["reindex"] = [st.N]
    calls = []

    def solve(K, F, chosen_solver=None, **k):
        cfg = st.M.normalize_linear_solver_config(chosen_solver, **k)
        u = st.pr.solution(K, F, "solve_u")
        calls.append((cfg, u))
        return u
    solve.vpy_contract = True
    c.patch(st.M, "solve_u", solve)
    ff, _, fl = st.loads(False)
    rtol, it = c.real("rtol", lo_open=0), c.int("maxiter", 1)
    opts = object()
    cfg = st.M.LinearSolverConfig(solver=solver, rtol=rtol, maxiter=it,
                                  petsc_options=opts)
    t = Timer() if timed else None
    E0, Em, p, nu = st.args()
    comp, u = st.M.compute_compliance_basis(
        st.basis, c.array("free", 1, kind="int"), st.D, fl[0], E0, Em, p, nu,
        st.rho, elem_func=st.elem, solver_config=cfg, timer=t)
    c.post("one system solved", z3.BoolVal(len(calls) == 1))
    got, u0 = calls[0]
    s = st.pr.solved[-1]
    c.post("its solution is the displacement", z3.BoolVal(u is u0))
    st.stiffness(s.K)
    d = c.fresh_idx(st.N, "d")
    c.post("right-hand side: the load, zero where constrained",
           T.lift(s.F((d,))) == z3.If(st.memD(d), z3.RealVal(0), ff(0, d)))
    c.post("constrained dofs do not move", z3.Implies(
        st.memD(d), c.val(u, d) == 0))
    c.forall("load only read", fl[0], lambda d, v: v == ff(0, d))
    c.post("compliance is the work of the load", T.lift(comp) == st.work(
        lambda i: ff(0, i[0]), u.snap()))
    if solver == "auto":
        c.post("a direct or iterative solver", z3.BoolVal(
            got.solver in ("spsolve", "cg_pyamg", "cg_jacobi")))
        c.post("with a direct fallback", z3.BoolVal(
            got.allow_fallback_to_spsolve is True))
    else:
        c.post("the solver asked for", z3.BoolVal(got.solver == solver))
        c.post("no silent change of solver", z3.BoolVal(
            got.allow_fallback_to_spsolve is False))
    c.post("tolerance", T.lift(got.rtol) == rtol.t)
    c.post("iteration limit", T.lift(got.maxiter) == it.t)
    c.post("petsc options", z3.BoolVal(got.petsc_options is opts))
    if t:
        c.post("sections closed", z3.BoolVal(t.open == 0))
    c.reach("end")


def limit(c):
    """without an iteration limit a positive one is chosen"""
    st = State(c)
    got = []

    def solve(K, F, chosen_solver=None, **k):
        got.append(chosen_solver)
        return st.pr.solution(K, F, "solve_u")
    c.patch(st.M, "solve_u", solve)
    ff, _, fl = st.loads(False)
    E0, Em, p, nu = st.args()
    st.M.compute_compliance_basis(
        st.basis, c.array("free", 1, kind="int"), st.D, fl[0], E0, Em, p, nu,
        st.rho, elem_func=st.elem, solver="cg_pyamg", rtol=c.real("rtol"))
    c.post("iterations allowed", T.lift(got[0].maxiter) >= 1)
    c.post("tolerance", T.lift(got[0].rtol) == z3.Real("rtol"))
    c.reach("end")


def many(c, solver, entry, timed=False):
    """any number of loads: column i is the displacement of load i under the
    common constraint, value i its work"""
    st = State(c)
    c.ghost["sum_ext"] = True
    c.ghost["reindex"] = [st.N]
    M = st.M

    def petsc(K, F, rtol=None, maxiter=None, petsc_options=None):
        c.post("petsc options for the solver", z3.BoolVal(
            petsc_options == (solver, opts)))
        return st.pr.solution(K, F, "petsc", rtol=rtol,
                              maxiter=maxiter), [1]
    opts = object()
    c.patch(M, "solve_u_petsc_multi", petsc)
    c.patch(M, "petsc_options_for_solver", lambda s, o: (s, o))
    ff, n, fl = st.loads(True)
    U = c.array("u_all", (st.N, n))
    rtol, it = c.real("rtol", lo_open=0), c.int("maxiter", 1)
    cfg = M.LinearSolverConfig(solver=solver, rtol=rtol, maxiter=it,
                               petsc_options=opts)
    t = Timer() if timed else None
    E0, Em, p, nu = st.args()
    try:
        r = getattr(M, entry)(
            st.basis, c.array("free", 1, kind="int"), st.D, fl, E0, Em, p,
            nu, st.rho, U, solver_config=cfg, elem_func=st.elem, timer=t)
    except NotImplementedError:
        c.post("only iterative solvers are refused", z3.BoolVal(
            solver.startswith("cg")))
        return
    c.post("iterative solvers are refused", z3.BoolVal(
        not solver.startswith("cg")))
    i = c.fresh_idx(n, "i")
    d = c.fresh_idx(st.N, "d")
    u = c.val(U, d, i)
    hit = [s for s in st.pr.solved]
    c.post("solved", z3.BoolVal(len(hit) >= 1))
    s = hit[0]
    c.post("column i is the i-th solution", u == (
        s.uf((d, i)) if s.ndim == 2 else s.uf((d,))))
    st.stiffness(s.K)
    c.post("column i solves load i", T.lift(s.F((d, i))) == z3.If(
        st.memD(d), z3.RealVal(0), ff(i, d)))
    c.post("constrained dofs do not move", z3.Implies(st.memD(d), u == 0))
    if s.how == "petsc":
        c.post("tolerance", T.lift(s.rtol) == rtol.t)
        c.post("iteration limit", T.lift(s.maxiter) == it.t)
    else:
        c.post("direct solver", z3.BoolVal(solver in ("auto", "spsolve")))
    if entry == "compute_compliance_basis_multi_load":
        c.post("one value per load", dim_term(r.dims[0]) == n.t)
        c.post("compliance i is the work of load i", c.val(r, i) == st.work(
            lambda q: ff(i, q[0]), lambda q: c.val(U, q[0], i)))
    else:
        c.post("right-hand sides returned", c.val(r, d, i) == z3.If(
            st.memD(d), z3.RealVal(0), ff(i, d)))
    if t:
        c.post("sections closed", z3.BoolVal(t.open == 0))
    c.reach("end")


def one_of_many(c, entry):
    """a single load takes the single-load path: same displacement and
    compliance, stored in column 0"""
    st = State(c)
    seen = []
    comp = c.real("compliance")

    def one(basis, free, D, f, E0, Em, p, nu, rho, **k):
        u = npshim.havoc_array((st.N.t,), "real", "u")
        seen.append((basis, D, f, E0, Em, p, nu, rho, k, u))
        return comp, u
    one.vpy_contract = True
    c.patch(st.M, "compute_compliance_basis", one)
    ff, _, fl = st.loads(False)
    U = c.array("u_all", (st.N, 1))
    cfg = st.M.LinearSolverConfig(solver="auto")
    E0, Em, p, nu = st.args()
    t = Timer()
    r = getattr(st.M, entry)(
        st.basis, c.array("free", 1, kind="int"), st.D, fl, E0, Em, p, nu,
        st.rho, U, solver_config=cfg, elem_func=st.elem, timer=t)
    c.post("one state solve", z3.BoolVal(len(seen) == 1))
    b, D, f, *m, rho, k, u = seen[0]
    c.post("this problem", z3.BoolVal(
        b is st.basis and D is st.D and f is fl[0] and rho is st.rho
        and all(x is y for x, y in zip(m, st.args()))))
    c.post("interpolation", z3.BoolVal(k.get("elem_func") is st.elem))
    c.post("solver", z3.BoolVal(k.get("solver_config") is cfg))
    d = c.fresh_idx(st.N, "d")
    c.post("displacement stored", c.val(U, d, 0) == c.val(u, d))
    c.post("one compliance", z3.BoolVal(tuple(r.shape) == (1,)))
    c.post("its compliance", c.val(r, 0) == comp.t)
    c.reach("end")


UNITS = [
    Unit(PROP, f"solve_{s}{'_fallback' if fb else ''}",
         lambda c, s=s, fb=fb: solve_u(c, s, fb), doc=solve_u.__doc__)
    for s in ("spsolve", "cg_jacobi", "cg_pyamg", "petsc",
              "petsc_spdirect") for fb in (False, True)
] + [
    Unit(PROP, "solve_loose_arguments",
         lambda c: solve_u(c, "cg_jacobi", False, "args"),
         doc=solve_u.__doc__),
    Unit(PROP, "unknown_solver", unknown),
    Unit(PROP, "solver_settings", normalize),
    Unit(PROP, "iteration_limit", limit),
] + [
    Unit(PROP, f"single_{s}", lambda c, s=s: single(c, s, s == "auto"),
         doc=single.__doc__)
    for s in ("auto", "spsolve", "cg_pyamg")
] + [
    Unit(PROP, f"loads_{s}", lambda c, s=s: many(
        c, s, "compute_compliance_basis_multi_load", s == "auto"),
        doc=many.__doc__)
    for s in ("auto", "spsolve", "petsc", "petsc_spdirect", "cg_pyamg")
] + [
    Unit(PROP, "loads_rhs", lambda c: many(c, "auto", "solve_multi_load"),
         doc=many.__doc__),
    Unit(PROP, "one_load", lambda c: one_of_many(
        c, "compute_compliance_basis_multi_load"), doc=one_of_many.__doc__),
    Unit(PROP, "one_load_rhs", lambda c: one_of_many(
        c, "solve_multi_load"), doc=one_of_many.__doc__),
]


# -- energies, stiffness ----------------------------------------------------
class Material:
    """E(rho) by an arbitrary interpolation law; Lame parameters of element e"""

    def __init__(self, c):
        self.c = c
        self.n = c.int("n_el", 1)
        self.rho = c.array("rho", self.n)
        self.E0, self.Emin, self.p = c.real("E0"), c.real("Emin"), c.real("p")
        self.nu = c.real("nu", lo_open=-1)
        c.assume(self.nu.t < z3.RealVal("1/2"))
        self.law = z3.Function("law", T.R, T.R, T.R, T.R, T.R)
        self.E = lambda e: self.law(c.val(self.rho, e), self.E0.t,
                                    self.Emin.t, self.p.t)
        self.given = []

    def elem_func(self, rho, E0, Emin, p):
        self.given.append((rho, E0, Emin, p))
        f = as_array(rho).snap()
        return SymArray(tuple(rho.dims), lambda i: self.law(
            T.to_real(T.lift(f(i))), *(T.to_real(T.lift(x)) for x in
                                       (E0, Emin, p))), "real")

    def lame(self, e):
        E, nu = self.E(e), self.nu.t
        return E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))


def strain(G, a, b):
    return (G(a, b) + G(b, a)) / 2


def hooke(lam, mu, G, H):
    """sigma(G) : eps(H)"""
    tr = lambda X: sum(X(a, a) for a in range(3))           # noqa: E731
    return lam * tr(G) * tr(H) + 2 * mu * sum(
        strain(G, a, b) * strain(H, a, b)
        for a in range(3) for b in range(3))


def energy_setting(c, mod):
    M = c.load(mod)
    m = Material(c)
    b = Cells(c, m.n)
    b.patch(M)
    helpers(c, M)
    c.ghost["sum_ext"] = True
    c.ghost["no_sum_sign"] = True
    return M, m, b


def density(c, b, m, e, k):
    """energy of field k in element e: integral of half stress : strain"""
    lam, mu = m.lame(e)

    def at(q):
        G = lambda x, y: b.G(x, y, e, q, k)                 # noqa: E731
        return hooke(lam, mu, G, G) / 2 * b.w(e, q)
    with quiet():
        return npshim.sum_term(at, b.nqp)


def energy_one(c, mod):
    """strain energy of element e: integral of half stress : strain, with the
    element's own stiffness"""
    M, m, b = energy_setting(c, mod)
    N = c.int("N", 1)
    u = c.array("u", N)
    r = M.strain_energy_skfem(b, m.rho, u, m.E0, m.Emin, m.p, m.nu,
                              elem_func=m.elem_func)
    c.post("of this displacement", z3.BoolVal(
        len(b.taken) == 1 and b.taken[0] is u))
    e = c.fresh_idx(m.n, "e")
    c.post("one value per element", dim_term(r.dims[0]) == m.n.t)
    c.post("energy", c.val(r, e) == density(c, b, m, e, z3.IntVal(0)))
    c.reach("end")


def energy_many(c, mod):
    """column i holds the element energies of displacement i"""
    M, m, b = energy_setting(c, mod)
    c.ghost["map_loops"] = True
    N, n = c.int("N", 1), c.int("loads", 1)
    U = c.array("U", (N, n))
    r = M.strain_energy_skfem_multi(b, m.rho, U, m.E0, m.Emin, m.p, m.nu,
                                    elem_func=m.elem_func)
    e, i = c.fresh_idx(m.n, "e"), c.fresh_idx(n, "i")
    d = c.fresh_idx(N, "d")
    fam = c.ghost["families"][-1]
    c.post("one field per load", z3.BoolVal(len(b.taken) == 1))
    u = loops.at_iteration(b.taken[0], fam, i)
    c.post("of displacement i", c.val(u, d) == c.val(U, d, i))
    c.post("one row per element", dim_term(r.dims[0]) == m.n.t)
    c.post("one column per load", dim_term(r.dims[1]) == n.t)
    got = c.val(r, e, i)
    want = fam.under(lambda: density(c, b, m, e, fam.k))
    c.post("energy", got == z3.substitute(want, (fam.k, i)))
    c.forall("displacements only read", U, lambda x, y, v: z3.BoolVal(True))
    c.reach("end")


def fields(c, m, b):
    F = z3.Function("grad_u", T.I, T.I, T.I, T.I, T.R)
    H = z3.Function("grad_v", T.I, T.I, T.I, T.I, T.R)
    mk = lambda f: Field(None, SymArray(                    # noqa: E731
        (3, 3) + b.points(), lambda i: f(*i), "real"))
    return F, H, mk(F), mk(H)


def stiffness(c, entry="assemble_stiffness_matrix", law="given"):
    """the stiffness matrix integrates stress(u) : strain(v), element by
    element with that element's stiffness; a field's energy is half its own
    bilinear form"""
    M, m, b = energy_setting(c, CO)
    if law == "given":
        K = getattr(M, entry)(b, m.rho, m.E0, m.Emin, m.p, m.nu,
                              elem_func=m.elem_func)
    else:
        fn = m.elem_func
        for nm in ("simp", "ramp"):
            c.patch(M, f"{nm}_interpolation", fn if nm == law else None)
        K = getattr(M, entry)(b, m.rho, m.E0, m.Emin, m.p, m.nu)
    F, H, u, v = fields(c, m, b)
    a = K.form.form(u, v, Params())
    e, q = c.fresh_idx(m.n, "e"), c.fresh_idx(b.nqp, "q")
    lam, mu = m.lame(e)
    c.post("stress of u against strain of v", c.val(a, e, q) == hooke(
        lam, mu, lambda x, y: F(x, y, e, q), lambda x, y: H(x, y, e, q)))
    c.reach("end")


def conduction(c):
    """the conduction matrix integrates k grad(u).grad(v), element by element
    with that element's conductivity"""
    M, m, b = energy_setting(c, CO)
    K = M.assemble_conduction_matrix(b, m.rho, m.E0, m.Emin, m.p,
                                     elem_func=m.elem_func)
    F = z3.Function("grad_u", T.I, T.I, T.I, T.R)
    H = z3.Function("grad_v", T.I, T.I, T.I, T.R)
    mk = lambda f: Field(None, SymArray(                    # noqa: E731
        (3,) + b.points(), lambda i: f(*i), "real"))
    a = K.form.form(mk(F), mk(H), Params())
    e, q = c.fresh_idx(m.n, "e"), c.fresh_idx(b.nqp, "q")
    c.post("flux of u against gradient of v", c.val(a, e, q) ==
           m.E(e) * sum(F(x, e, q) * H(x, e, q) for x in range(3)))
    c.reach("end")


def lame(c):
    """Lame parameters of an isotropic material"""
    M = c.load(CO)
    E, nu = c.real("E"), c.real("nu", lo_open=-1)
    c.assume(nu.t < z3.RealVal("1/2"))
    lam, mu = M.lam_mu(E, nu)
    c.post("lambda", T.lift(lam) * (1 + nu.t) * (1 - 2 * nu.t) ==
           nu.t * E.t)
    c.post("mu", T.lift(mu) * 2 * (1 + nu.t) == E.t)
    c.reach("end")


def mises(c):
    """von Mises stress: sqrt(3/2) times the norm of the deviator"""
    M = c.load(CO)
    n, q = c.int("n", 1), c.int("q", 1)
    s = c.array("s", (3, 3, n, q))
    c.fact(lambda e, k: z3.And(*[
        c.val(s, a, b, e, k) == c.val(s, b, a, e, k)
        for a in range(3) for b in range(a)]), (n, q))
    r = M.von_mises_from_stress_tensor(s)
    e, k = c.fresh_idx(n, "e"), c.fresh_idx(q, "k")
    S = lambda a, b: c.val(s, a, b, e, k)                   # noqa: E731
    m = sum(S(a, a) for a in range(3)) / 3
    dev = sum((S(a, b) - (m if a == b else 0)) ** 2
              for a in range(3) for b in range(3))
    v = c.val(r, e, k)
    c.post("non-negative", v >= 0)
    c.post("square", v * v == dev * z3.RealVal("3/2"))
    c.reach("end")


# -- the solver object ------------------------------------------------------
def model(c, many=True, scaled=True):
    """compliances and energies of the task's loads (times the scale) with the
    task's material; the task's loads are not changed"""
    M = c.load(SE)
    N = c.int("N", 1)
    ff = z3.Function("load", T.I, T.I, T.R)
    n = c.int("loads", 1)

    def vec(i):
        return SymArray((N.t,), lambda d: ff(i, d[0]), "real")
    one = vec(z3.IntVal(0))
    loads = loops.Seq(n.t, vec) if many else one
    task = Stub(E=c.real("E"), nu=c.real("nu"), basis=object(),
                free_dofs=object(), dirichlet_dofs=object(),
                neumann_linear=loads)
    seen, res = [], object()

    def solve(basis, free, D, fl, E0, Emin, p, nu0, rho, u_all, solver="auto",
              solver_config=None, elem_func=None, rtol=None, maxiter=None,
              petsc_options=None, timer=None):
        seen.append((basis, free, D, fl, E0, Emin, p, nu0, rho, u_all,
                     solver_config, elem_func, timer))
        return res

    def energy(basis, rho, U, E0, Emin, p, nu, elem_func=None):
        seen.append((basis, rho, U, E0, Emin, p, nu, elem_func))
        return res
    for f in (solve, energy):
        f.vpy_contract = True
    c.patch(M, "compute_compliance_basis_multi_load", solve)
    c.patch(M, "strain_energy_skfem_multi", energy)
    coeff, p, s = c.real("coeff"), c.real("p"), c.real("scale")
    law, cfg = object(), M.LinearSolverConfig(solver="auto")
    fem = M.FEM_SimpLinearElasticity(task, coeff, law, solver_config=cfg)
    rho, u, t = object(), object(), Timer()
    kw = dict(force_scale=s) if scaled else {}
    r = fem.objectives_multi_load(rho, p, u, timer=t, **kw)
    c.post("result passed on", z3.BoolVal(r is res))
    b, fr, D, fl, E0, Em, pp, nu, rr, uu, cf, ef, tm = seen[0]
    c.post("problem", z3.BoolVal(
        b is task.basis and fr is task.free_dofs
        and D is task.dirichlet_dofs and rr is rho and uu is u))
    c.post("law", z3.BoolVal(ef is law))
    c.post("solver", z3.BoolVal(cf is cfg))
    c.post("solid stiffness", T.lift(E0) == task.E.t)
    c.post("void stiffness", T.lift(Em) == task.E.t * coeff.t)
    c.post("exponent", T.lift(pp) == p.t)
    c.post("Poisson ratio", T.lift(nu) == task.nu.t)
    d = c.fresh_idx(N, "d")
    k = s.t if scaled else z3.RealVal(1)
    if many:
        i = c.fresh_idx(n, "i")
        c.post("all loads", loops.seq_len(fl) == n.t)
        c.post("load i, scaled", c.val(fl.at(i), d) == k * ff(i, d))
    else:
        c.post("one load", z3.BoolVal(len(fl) == 1))
        c.post("the load, scaled", c.val(fl[0], d) == k * ff(0, d))
        c.forall("task's load unchanged", one, lambda d, v: v == ff(0, d))
    c.post("task keeps its loads", z3.BoolVal(task.neumann_linear is loads))
    r = fem.energy_multi_load(rho, p, u)
    c.post("energies passed on", z3.BoolVal(r is res))
    b, rr, uu, E0, Em, pp, nu, ef = seen[1]
    c.post("energy: problem", z3.BoolVal(
        b is task.basis and rr is rho and uu is u and ef is law))
    c.post("energy: solid stiffness", T.lift(E0) == task.E.t)
    c.post("energy: void stiffness", T.lift(Em) == task.E.t * coeff.t)
    c.post("energy: exponent", T.lift(pp) == p.t)
    c.post("energy: Poisson ratio", T.lift(nu) == task.nu.t)
    c.reach("end")


UNITS += [
    Unit(PROP, f"energy_one_{t}", lambda c, m=m: energy_one(c, m),
         doc=energy_one.__doc__)
    for t, m in (("solver", SE), ("composer", CO))
] + [
    Unit(PROP, f"energy_many_{t}", lambda c, m=m: energy_many(c, m),
         doc=energy_many.__doc__)
    for t, m in (("solver", SE), ("composer", CO))
] + [
    Unit(PROP, "stiffness", stiffness),
    Unit(PROP, "stiffness_simp", lambda c: stiffness(
        c, "assemble_stiffness_matrix_simp", "simp"), doc=stiffness.__doc__),
    Unit(PROP, "stiffness_ramp", lambda c: stiffness(
        c, "assemble_stiffness_matrix_ramp", "ramp"), doc=stiffness.__doc__),
    Unit(PROP, "conduction", conduction),
    Unit(PROP, "lame", lame),
    Unit(PROP, "von_mises", mises),
    Unit(PROP, "model", model),
    Unit(PROP, "model_one_load", lambda c: model(c, False),
         doc=model.__doc__),
    Unit(PROP, "model_unscaled", lambda c: model(c, True, False),
         doc=model.__doc__),
]


# -- real meshes, real solvers (bounded) --------------------------------------
def r_state(rt):
    """random meshes, materials, loads and solvers: equilibrium, constraint,
    compliance, energies, load cases solved together and alone"""
    import numpy as np
    import scipy.sparse as sp
    import skfem
    from skfem.helpers import ddot, trace, sym_grad
    from rt import toy
    F_ = rt.get(SE, "FEM_SimpLinearElasticity")
    Cfg = rt.get(SE, "LinearSolverConfig")
    laws = [rt.get(CO, n) for n in ("simp_interpolation",
                                    "ramp_interpolation")]
    g = rt.np_rng
    for _ in range(rt.n(14, 120)):
        m, _v = toy.mesh(g, nmax=3)
        hexa = isinstance(m, skfem.MeshHex)
        if not hexa:
            m = skfem.MeshTet(m.p, rt.get(
                "sktopt.mesh.utils", "fix_elements_orientation")(m),
                sort_t=False)
        basis = skfem.Basis(m, skfem.ElementVector(
            skfem.ElementHex1() if hexa else skfem.ElementTetP1()))
        lo = np.where(m.p[0] <= m.p[0].min() + .1)[0]
        D = basis.nodal_dofs[:, lo].ravel()
        if g.random() < .4:
            extra = g.integers(0, m.p.shape[1], 2)
            D = np.r_[D, basis.nodal_dofs[int(g.integers(3)), extra]]
        D = g.permutation(np.unique(D))
        free = np.setdiff1d(np.arange(basis.N), D)
        n = int(g.integers(1, 4))
        loads = [g.normal(size=basis.N) * 10. ** g.integers(-2, 3)
                 for _ in range(n)]
        E, nu = float(g.uniform(.5, 300)), float(g.uniform(0, .45))
        co = float(10. ** -g.integers(2, 5))
        p, law = float(g.uniform(1, 4)), laws[int(g.integers(2))]
        rho = g.uniform(.05, 1., m.t.shape[1])
        how = str(g.choice(["spsolve", "auto"] if n > 1 else
                           ["spsolve", "auto", "cg_jacobi", "cg_pyamg"]))
        scale = float(g.choice([1., .3, -2.]))
        task = Stub(E=E, nu=nu, basis=basis, free_dofs=free,
                    dirichlet_dofs=D,
                    neumann_linear=loads if n > 1 or g.random() < .5
                    else loads[0])
        rtol = 1e-9
        with rt.case("state", p=m.p, t=m.t, hexa=hexa, D=D, E=E, nu=nu,
                     coeff=co, exponent=p, law=law.__name__, rho=rho,
                     loads=loads, solver=how, scale=scale):
            fem = F_(task, co, law, solver_config=Cfg(
                solver=how, rtol=rtol, maxiter=20000))
            keep = [f.copy() for f in loads]
            U = np.full((basis.N, n), 7.)
            c = fem.objectives_multi_load(rho, p, U, force_scale=scale)
            W = fem.energy_multi_load(rho, p, U)
            rt.ok("the task's loads are unchanged", all(
                np.array_equal(a, b) for a, b in zip(keep, loads)))
            Ee = E * co + (E - E * co) * (
                rho ** p if law is laws[0] else rho / (1 + p * (1 - rho)))
            lam = (Ee * nu / ((1 + nu) * (1 - 2 * nu)))[:, None]
            mu = (Ee / (2 * (1 + nu)))[:, None]

            @skfem.BilinearForm
            def a(u, v, w):
                eu, ev = sym_grad(u), sym_grad(v)
                return lam * trace(eu) * trace(ev) + 2 * mu * ddot(eu, ev)
            K = sp.csr_matrix(a.assemble(basis))
            tol = 1e-6
            rt.ok("one compliance per load", np.shape(c) == (n,))
            for i in range(n):
                u, f = U[:, i], scale * loads[i]
                rt.ok("constrained dofs do not move",
                      bool(np.all(np.abs(u[D]) <= 1e-12 *
                                  (1 + np.abs(u).max()))))
                r = (K @ u - f)[free]
                rt.ok("equilibrium", np.linalg.norm(r) <= tol * (
                    np.linalg.norm(f)), f"{np.linalg.norm(r)}")
                rt.ok("compliance is the work of the load",
                      abs(c[i] - f @ u) <= tol * abs(f @ u))
                rt.ok("energies add up to half the compliance",
                      abs(W[:, i].sum() - .5 * c[i]) <= 10 * tol *
                      abs(c[i]), f"{W[:, i].sum()} {c[i]}")
                rt.ok("no negative energy", bool(
                    np.all(W[:, i] >= -1e-12 * abs(c[i]))))
                if n > 1:
                    task1 = Stub(**{**vars(task), "neumann_linear":
                                    [loads[i]]})
                    V = np.zeros((basis.N, 1))
                    c1 = F_(task1, co, law, solver_config=Cfg(
                        solver="spsolve")).objectives_multi_load(
                            rho, p, V, force_scale=scale)
                    rt.ok("same as alone", np.allclose(
                        V[:, 0], u, rtol=1e-7,
                        atol=1e-9 * np.abs(u).max()) and
                        abs(c1[0] - c[i]) <= tol * abs(c[i]))


RUNTIME = [("state", r_state, 120)]
