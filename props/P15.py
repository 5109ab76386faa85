"""Helmholtz (PDE) density filter on nodes."""
import z3
from vpy import terms as T, npshim, solve
from vpy.unit import Unit
from vpy.engine import Sym, SymArray, dim_term
from vpy.contracts import Stub, induct, note_positions

PROP = "P15"
MOD = "sktopt.filters.helmholtz_filter_nodal"


def mesh_of(c, nn):
    P, E = c.int("n_nodes", 1), c.int("n_elements", 1)
    p = c.array("p", (3, P))
    t = c.array("t", (nn, E), kind="int",
                pred=lambda a, e, v: z3.And(v >= 0, v < P.t))
    return Stub(p=p, t=t, nelements=E, nvertices=P), P, E


def touches(nn, tf, x, e):
    return z3.Or(*[tf(z3.IntVal(a), e) == x for a in range(nn)])


def ghosts(c, nn, E, val, wgt):
    """S(x,k), V(x,k): weighted sum of the element values, and of the
    weights, over the first k elements that contain node x"""
    S = z3.Function("S", T.I, T.I, T.R)
    V = z3.Function("V", T.I, T.I, T.R)
    tf = z3.Function("t", T.I, T.I, T.I)

    def step(x, k):
        hit = touches(nn, tf, x, k)
        z = z3.RealVal(0)
        return z3.And(
            S(x, k + 1) == S(x, k) + z3.If(hit, wgt(k) * val(k), z),
            V(x, k + 1) == V(x, k) + z3.If(hit, wgt(k), z))
    c.fact(step, (None, E.t))
    c.fact(lambda x: z3.And(S(x, z3.IntVal(0)) == 0,
                            V(x, z3.IntVal(0)) == 0))

    def inv(mods):
        for b in mods:
            if len(b.shape) == 1 and b.dtype == "real":
                yield "sum", b, lambda f, k, x: f((x,)) == S(x, k)
                yield "weight", b, lambda f, k, x: f((x,)) == V(x, k)
    c.ghost["array_inv"] = inv
    return S, V, tf


def average(c, nn, weighted, masked):
    """node value = weighted mean of the adjacent element values"""
    M = c.load(MOD)
    mesh, P, E = mesh_of(c, nn)
    vol = c.array("vol", E, lo_open=0)
    lo, hi = c.real("lo"), c.real("hi")
    rho = c.array("rho", E, lo=lo, hi=hi)
    fixed = c.real("fixed", lo=lo, hi=hi)
    vf, rf = z3.Function("vol", T.I, T.R), z3.Function("rho", T.I, T.R)
    m = None
    if masked:
        m = c.array("mask", E, kind="bool")
        mf = z3.Function("mask", T.I, z3.BoolSort())
        val = lambda e: z3.If(mf(e), rf(e), fixed.t)
    else:
        val = rf
    wgt = vf if weighted else (lambda e: z3.RealVal(1))
    S, V, tf = ghosts(c, nn, E, val, wgt)
    y = M.element_to_node_density_averaging(
        mesh, vol, rho, design_mask=m, weighted=weighted,
        fixed_value_for_design=fixed)
    c.forall("densities only read", rho, lambda i, v: v == rf(i))
    c.forall("volumes only read", vol, lambda i, v: v == vf(i))
    induct(c, "weights", lambda k, x: V(x, k) >= 0, E, (P,))
    induct(c, "sum between the bounds", lambda k, x: z3.And(
        S(x, k) >= lo.t * V(x, k), S(x, k) <= hi.t * V(x, k)), E, (P,))
    c.forall("one value per node", y, lambda x, v: z3.BoolVal(True))
    c.post("one value per node", dim_term(y.dims[0]) == P.t)
    c.forall("weighted mean of the adjacent elements", y,
             lambda x, v: z3.If(V(x, E.t) == 0, v == 0,
                                v * V(x, E.t) == S(x, E.t)))
    c.forall("inside the range of the densities", y,
             lambda x, v: z3.Implies(V(x, E.t) > 0, z3.And(
                 v >= lo.t, v <= hi.t)))
    # a node of an element has positive total weight
    e = c.fresh_idx(E, "e")
    x = c.fresh_idx(P, "x")
    c.assume(touches(nn, tf, x, e))
    induct(c, "adjacent weight counts", lambda k: z3.And(
        V(x, k) >= 0, z3.Implies(k > e, V(x, k) > 0)), E)
    c.post("nodes of elements have weight", V(x, E.t) > 0)
    c.reach("end")


def mk(nn, weighted, masked):
    def u(c):
        average(c, nn, weighted, masked)
    u.__doc__ = average.__doc__
    return u


def u_node_to_element(c):
    """element value = mean of its nodes, inside their range"""
    M = c.load(MOD)
    for nn in (4, 8):
        mesh, P, E = mesh_of(c, nn)
        lo, hi = c.real("lo"), c.real("hi")
        z = c.array(f"z{nn}", P, lo=lo, hi=hi)
        zf = z3.Function(f"z{nn}", T.I, T.R)
        tf = z3.Function("t", T.I, T.I, T.I)
        y = M.node_to_element_density(mesh, z)
        c.post(f"{nn}: one value per element", dim_term(y.dims[0]) == E.t)
        k = c.fresh_idx(E, "e")
        for a in range(nn):
            c.note_idx(tf(z3.IntVal(a), k))
        vals = [zf(tf(z3.IntVal(a), k)) for a in range(nn)]
        v = c.val(y, k)
        c.post(f"{nn}: mean of the nodes", v * nn == z3.Sum(*vals))
        c.post(f"{nn}: inside the nodal range",
               z3.And(v >= lo.t, v <= hi.t))


class Form:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a):
        return self.fn(*a)

    def assemble(self, basis, *a, **k):
        P = basis.size
        r = Stub(form=self, basis=basis, shape=(P, P), assembled=True)
        return r


class FakeFem:
    """contract of the finite-element library as used here: forms are
    assembled over a basis, condense imposes x[D], solve returns the solution
    of the assembled system"""

    def __init__(self, c, P):
        self.c, self.P = c, P
        self.grads = {}
        self.solved = []

    def Basis(self, mesh, elem, *a, **k):
        if a or k:
            raise T.Unsupported("basis options")
        fem = self

        def interpolate(x):
            w = fem.c.real("field")
            fem.interp = (x, w)
            return w
        return Stub(kind="basis", mesh=mesh, elem=elem, size=self.P,
                    interpolate=interpolate)

    CellBasis = InteriorBasis = Basis
    BilinearForm = LinearForm = Form

    def asm(self, form, basis, **k):
        return form.assemble(basis)

    def condense(self, A, b, D=None, x=None, **k):
        if k:
            raise T.Unsupported("condense options")
        return A, b, D, x

    def solve(self, A, b, D=None, x=None, *a, **k):
        z = npshim.havoc_array((self.P,), "real", "z")
        self.solved.append((A, b, D, x, z))
        return z

    def grad(self, u):
        return self.grads[id(u)]

    def dot(self, a, b):
        return sum((x * y for x, y in zip(a, b)), 0)


def solve_unit(c, nn, case, masked):
    """the assembled system is the screened Poisson equation with the given
    radius and right-hand side; nodes of elements outside the design are held
    at 1 (forward) or 0 (gradient)"""
    M = c.load(MOD)
    mesh, P, E = mesh_of(c, nn)
    r = c.real("r", lo_open=0)
    z = c.array("rho_node", P)
    zf = z3.Function("rho_node", T.I, T.R)
    m = c.array("mask", E, kind="bool") if masked else None
    fem = FakeFem(c, P)
    elem = object()
    c.ghost["inst_rounds"] = 3
    M.skfem = fem
    M.dot, M.grad = fem.dot, fem.grad
    M.infer_element_from_mesh = lambda q: elem
    out = M.solve_helmholtz(case, mesh, z, r, m)
    c.forall("nodal field only read", z, lambda i, v: v == zf(i))
    c.post("one system solved", z3.BoolVal(len(fem.solved) == 1))
    A, b, D, x0, sol = fem.solved[0]
    c.post("the solution is returned", z3.BoolVal(out is sol))
    c.post("right-hand side field is the nodal field",
           z3.BoolVal(fem.interp[0] is z))
    for q, (nm, o) in enumerate([("matrix", A), ("rhs", b)]):
        c.post(f"{nm}: assembled on the mesh", z3.BoolVal(
            getattr(o, "assembled", False) and o.basis.mesh is mesh
            and o.basis.elem is elem))
    u, v = c.real("u"), c.real("v")
    gu = [c.real(f"gu{i}") for i in range(3)]
    gv = [c.real(f"gv{i}") for i in range(3)]
    fem.grads = {id(u): gu, id(v): gv}
    val = T.lift(A.form(u, v, Stub()))
    c.post("bilinear form", val == u.t * v.t + r.t * r.t * sum(
        (x.t * y.t for x, y in zip(gu, gv)), z3.RealVal(0)))
    c.post("linear form", T.lift(b.form(v, Stub())) ==
           fem.interp[1].t * v.t)
    tf = z3.Function("t", T.I, T.I, T.I)
    x = c.fresh_idx(P, "x")
    if not masked:
        c.post("no fixed nodes", z3.BoolVal(D is None))
        return
    mf = z3.Function("mask", T.I, z3.BoolSort())
    # every node of an element outside the design is fixed at the value
    e = c.fresh_idx(E, "e")
    c.assume(z3.And(z3.Not(mf(e)), touches(nn, tf, x, e)))
    want = 1 if case == "forward" else 0
    note_positions(c, e)
    if D is None:
        c.post("fixed nodes are imposed", z3.BoolVal(False))
        return
    mem = c.mem(D)
    c.post("nodes outside the design are fixed", mem(x))
    c.post("fixed value", c.val(x0, x) == want)
    c.reach("end")


def u_solve_fixed_only(c):
    """only nodes of elements outside the design are held fixed"""
    M = c.load(MOD)
    nn = 4
    mesh, P, E = mesh_of(c, nn)
    m = c.array("mask", E, kind="bool")
    c.ghost["inst_rounds"] = 3
    fem = FakeFem(c, P)
    M.skfem = fem
    M.dot, M.grad = fem.dot, fem.grad
    M.infer_element_from_mesh = lambda q: None
    M.solve_helmholtz("forward", mesh, c.array("rho_node", P),
                      c.real("r", lo_open=0), m)
    A, b, D, x0, sol = fem.solved[0]
    if D is None:
        return
    tf = z3.Function("t", T.I, T.I, T.I)
    mf = z3.Function("mask", T.I, z3.BoolSort())
    x = c.fresh_idx(P, "x")
    c.assume(c.mem(D)(x))
    # witness element: among the elements the set construction names
    with solve.quiet_idx(c):
        wit = list(c.idx)
    c.post("only nodes of elements outside the design",
           z3.Or(*[z3.And(t >= 0, t < E.t, z3.Not(mf(t)),
                          touches(nn, tf, x, t)) for t in wit]))


def mk_solve(nn, case, masked):
    def u(c):
        solve_unit(c, nn, case, masked)
    u.__doc__ = solve_unit.__doc__
    return u


def make(c, M, nn, masked, want_case):
    """filter object with the two element/node maps and the solver replaced
    by their contracts"""
    mesh, P, E = mesh_of(c, nn)
    vol = c.array("vol", E, lo_open=0)
    m = c.array("mask", E, kind="bool") if masked else None
    r = c.real("radius", lo_open=0)
    F = M.HelmholtzFilterNodal.from_defaults(
        mesh, vol, c.real("radius0", lo_open=0), design_mask=m)
    F.update_radius(r)
    tf = z3.Function("t", T.I, T.I, T.I)
    mf = z3.Function("mask", T.I, z3.BoolSort())
    log = {}
    real_avg = M.element_to_node_density_averaging
    real_solve = M.solve_helmholtz
    import inspect

    def bind(fn, a, k):
        fn = getattr(fn, "vpy_body", fn)
        q = inspect.signature(fn).bind(*a, **k)
        q.apply_defaults()
        return q.arguments

    def avg(*a, **k):
        q = bind(real_avg, a, k)
        c.post("averaging on the filter's mesh",
               z3.BoolVal(q["mesh"] is mesh))
        c.post("volumes as weights", z3.BoolVal(
            q["elements_volume"] is vol and q["weighted"] is True))
        c.post("design mask passed on", z3.BoolVal(q["design_mask"] is m))
        c.post("value outside the design", T.lift(
            q["fixed_value_for_design"]) == (
                1 if want_case == "forward" else 0))
        log["elem"] = q["rho_elem"]
        log["node"] = npshim.havoc_array((P,), "real", "node")
        return log["node"]

    def solve(*a, **k):
        q = bind(real_solve, a, k)
        c.post("solver on the filter's mesh", z3.BoolVal(q["mesh"] is mesh))
        c.post("solver gets the nodal field",
               z3.BoolVal(q["rho_node"] is log["node"]))
        c.post("current radius", T.lift(q["r_min"]) == r.t)
        c.post("direction", z3.BoolVal(q["case"] == want_case))
        z = npshim.havoc_array((P,), "real", "z")
        log["z"] = z
        zf = z.snap()
        dm = q["design_mask"]
        if dm is not None:
            c.post("solver gets the design mask", z3.BoolVal(dm is m))
            fx = 1 if q["case"] == "forward" else 0
            c.fact(lambda e: z3.Implies(z3.Not(mf(e)), z3.And(*[
                zf((tf(z3.IntVal(a), e),)) == fx for a in range(nn)])),
                (E.t,))
        log["solver_mask"] = dm
        return z
    avg.vpy_body, solve.vpy_body = real_avg, real_solve
    M.element_to_node_density_averaging = avg
    M.solve_helmholtz = solve
    return F, mesh, P, E, m, tf, mf, log


def forward(c, nn, masked):
    """element value = mean of the filtered nodal field; 1 outside the
    design; input only read"""
    M = c.load(MOD)
    F, mesh, P, E, m, tf, mf, log = make(c, M, nn, masked, "forward")
    x = c.array("x", E)
    xf = z3.Function("x", T.I, T.R)
    y = F.forward(x)
    c.post("densities averaged", z3.BoolVal(log["elem"] is x))
    c.forall("input only read", x, lambda i, v: v == xf(i))
    c.post("one value per element", dim_term(y.dims[0]) == E.t)
    e = c.fresh_idx(E, "e")
    z = log["z"].snap()
    c.post("mean of the filtered nodes", c.val(y, e) * nn == sum(
        (z((tf(z3.IntVal(a), e),)) for a in range(nn)), z3.RealVal(0)))
    if masked:
        c.post("mask reaches the solver",
               z3.BoolVal(log["solver_mask"] is m))
        c.post("solid outside the design", z3.Implies(
            z3.Not(mf(e)), c.val(y, e) == 1))
    else:
        c.post("no mask", z3.BoolVal(log["solver_mask"] is None))
    c.reach("end")


def gradient(c, nn, masked):
    """the filtered sensitivity keeps the sign of a descent direction"""
    M = c.load(MOD)
    F, mesh, P, E, m, tf, mf, log = make(c, M, nn, masked, "gradient")
    x = c.array("x", E)
    xf = z3.Function("x", T.I, T.R)
    y = F.gradient(x)
    c.forall("argument only read", x, lambda i, v: v == xf(i))
    c.post("sensitivities averaged", z3.BoolVal(log["elem"] is x))
    e = c.fresh_idx(E, "e")
    z = log["z"].snap()
    s = sum((z((tf(z3.IntVal(a), e),)) for a in range(nn)), z3.RealVal(0))
    c.post("never positive", c.val(y, e) <= 0)
    c.post("mean of the filtered nodes where negative",
           z3.Implies(s <= 0, c.val(y, e) * nn == s))
    c.reach("end")


def mk2(f, nn, masked):
    def u(c):
        f(c, nn, masked)
    u.__doc__ = f.__doc__
    return u


UNITS = [Unit(PROP, f"average_{nn}_{'w' if w else 'u'}{'_mask' if m else ''}",
              mk(nn, w, m))
         for nn, w, m in [(4, True, False), (4, True, True),
                          (8, True, True), (4, False, True)]]
UNITS += [Unit(PROP, "node_to_element", u_node_to_element),
          Unit(PROP, "solve_fixed_only", u_solve_fixed_only)]
UNITS += [Unit(PROP, f"solve_{k}_{nn}{'_mask' if m else ''}",
               mk_solve(nn, k, m))
          for nn, k, m in [(4, "forward", False), (4, "forward", True),
                           (8, "forward", True), (4, "gradient", False),
                           (4, "gradient", True)]]
UNITS += [Unit(PROP, f"{f.__name__}_{nn}{'_mask' if m else ''}",
               mk2(f, nn, m))
          for f in (forward, gradient)
          for nn, m in [(4, False), (4, True), (8, True)]]


def reference(mesh, z, r, mask, fixed):
    """independent assembly of (M + r^2 K) x = M z with x = fixed on the
    nodes of elements outside the mask"""
    import numpy as np
    import skfem
    from skfem.models.poisson import mass, laplace
    import scipy.sparse.linalg as sl
    el = skfem.ElementTetP1() if mesh.t.shape[0] == 4 \
        else skfem.ElementHex1()
    b = skfem.Basis(mesh, el)
    Mm, K = mass.assemble(b).tocsr(), laplace.assemble(b).tocsr()
    A, f = Mm + r * r * K, Mm @ z
    n = len(z)
    fx = np.zeros(n, bool)
    if mask is not None:
        for e in np.nonzero(~mask)[0]:
            fx[mesh.t[:, e]] = True
    x = np.full(n, float(fixed))
    I = np.nonzero(~fx)[0]
    if len(I):
        x[I] = np.linalg.solve(A[I][:, I].toarray(),
                               f[I] - A[I][:, np.nonzero(fx)[0]] @
                               x[fx])
    return x, Mm


def nodal(mesh, vol, x, mask, fixed, weighted=True):
    import numpy as np
    n = mesh.p.shape[1]
    s, w = np.zeros(n), np.zeros(n)
    for e in range(mesh.t.shape[1]):
        q = vol[e] if weighted else 1.0
        v = x[e] if mask is None or mask[e] else fixed
        for k in mesh.t[:, e]:
            s[k] += q * v
            w[k] += q
    return np.where(w > 0, s / np.where(w > 0, w, 1), 0.0)


def r_filter(rt):
    import numpy as np
    from rt import toy
    F = rt.get(MOD, "HelmholtzFilterNodal")
    for k in range(rt.n(30, 300)):
        g = rt.np_rng
        mesh, vol = toy.mesh(g, nmax=7, nmin=5) if k % 6 == 2 else toy.mesh(g)
        ne = mesh.t.shape[1]
        kind = g.choice(["none", "all", "some", "one"])
        kind = "some" if k % 12 == 2 else kind
        mask = None if kind == "none" else np.ones(ne, bool)
        if kind == "some":
            mask = g.random(ne) < g.uniform(.2, .9)
            if k % 3 == 2:       # a block
                mask = np.arange(ne) < ne // 2
        if kind == "one":
            mask[:] = False
            mask[g.integers(ne)] = True
        r0, r = g.uniform(.05, 2), g.uniform(.05, 2)
        x, v = g.uniform(0.01, 1, ne), -g.uniform(0, 1, ne)
        const = float(g.uniform(.1, 1))
        with rt.case("filter", mesh=type(mesh).__name__,
                     nx=mesh.p.shape[1], mask=mask, radius=r, x=x, v=v):
            f = F.from_defaults(mesh, vol, r0, design_mask=mask)
            if k % 2:
                f.forward(x)
            f.update_radius(r)
            x0, v0 = x.copy(), v.copy()
            y = f.forward(x)
            gr = f.gradient(v)
            rt.ok("inputs only read", np.array_equal(x, x0) and
                  np.array_equal(v, v0))
            zn = nodal(mesh, vol, x, mask, 1.0)
            z, Mm = reference(mesh, zn, r, mask, 1.0)
            rt.close("forward", y, z[mesh.t].mean(0), 1e-7, 1e-9)
            gn = nodal(mesh, vol, v, mask, 0.0)
            zg, _ = reference(mesh, gn, r, None, 0.0)
            rt.close("gradient", gr, np.minimum(zg[mesh.t].mean(0), 0),
                     1e-7, 1e-9)
            if mask is not None:
                rt.close("solid outside the design", y[~mask],
                         np.ones((~mask).sum()), 1e-9)
            else:
                rt.close("constant preserved", f.forward(
                    np.full(ne, const)), np.full(ne, const), 1e-7)
            rt.ok("never positive", np.all(gr <= 0))


def r_average(rt):
    import numpy as np
    from rt import toy
    A = rt.get(MOD, "element_to_node_density_averaging")
    N = rt.get(MOD, "node_to_element_density")
    for k in range(rt.n(60, 600)):
        g = rt.np_rng
        mesh, vol = toy.mesh(g)
        ne = mesh.t.shape[1]
        mask = None if g.random() < .3 else g.random(ne) < .6
        x = g.uniform(-1, 1, ne)
        w = bool(g.random() < .5)
        fixed = float(g.uniform(-1, 2))
        with rt.case("average", mesh=type(mesh).__name__, mask=mask, x=x,
                     weighted=w, fixed=fixed):
            z = A(mesh, vol, x, design_mask=mask, weighted=w,
                  fixed_value_for_design=fixed)
            rt.close("weighted mean", z, nodal(mesh, vol, x, mask, fixed, w),
                     1e-9, 1e-12)
            rt.close("element mean", N(mesh, z), z[mesh.t].mean(0), 1e-12)


RUNTIME = [("filter", r_filter, 200), ("average", r_average, 200)]
