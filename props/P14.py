"""Spatial density filter."""
import z3
from vpy import terms as T, npshim, sparse
from vpy.unit import Unit
from vpy.engine import Sym, SymArray
from vpy.contracts import Stub, sum_le, sum_pos

PROP = "P14"
MOD = "sktopt.filters.spacial"


def kernels(c, kind):
    M = c.load(MOD)
    r = c.real("r", lo_open=0)
    n = c.int("n", 1)
    d = c.array("d", n, lo=0)
    kern, sup = M.make_kernel(kind, r)
    w = kern(d)
    dd = z3.Function("d", T.I, T.R)
    c.forall("distances only read", d, lambda i, v: v == dd(i))
    c.post("support equals the radius", T.lift(sup) == r.t)
    c.forall("non-negative weight", w, lambda i, v: v >= 0)
    c.forall("positive inside the support", w, lambda i, v: z3.Implies(
        dd(i) < r.t, v > 0))
    i, j = c.fresh_idx(n.t), c.fresh_idx(n.t)
    c.post("weight does not grow with the distance", z3.Implies(
        dd(i) <= dd(j), c.val(w, i) >= c.val(w, j)))
    c.post("equal distances, equal weights", z3.Implies(
        dd(i) == dd(j), c.val(w, i) == c.val(w, j)))
    if kind == "gaussian":
        c.forall("gaussian with sigma a third of the radius", w,
                 lambda i, v: v == T.t_exp(-(dd(i) / (r.t / 3)) *
                                           (dd(i) / (r.t / 3)) / 2))


def u_linear(c):
    kernels(c, "linear")


def u_quadratic(c):
    kernels(c, "quadratic")


def u_gauss(c):
    kernels(c, "gaussian")


def points(c, mask):
    N = c.int("N", 1)
    cen = c.array("centers", (3, N))
    m = c.array("mask", N, kind="bool") if mask else None
    return N, cen, m


def dist(cen, i, j):
    f = cen.snap()
    r = z3.RealVal(0)
    for a in range(3):
        e = T.t_sub(f((z3.IntVal(a), j)), f((z3.IntVal(a), i)))
        r = T.t_add(r, T.t_mul(e, e))
    return T.t_sqrt(r)


def designs(c, m, N):
    """design numbering: the k-th design element"""
    if m is None:
        return N.t, (lambda k: k)
    nz = npshim.nonzero1(m)
    f = nz.snap()
    return npshim.dim_term(nz.dims[0]), (lambda k: f((k,)))


def matrix(c, mask, volume):
    """every row of the filter matrix is a weighted average over the design
    neighbours inside the radius, weights from the kernel"""
    c.ghost["map_loops"] = True
    c.ghost["inst_rounds"] = 1
    M = c.load(MOD)
    M.build_filter_matrix = getattr(M.build_filter_matrix, "vpy_body",
                                    M.build_filter_matrix)
    N, cen, m = points(c, mask)
    r = c.real("support", lo_open=0)
    K0 = z3.Function("K", T.R, T.R)

    def K(d):
        """an arbitrary positive function of the distance"""
        return T.t_exp(K0(d))

    def kernel(d):
        f = d.snap()
        return SymArray(d.dims, lambda i: K(f(i)), "real")
    vol = c.array("vol", N, lo_open=0)
    c.ghost["no_sum_sign"] = True
    if m is not None:
        nd, des = designs(c, m, N)
        c.assume(nd >= 1)
    W = M.build_filter_matrix(cen, kernel, r,
                              elem_volume=vol if volume else None,
                              volume_correction=volume, design_mask=m)
    nd, des = designs(c, m, N)
    c.post("one row per design element", z3.And(
        T.val(T.lift(W.shape[0])) == nd, T.val(T.lift(W.shape[1])) == nd))
    i = c.fresh_idx(nd, "i")
    l = c.fresh_idx(W.n(i), "l")
    j = W.col(i, l)
    c.note_idx(j)
    gi, gj = c.note_idx(des(i)), c.note_idx(des(j))
    c.post("column is a design element", z3.And(j >= 0, j < nd))
    raw = c.ghost["coo"][-1]
    c.post("only neighbours inside the radius", dist(cen, gi, gj) <= r.t)
    with npshim.quiet():
        w = K(dist(cen, gi, gj))
        if volume:
            w = w * vol.at(gj)
        s = npshim.sum_term(lambda q: W.val(i, q), W.n(i))
        v = W.val(i, l)
    # the matrix before normalisation: sum of the raw weights of row i
    sum_pos(c, "row total", lambda q: raw.val(i, q), raw.n(i))
    tot = npshim.sum_term(lambda q: raw.val(i, q), raw.n(i))
    with npshim.quiet():
        x = raw.val(i, l)
    c.lemma("weight of the pair", x == w)
    c.lemma("positive", x > 0, using=None if volume else [])
    pos = tot > 0
    c.lemma("row total positive", pos)
    c.lemma("scaled", v == x / tot, using=[pos])
    c.lemma("weight is the kernel value over the row total",
            v * tot == w, using=[pos, v == x / tot, x == w])
    c.lemma("positive weight", v > 0, using=[pos, v == x / tot, x > 0])
    c.post("rows sum to one", s == 1)
    c.reach("end")


def u_matrix(c):
    matrix(c, True, False)


def u_matrix_vol(c):
    matrix(c, True, True)


def u_matrix_all(c):
    matrix(c, False, False)


class Averaging(sparse.SpMat):
    """contract of build_filter_matrix (proved by the matrix units): row i
    averages design elements with positive weights that sum to one"""

    def __init__(self, c, nd):
        self.c = c
        nf = c.fresh_fn("n_row", T.I, T.I)
        colf = c.fresh_fn("col", T.I, T.I, T.I)
        valf = c.fresh_fn("val", T.I, T.I, T.R)
        super().__init__(nd, nd, nf, lambda i, l: c.note_idx(colf(i, l)),
                         valf)
        c.fact(lambda i: nf(i) >= 1, (nd,))
        c.fact(lambda i, l: z3.Implies(z3.And(l >= 0, l < nf(i)), z3.And(
            colf(i, l) >= 0, colf(i, l) < nd, valf(i, l) > 0)), (nd, None))

    def rowsum(self, i):
        c = self.c
        g = c.ghost.get("no_sum_sign")
        c.ghost["no_sum_sign"] = True
        s = npshim.sum_term(lambda q: self.val(i, q), self.n(i))
        c.ghost["no_sum_sign"] = g
        c.assume(z3.Implies(z3.And(i >= 0, i < T.lift(self._r)), s == 1))

    def __matmul__(self, x):
        if isinstance(x, SymArray) and x.ndim == 1:
            y = super().__matmul__(x)
            f = y.snap()

            def g(i):
                self.rowsum(i[0])
                return f(i)
            return SymArray(y.dims, g, "real")
        return super().__matmul__(x)

    dot = __matmul__


def builder_contract(c, M, flt_):
    real = getattr(M.build_filter_matrix, "vpy_body", M.build_filter_matrix)

    def contract(element_centers, kernel, support_radius, elem_volume=None,
                 volume_correction=True, design_mask=None):
        f, N, cen, m, r = flt_
        c.ghost["built"] = c.ghost.get("built", 0) + 1
        c.post("filter matrix from the element centres",
               z3.BoolVal(element_centers is cen))
        c.post("filter matrix from the design mask",
               z3.BoolVal(design_mask is m))
        c.post("support is the current radius",
               T.lift(support_radius) == r.t)
        c.post("plain kernel weights, no volume factor", z3.BoolVal(
            elem_volume is None or volume_correction is False))
        d = npshim.havoc_array((c.int("n_pairs", 1),), "real", "dist")
        with npshim.quiet():
            df = d.snap()
            w = kernel(d)
            c.forall("gaussian kernel, sigma a third of the radius", w,
                     lambda i, v: v == T.t_exp(
                         -(df((i,)) / (r.t / 3)) * (df((i,)) / (r.t / 3))
                         / 2))
        nd, _ = designs(c, m, N)
        W = Averaging(c, nd)
        c.ghost["W"] = W
        return W
    contract.vpy_body = real
    M.build_filter_matrix = contract


def flt(c, M, mask):
    N, cen, m = points(c, mask)
    r = c.real("radius", lo_open=0)
    F = M.SpacialFilter
    f = F(mesh=None, elements_volume=c.array("vol", N, lo_open=0),
          radius=c.real("radius0", lo_open=0), design_mask=m,
          element_centers=cen)
    f.update_radius(r)
    if m is not None:
        nd, des = designs(c, m, N)
        c.assume(nd >= 1)
    return f, N, cen, m, r


def constant(c, mask):
    """a constant field is returned unchanged"""
    c.ghost["map_loops"] = True
    M = c.load(MOD)
    fl = f, N, cen, m, r = flt(c, M, mask)
    builder_contract(c, M, fl)
    const = c.real("const")
    y0 = f.forward(npshim.full((N,), const))
    c.forall("constant field is preserved", y0, lambda i, v: v == const.t)
    c.reach("end")


def u_constant(c):
    constant(c, True)


def u_constant_all(c):
    constant(c, False)


def forward(c, mask):
    """output is a local average: no new extremes, elements outside the
    design untouched, input only read"""
    c.ghost["map_loops"] = True
    M = c.load(MOD)
    fl = f, N, cen, m, r = flt(c, M, mask)
    builder_contract(c, M, fl)
    lo, hi = c.real("lo"), c.real("hi")
    x = c.array("x", N, lo=lo, hi=hi)
    xf = z3.Function("x", T.I, T.R)
    y = f.forward(x)
    W = c.ghost["W"]
    nd, des = designs(c, m, N)
    c.forall("input only read", x, lambda i, v: v == xf(i))
    if m is not None:
        mk = z3.Function("mask", T.I, z3.BoolSort())
        c.forall("other elements untouched", y, lambda k, v: z3.Implies(
            z3.Not(mk(k)), v == xf(k)))
    gi = c.fresh_idx(N.t, "elem")
    if m is None:
        i = gi
    else:
        c.assume(mk(gi))
        i = npshim.index_info(npshim.nonzero1(m)).pos(gi)
    W.rowsum(i)
    X = lambda q: xf(des(W.col(i, q)))
    sum_le(c, "upper", lambda q: W.val(i, q) * X(q),
           lambda q: W.val(i, q) * hi.t, W.n(i))
    sum_le(c, "lower", lambda q: W.val(i, q) * lo.t,
           lambda q: W.val(i, q) * X(q), W.n(i))
    c.post("design element: no new maximum", c.val(y, gi) <= hi.t)
    c.post("design element: no new minimum", c.val(y, gi) >= lo.t)
    c.reach("end")


def u_forward(c):
    forward(c, True)


def u_forward_all(c):
    forward(c, False)


def gradient(c, mask):
    """gradient = transpose of the matrix of the last forward pass on the
    design elements, zero elsewhere"""
    c.ghost["map_loops"] = True
    c.ghost["no_sum_sign"] = True
    M = c.load(MOD)
    fl = f, N, cen, m, r = flt(c, M, mask)
    builder_contract(c, M, fl)
    x = c.array("x", N)
    f.forward(x)
    W = c.ghost["W"]
    v = c.array("v", N)
    vf = z3.Function("v", T.I, T.R)
    g = f.gradient(v)
    c.forall("argument only read", v, lambda i, t: t == vf(i))
    nd, des = designs(c, m, N)
    prods = c.ghost.get("adjoint_products", [])
    c.post("one transposed product", z3.BoolVal(len(prods) == 1))
    mat, arg, res = prods[-1]
    c.post("with the matrix of the last forward pass",
           z3.BoolVal(mat is W))
    k = c.fresh_idx(nd, "k")
    gk = c.note_idx(des(k))
    c.post("operand restricted to the design", arg((k,)) == vf(gk))
    c.post("design entries are the product", c.val(g, gk) == res((k,)))
    if m is not None:
        mk = z3.Function("mask", T.I, z3.BoolSort())
        c.forall("zero outside the design", g, lambda q, t: z3.Implies(
            z3.Not(mk(q)), t == 0))
    c.reach("end")


def u_gradient(c):
    gradient(c, True)


def u_gradient_all(c):
    gradient(c, False)


def u_centers(c):
    """element centre = mean of its nodes (tetrahedra and hexahedra)"""
    M = c.load(MOD)
    n = c.int("nodes", 1)
    e = c.int("elements", 1)
    p = c.array("p", (3, n))
    for k in (4, 8):
        t = c.array(f"t{k}", (k, e), kind="int",
                    pred=lambda i, j, v: z3.And(v >= 0, v < n.t))
        cen = M.get_element_centers(Stub(p=p, t=t))
        pf = z3.Function("p", T.I, T.I, T.R)
        tf = z3.Function(f"t{k}", T.I, T.I, T.I)
        c.forall(f"mean of the {k} nodes", cen, lambda a, j, v: v * k == sum(
            (pf(a, tf(z3.IntVal(q), j)) for q in range(1, k)),
            pf(a, tf(z3.IntVal(0), j))))


def u_defaults(c):
    """from_defaults hands mesh data, radius and mask to the filter"""
    M = c.load(MOD)
    n, e = c.int("nodes", 1), c.int("elements", 1)
    p = c.array("p", (3, n))
    t = c.array("t", (4, e), kind="int",
                pred=lambda i, j, v: z3.And(v >= 0, v < n.t))
    mesh = Stub(p=p, t=t)
    vol, m = c.array("vol", e), c.array("mask", e, kind="bool")
    r = c.real("radius", lo_open=0)
    f = M.SpacialFilter.from_defaults(mesh, vol, r, design_mask=m)
    c.post("mask kept", z3.BoolVal(f.design_mask is m))
    c.post("radius kept", T.lift(f.radius) == r.t)
    r2 = c.real("radius2", lo_open=0)
    f.update_radius(r2)
    c.post("radius update", T.lift(f.radius) == r2.t)
    pf = z3.Function("p", T.I, T.I, T.R)
    tf = z3.Function("t", T.I, T.I, T.I)
    c.forall("centres of the mesh", f.element_centers,
             lambda a, j, v: v * 4 == sum(
                 (pf(a, tf(z3.IntVal(q), j)) for q in range(1, 4)),
                 pf(a, tf(z3.IntVal(0), j))))


UNITS = [Unit(PROP, "kernel_linear", u_linear),
         Unit(PROP, "kernel_quadratic", u_quadratic),
         Unit(PROP, "kernel_gaussian", u_gauss),
         Unit(PROP, "centers", u_centers),
         Unit(PROP, "defaults", u_defaults),
         Unit(PROP, "matrix", u_matrix),
         Unit(PROP, "matrix_volume", u_matrix_vol),
         Unit(PROP, "matrix_all", u_matrix_all),
         Unit(PROP, "constant", u_constant),
         Unit(PROP, "constant_all", u_constant_all),
         Unit(PROP, "forward", u_forward),
         Unit(PROP, "forward_all", u_forward_all),
         Unit(PROP, "gradient", u_gradient),
         Unit(PROP, "gradient_all", u_gradient_all)]


def reference(cen, mask, r):
    """dense filter matrix over the design elements"""
    import numpy as np
    ids = np.nonzero(mask)[0]
    D = np.linalg.norm(cen[:, ids][:, :, None] - cen[:, ids][:, None, :],
                       axis=0)
    s = r / 3
    K = np.exp(-.5 * (D / s) ** 2)
    inside = D <= 3 * s
    near = np.abs(D - 3 * s) < 1e-9 * (1 + r)
    return ids, K, inside, near


def r_filter(rt):
    import numpy as np
    from rt import toy
    F = rt.get(MOD, "SpacialFilter")
    for k in range(rt.n(60, 600)):
        g = rt.np_rng
        mesh, vol = toy.mesh(g)
        ne = mesh.t.shape[1]
        kind = g.choice(["none", "all", "some", "one"])
        mask = None if kind == "none" else np.ones(ne, bool)
        if kind == "some":
            mask = g.random(ne) < g.uniform(.2, .9)
            mask[g.integers(ne)] = True
        if kind == "one":
            mask[:] = False
            mask[g.integers(ne)] = True
        r0, r = g.uniform(.05, 3), g.uniform(.05, 4)
        x, v = g.uniform(0.01, 1, ne), g.normal(size=ne)
        const = float(g.uniform(0, 2))
        with rt.case("filter", mesh=type(mesh).__name__, nx=mesh.p.shape[1],
                     mask=mask, radius=r, x=x, v=v, const=const):
            f = F.from_defaults(mesh, vol, r0, design_mask=mask)
            f.forward(x)
            f.update_radius(r)
            x0, v0 = x.copy(), v.copy()
            y = f.forward(x)
            gr = f.gradient(v)
            rt.ok("inputs only read", np.array_equal(x, x0) and
                  np.array_equal(v, v0))
            mk = np.ones(ne, bool) if mask is None else mask
            cen = np.stack([mesh.p[:, mesh.t[:, e]].mean(1)
                            for e in range(ne)], 1)
            ids, K, inside, near = reference(cen, mk, r)
            if near.any():
                continue
            W = np.where(inside, K, 0)
            W /= W.sum(1, keepdims=True)
            ref = x.copy()
            ref[ids] = W @ x[ids]
            rt.close("forward is the kernel average", y, ref, 1e-9, 1e-12)
            rg = np.zeros(ne)
            rg[ids] = W.T @ v[ids]
            rt.close("gradient is the adjoint", gr, rg, 1e-9, 1e-12)
            yc = f.forward(np.full(ne, const))
            rt.close("constant preserved", yc, np.full(ne, const), 1e-9)
            rt.ok("range", y[ids].min() >= x[ids].min() - 1e-9 and
                  y[ids].max() <= x[ids].max() + 1e-9)
            rt.ok("outside untouched", np.array_equal(y[~mk], x[~mk]) and
                  not gr[~mk].any())


def r_matrix(rt):
    import numpy as np
    B = rt.get(MOD, "build_filter_matrix")
    MK = rt.get(MOD, "make_kernel")
    for k in range(rt.n(80, 800)):
        g = rt.np_rng
        n = int(g.integers(1, 14))
        cen = g.normal(size=(int(g.choice([2, 3])), n))
        if g.random() < .3:
            cen = np.round(cen)
        mask = g.random(n) < .7
        mask[g.integers(n)] = True
        vol = g.uniform(.2, 3, n)
        kind = str(g.choice(["linear", "quadratic", "gaussian"]))
        r = float(g.uniform(.1, 3))
        sig = None if g.random() < .5 else float(g.uniform(.1, 1.5))
        vc = bool(g.random() < .5)
        with rt.case("matrix", centers=cen, mask=mask, vol=vol, kind=kind,
                     radius=r, sigma=sig, volume_correction=vc):
            kern, sup = MK(kind, r, sig)
            want = r if kind != "gaussian" else 3 * (r / 3 if sig is None
                                                     else sig)
            rt.close("support", sup, want, 1e-12)
            W = B(cen, kern, sup, vol, vc, mask)
            ids = np.nonzero(mask)[0]
            D = np.linalg.norm(cen[:, ids][:, :, None]
                               - cen[:, ids][:, None, :], axis=0)
            if (np.abs(D - sup) < 1e-9).any():
                continue
            s = r / 3 if sig is None else sig
            K = {"linear": lambda d: np.maximum(0, r - d),
                 "quadratic": lambda d: np.where(d < r, 1 - (d / r) ** 2, 0),
                 "gaussian": lambda d: np.exp(-.5 * (d / s) ** 2)}[kind](D)
            K = np.where(D <= sup, K, 0)
            if vc:
                K = K * vol[ids][None, :]
            K /= K.sum(1, keepdims=True)
            rt.close("weights", np.asarray(W.todense()), K, 1e-9, 1e-12)


RUNTIME = [("filter", r_filter, 200), ("matrix", r_matrix, 200)]
