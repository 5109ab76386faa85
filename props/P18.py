"""Surface loads: each region receives its force, in its direction."""
import z3
from vpy import terms as T, loops, npshim
from vpy.engine import Sym, SymArray, dim_term, as_array, quiet, elementwise
from vpy.unit import Unit
from vpy.contracts import Stub

PROP = "P18"
TE = "sktopt.mesh.task_elastic"


class Form:
    asm = None

    def __init__(self, fn):
        self.fn = self.form = fn

    def assemble(self, *a, **k):
        return Form.asm(self, *a, **k)

    def __call__(self, *a):
        return self.fn(*a)


class LForm(Form):
    pass


class Integral(Form):
    pass


class Digits(str):
    """decimal digits whose value is symbolic"""
    def vpy_num(self, kind):
        return Sym(self.v)


class Direction(str):
    """'u^k' for an arbitrary component number k"""
    def __getitem__(self, i):
        if i == slice(2, None):
            d = Digits("1")
            d.v = self.v
            return d
        raise T.Unsupported("part of a direction")


def direction(v):
    d = Direction("u^1")
    d.v = v
    return d


class Facets:
    """contract of skfem's boundary integration: a functional integrates its
    value, entry d of an assembled linear form integrates the form of the
    d-th shape function; quadrature weights of a region are positive"""

    def __init__(self, c, basis, N, comp):
        self.c, self.basis, self.N, self.comp = c, basis, N, comp
        self.made = []

    def FacetBasis(self, mesh, elem, facets=None, **k):
        if k or facets is None:
            raise T.Unsupported("facet basis options")
        c = self.c
        c.post("integrated on this mesh with this element", z3.BoolVal(
            mesh is self.basis.mesh and elem is self.basis.elem))
        Q = c.fresh("points", T.I)
        c.assume(Q >= 1)
        w = c.fresh_fn("weight", T.I, T.R)
        phi = c.fresh_fn("shape", T.I, T.I, T.R)
        c.fact(lambda q: w(q) > 0, (Q,))
        b = Stub(facets=as_array(facets), Q=Q, w=w, phi=phi)
        self.made.append(b)
        return b

    def asm(self, form, b, *a, **k):
        if a or k or b not in self.made:
            raise T.Unsupported("assembly options")
        w = SymArray((b.Q,), lambda i: b.w(i[0]), "real")
        if isinstance(form, Integral):
            g = form(Stub())
            return npshim.np_sum(w * g)
        if not isinstance(form, LForm):
            raise T.Unsupported("kind of form")
        v = SymArray((3, self.N.t, b.Q), lambda i: self.shape(b, *i), "real")
        g = form(v, Stub())
        return npshim.np_sum(g * w, axis=1)

    def shape(self, b, i, d, q):
        """i-th component of the d-th vector shape function"""
        return z3.If(self.comp(d) == i, b.phi(d, q), z3.RealVal(0))

    def share(self, b, i, d):
        """integral of that component over the region"""
        with quiet():
            return npshim.sum_term(
                lambda q: self.shape(b, i, d, q) * b.w(q), b.Q)

    def area(self, b):
        with quiet():
            return npshim.sum_term(lambda q: b.w(q), b.Q)


def setting(c):
    M = c.load(TE)
    N = c.int("N", 1)
    basis = Stub(mesh=object(), elem=object(), N=N)
    comp = z3.Function("component", T.I, T.I)
    fem = Facets(c, basis, N, comp)
    c.patch(Form, "asm", fem.asm)
    c.patch(M, "skfem", Stub(Functional=Integral, LinearForm=LForm,
                             asm=fem.asm, FacetBasis=fem.FacetBasis))
    for n, v in (("FacetBasis", fem.FacetBasis), ("asm", fem.asm),
                 ("LinearForm", LForm)):
        c.patch(M, n, v)
    return M, basis, fem


def one(c, fem, F, b, facets, k, val, tag=""):
    """F is the load of this region: force times the region's share, along
    component k only"""
    c.post(f"{tag}one entry per degree of freedom",
           dim_term(F.dims[0]) == fem.N.t)
    bf, ff = b.facets, facets
    c.post(f"{tag}as many facets", dim_term(bf.dims[0]) ==
           dim_term(ff.dims[0]))
    j = c.fresh_idx(dim_term(ff.dims[0]), "j")
    c.post(f"{tag}these facets", c.val(bf, j) == c.val(ff, j))
    d = c.fresh_idx(fem.N, "d")
    v = c.val(F, d)
    c.post(f"{tag}force times share of the region",
           v * fem.area(b) == val * fem.share(b, k, d))
    c.post(f"{tag}no force in other directions",
           z3.Implies(fem.comp(d) != k, v == 0))


def single(c):
    """one region: total force, direction, facets"""
    M, basis, fem = setting(c)
    n = c.int("n", 1)
    fac = c.array("facets", n, kind="int", lo=0)
    k = c.int("k", 1, 3)
    val = c.real("force")
    F = M.assemble_surface_forces(basis, fac, direction(k.t), val)
    one(c, fem, F, fem.made[0], fac, k.t - 1, val.t)
    c.reach("end")


def regions(c, n=None, name=""):
    """list of n regions, each with its own facets, direction, force"""
    n = n if n is not None else c.int(f"{name}regions", 0)
    m = z3.Function(f"{name}n_facets", T.I, T.I)
    f = z3.Function(f"{name}facet", T.I, T.I, T.I)
    k = z3.Function(f"{name}direction", T.I, T.I)
    v = z3.Function(f"{name}force", T.I, T.R)
    c.fact(lambda i: m(i) >= 1, (n.t,))
    c.fact(lambda i: z3.And(k(i) >= 1, k(i) <= 3), (n.t,))

    def facets(i):
        return SymArray((m(i),), lambda j: f(i, j[0]), "int")
    return n, facets, k, v


def many(c):
    """any number of regions: the i-th load is that of the i-th region; lists
    of different length are refused"""
    M, basis, fem = setting(c)
    n, facets, k, v = regions(c)
    fem.kg = lambda q: k(q) - 1
    n2, n3 = c.int("directions", 0), c.int("forces", 0)
    c.assume(n.t >= 1)
    refused = False
    try:
        r = M.assemble_surface_forces(
            basis, loops.Seq(n.t, facets),
            loops.Seq(n2.t, lambda i: direction(k(i))),
            loops.Seq(n3.t, lambda i: Sym(v(i))))
    except ValueError:
        refused = True
    if refused:
        c.post("only lists of different length are refused",
               z3.Or(n.t != n2.t, n.t != n3.t))
        c.reach("refused")
        return
    c.post("lists of different length are refused",
           z3.And(n.t == n2.t, n.t == n3.t))
    if isinstance(r, SymArray):
        c.post("a bare vector only for one region", n.t == 1)
        i = z3.IntVal(0)
        F = r
    else:
        c.post("one vector per region", z3.And(n.t > 1,
               loops.seq_len(r) == n.t))
        i = c.fresh_idx(n, "i")
        F = r.at(i)
    c.note_idx(i)
    fam = c.ghost["families"][-1]
    one(c, Generic(fem, fam, i), F, loops.at_iteration(
        Region(fem.made[0]), fam, i).b, facets(i), k(i) - 1, v(i))
    c.reach("end")


class Generic:
    """integrals over the i-th region"""
    def __init__(self, fem, fam, i):
        self.N, self.comp, self.g = fem.N, fem.comp, fem.made[0]
        self.fem, self.fam, self.i = fem, fam, i

    def at(self, fn):
        k = self.fam.k
        return z3.substitute(self.fam.under(fn), (k, self.i))

    def area(self, b):
        return self.at(lambda: self.fem.area(self.g))

    def share(self, b, comp, d):
        return self.at(lambda: self.fem.share(
            self.g, self.fem.kg(self.fam.k), d))


class Region:
    """facet basis of the generic region, for region i"""
    def __init__(self, b):
        self.b = b

    def vpy_at(self, fam, kk):
        return Region(Stub(facets=loops.at_iteration(
            self.b.facets, fam, kk)))


def bad_direction(c):
    """anything but 'u^1', 'u^2', ... is refused before any load is made"""
    M, basis, fem = setting(c)
    fac = c.array("facets", 1, kind="int", lo=0)
    for d in ("", "u", "u^", "u^0", "x^1", "u^1.5", "u^-1", "all", "v^2",
              None, 1, ("u^1",)):
        try:
            M.assemble_surface_forces(basis, fac, d, 1.0)
            c.post(f"direction {d!r} refused", z3.BoolVal(False))
        except ValueError:
            pass
        try:
            M.assemble_surface_forces(basis, [fac, fac], ["u^1", d],
                                      [1.0, 2.0])
            c.post(f"direction {d!r} refused in a list", z3.BoolVal(False))
        except ValueError:
            pass
    c.reach("end")


def task(c, many):
    """a task holds one load vector per region, assembled from the facets,
    directions and forces it was given; the other fields are the domain's"""
    import dataclasses
    M = c.load(TE)
    names = [f.name for f in dataclasses.fields(M.FEMDomain)]
    base = Stub(**{n: object() for n in names})
    args, loads = {}, {}

    class Domain:
        @staticmethod
        def from_facets(*a, **k):
            args.update(zip(order, a))
            args.update(k)
            return base
    import inspect
    order = list(inspect.signature(M.FEMDomain.from_facets).parameters)
    c.patch(M, "FEMDomain", Domain)
    v = z3.Function("load", T.I, T.I, T.R)
    N, n = c.int("N", 1), c.int("regions", 2)

    def vec(i):
        return SymArray((N.t,), lambda d: v(i, d[0]), "real")
    made = [vec(z3.IntVal(0))] if not many else None

    def assemble(basis, force_facets_ids=None, force_dir_type=None,
                 force_value=None):
        loads.update(basis=basis, facets=force_facets_ids,
                     dirs=force_dir_type, vals=force_value)
        return made[0] if not many else loops.Seq(n.t, vec)
    assemble.vpy_contract = True
    c.patch(M, "assemble_surface_forces", assemble)
    given = {k: object() for k in (
        "basis", "dirichlet_facets_ids", "dirichlet_dir", "force_facets_ids",
        "force_dir_type", "force_value", "design_elements")}
    E, nu = c.real("E", lo_open=0), c.real("nu")
    t = M.LinearElasticity.from_facets(E=E, nu=nu, **given)
    for k, src in (("basis", "basis"),
                   ("dirichlet_facets_ids", "dirichlet_facets_ids"),
                   ("dirichlet_dir", "dirichlet_dir"),
                   ("neumann_facets_ids", "force_facets_ids"),
                   ("neumann_dir_type", "force_dir_type"),
                   ("neumann_values", "force_value"),
                   ("design_elements", "design_elements")):
        c.post(f"{src} reaches the domain", z3.BoolVal(
            args.get(k) is given[src]))
    for k in ("dirichlet_values", "robin_facets_ids", "robin_coefficient",
              "robin_bc_value", "design_robin_boundary"):
        c.post(f"no {k}", z3.BoolVal(args.get(k) is None))
    c.post("loads on the domain's basis", z3.BoolVal(
        loads["basis"] is base.basis))
    c.post("loads on the given facets", z3.BoolVal(
        loads["facets"] is given["force_facets_ids"]))
    c.post("loads in the domain's directions", z3.BoolVal(
        loads["dirs"] is base.neumann_dir_type))
    c.post("loads of the domain's forces", z3.BoolVal(
        loads["vals"] is base.neumann_values))
    for f in names:
        c.post(f"{f} of the domain", z3.BoolVal(
            getattr(t, f) is getattr(base, f)))
    c.post("modulus", T.lift(t.E) == E.t)
    c.post("Poisson ratio", T.lift(t.nu) == nu.t)
    c.post("material coefficient", T.lift(t.material_coef) == E.t)
    ls = t.neumann_linear
    c.post("a list of loads", z3.BoolVal(isinstance(ls, list)))
    if many:
        c.post("one load per region", loops.seq_len(ls) == n.t)
        i, d = c.fresh_idx(n), c.fresh_idx(N)
        c.post("the i-th load", c.val(ls.at(i), d) == v(i, d))
        r = T.lift(t.n_tasks)
        c.post("number of load cases", r == n.t)
        f = t.force
        c.post("force lists all loads", z3.BoolVal(f is ls))
    else:
        c.post("one load", z3.BoolVal(len(ls) == 1 and ls[0] is made[0]))
        c.post("number of load cases", z3.BoolVal(t.n_tasks == 1))
        c.post("force is the load", z3.BoolVal(t.force is made[0]))
    c.reach("end")


UNITS = [
    Unit(PROP, "one_region", single),
    Unit(PROP, "many_regions", many),
    Unit(PROP, "bad_direction", bad_direction),
    Unit(PROP, "task_one", lambda c: task(c, False), doc=task.__doc__),
    Unit(PROP, "task_many", lambda c: task(c, True), doc=task.__doc__),
]


# -- real meshes --------------------------------------------------------------
def r_loads(rt):
    """assembled load vectors on real meshes: resultant, direction, support,
    distribution over the region"""
    import numpy as np
    import skfem
    from rt import toy
    f = rt.get(TE, "assemble_surface_forces")
    UT = "sktopt.mesh.utils"
    for q in range(rt.n(60, 500)):
        g = rt.np_rng
        m, _ = toy.mesh(g, nmax=3)
        if isinstance(m, skfem.MeshTet):
            m = skfem.MeshTet(m.p, rt.get(
                UT, "fix_elements_orientation")(m), sort_t=False)
        s = 10. ** g.uniform(-2, 3)
        m = type(m)(m.p * s, m.t, sort_t=False) if isinstance(
            m, skfem.MeshTet) else type(m)(m.p * s, m.t)
        hexa = isinstance(m, skfem.MeshHex)
        el = skfem.ElementVector(skfem.ElementHex1() if hexa
                                 else skfem.ElementTetP1())
        basis = skfem.Basis(m, el)
        bf = m.boundary_facets()
        n = int(g.integers(1, 5))
        regs = [np.sort(g.choice(bf, int(g.integers(1, len(bf) + 1)),
                                 replace=False)) for _ in range(n)]
        ks = [int(g.integers(1, 4)) for _ in range(n)]
        vals = [float(g.normal() * 10.0 ** g.integers(-3, 4))
                for _ in range(n)]
        one = n == 1 and bool(g.integers(2))
        with rt.case("loads", p=m.p, t=m.t, facets=regs, dirs=ks,
                     vals=vals, hexa=hexa, as_list=not one):
            r = f(basis, regs[0], f"u^{ks[0]}", vals[0]) if one else f(
                basis, regs, [f"u^{k}" for k in ks], vals)
            if n == 1:
                rt.ok("a bare vector for one region",
                      isinstance(r, np.ndarray) and r.ndim == 1)
                r = [r]
            rt.ok("one load per region", len(r) == n)
            for F, reg, k, v in zip(r, regs, ks, vals):
                tot = [float(F[basis.nodal_dofs[i]].sum())
                       for i in range(3)]
                want = [v if i == k - 1 else 0. for i in range(3)]
                rt.ok("resultant", all(
                    abs(a - b) <= 1e-9 * abs(v) for a, b in
                    zip(tot, want)), f"{tot} {want}")
                nodes = np.unique(m.facets[:, reg])
                out = np.setdiff1d(np.arange(m.p.shape[1]), nodes)
                rt.ok("no force off the region",
                      bool(np.all(np.abs(F[basis.nodal_dofs[:, out]])
                                  <= 1e-12 * abs(v))))
                on = F[basis.nodal_dofs[k - 1, nodes]] * np.sign(v)
                rt.ok("every node of the region is pushed",
                      bool(np.all(on > 0)))
                if not hexa:
                    # P1: a third of each facet's area per node
                    P = m.p[:, m.facets[:, reg]]
                    ar = .5 * np.linalg.norm(np.cross(
                        (P[:, 1] - P[:, 0]).T, (P[:, 2] - P[:, 0]).T),
                        axis=1)
                    w = np.zeros(m.p.shape[1])
                    np.add.at(w, m.facets[:, reg].ravel(),
                              np.tile(ar / 3, 3))
                    want = v * w / ar.sum()
                    rt.ok("constant traction", np.allclose(
                        F[basis.nodal_dofs[k - 1]], want, rtol=1e-9,
                        atol=1e-12 * abs(v)))
            for nm, k in (("one", [4]), ("last", ks[:-1] + [9])):
                try:
                    f(basis, regs[0] if nm == "one" else regs,
                      f"u^{k[0]}" if nm == "one" else [
                          f"u^{x}" for x in k],
                      vals[0] if nm == "one" else vals)
                    rt.ok("a fourth component is refused", False)
                except (ValueError, IndexError):
                    rt.ok("a fourth component is refused", True)
            bad = [ks[0]] * (n + 1)
            try:
                f(basis, regs, [f"u^{k}" for k in bad], vals)
                rt.ok("different lengths are refused", False)
            except ValueError:
                rt.ok("different lengths are refused", True)


RUNTIME = [("loads", r_loads, 120)]
