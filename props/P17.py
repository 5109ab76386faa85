"""Task construction: which elements are designed, fixed, loaded, free."""
import inspect
import z3
from vpy import terms as T
from vpy.engine import Sym, SymArray, dim_term, as_array, quiet
from vpy.npshim import index_info, make_index_array, _mem_of
from vpy.unit import Unit
from vpy.contracts import Stub

PROP = "P17"
TC, UT = "sktopt.mesh.task_common", "sktopt.mesh.utils"
TE, TH = "sktopt.mesh.task_elastic", "sktopt.mesh.task_heat"


# -- contracts of skfem objects ----------------------------------------------
def basis_of(c, vector, nodes=4):
    """arbitrary mesh and nodal basis; `dofs` says which node and component
    a degree of freedom belongs to (skfem contract)"""
    E, P = c.int("elements", 1), c.int("nodes", 1)
    comps = 3 if vector else 1
    c.ghost["quantified"] = 4000
    t = c.array("t", (nodes, E), kind="int", lo=0,
                pred=lambda a, e, v: v < P.t)
    N = Sym(P.t * comps)
    node = z3.Function("node_of", T.I, T.I)
    comp = z3.Function("comp_of", T.I, T.I)
    tf = t.snap()
    ed = c.array("element_dofs", (nodes * comps, E), kind="int", lo=0,
                 pred=lambda r, e, v: z3.And(
                     v < N.t, node(v) == tf((r / comps, e)),
                     comp(v) == r % comps))

    def get_dofs(nodes=None, **k):
        m = _mem_of(as_array(nodes))

        def sel(cc):
            return make_index_array(
                "dofs", N, mem=lambda d: z3.And(
                    d >= 0, d < N.t, m(node(d)),
                    *([comp(d) == cc] if cc is not None else [])))
        return Stub(all=lambda *a: sel(None), N=None, nodal={
            f"u^{i + 1}": sel(i) for i in range(comps)} if vector
            else {"u": sel(0)})
    b = Stub(mesh=Stub(t=t, nelements=E, nvertices=P, p=c.array(
        "p", (3, P))), N=N, element_dofs=ed, get_dofs=get_dofs)
    g = Stub(E=E, P=P, N=N, t=tf, ed=ed.snap(), node=node, comp=comp,
             rows=nodes * comps, nodes=nodes)
    return b, g


def ids(c, name, n, N):
    """any list of valid numbers, repetitions allowed"""
    return c.array(name, n, kind="int", lo=0, pred=lambda j, v: v < N.t)


def touches(g, e, mem):
    """element e has a node in the set"""
    return z3.Or(*[mem(g.t((z3.IntVal(a), e))) for a in range(g.nodes)])


def lookup_contract(c, g, calls=None):
    """get_elements_by_nodes as proved by the lookup units"""
    def f(mesh, nodes):
        arrs = nodes if isinstance(nodes, (list, tuple)) else [nodes]
        ms = [_mem_of(as_array(a)) for a in arrs]

        def mem(e):
            e = c.note_idx(e)
            return z3.And(e >= 0, e < g.E.t, touches(
                g, e, lambda x: z3.Or(*[m(x) for m in ms])))
        return make_index_array("touched", g.E, mem=mem)
    f.vpy_contract = True
    return f


def same(c, name, arr, want, N):
    """the integer array holds exactly the k < N with want(k)"""
    arr = as_array(arr)
    info = index_info(arr)
    c.forall(f"{name}: only such", arr, lambda j, v: z3.And(
        T.to_int(v) >= 0, T.to_int(v) < N.t, want(T.to_int(v)))
        if not T.is_int(v) else z3.And(v >= 0, v < N.t, want(v)))
    n0 = len(c.pc)
    k = c.fresh_idx(N.t, "m")
    with quiet():
        w = want(k)
        m = info.mem(k)
    c.oblige(f"{name}: all such", z3.Implies(w, m), kind="post")
    del c.pc[n0:]


def lookup(c, many):
    """exactly the elements with at least one of the nodes, each once, in
    order; nothing else is read or changed"""
    U = c.load(UT)
    b, g = basis_of(c, False)
    n1, n2 = c.int("n1", 1), c.int("n2", 1)
    a = ids(c, "a", n1, g.P)
    d = ids(c, "d", n2, g.P)
    ma, md = index_info(a).mem, index_info(d).mem
    r = U.get_elements_by_nodes(b.mesh, [a, d] if many else a)
    want = (lambda x: z3.Or(ma(x), md(x))) if many else ma
    same(c, "touched elements", r, lambda e: touches(g, e, want), g.E)
    f = r.snap()
    i, j = c.fresh_idx(dim_term(r.dims[0])), c.fresh_idx(dim_term(r.dims[0]))
    c.oblige("sorted, no repetition", z3.Implies(
        i < j, f((i,)) < f((j,))), kind="post")
    c.reach("end")


def difference(c, mod):
    """the members of a that are not in b, in a's order"""
    M = c.load(mod)
    N = c.int("N", 1)
    n1, n2 = c.int("n1", 0), c.int("n2", 0)
    a, b = ids(c, "a", n1, N), ids(c, "b", n2, N)
    ma, mb = index_info(a).mem, index_info(b).mem
    af = a.snap()
    r = M.setdiff1d(a, b)
    same(c, "difference", r, lambda k: z3.And(ma(k), z3.Not(mb(k))), N)
    c.forall("a only read", a, lambda i, v: v == af((i,)))
    c.reach("end")


def partition(c, dirichlet, neumann, robin=None, design_robin=None,
              vector=True):
    """design = requested minus loaded (minus Robin unless designed); fixed =
    the rest; free dofs and elements; refused exactly when nothing is left"""
    M = c.load(TC)
    b, g = basis_of(c, vector)
    c.patch(M, "utils", Stub(get_elements_by_nodes=lookup_contract(c, g)))
    vol = c.array("vol", g.E, lo_open=0)
    c.patch(M, "composer", Stub(
        get_elements_volume=lambda m: vol if m is b.mesh else None))
    nd = c.int("n_design", 0)
    design = ids(c, "design", nd, g.E)
    md = index_info(design).mem
    none = lambda k: z3.BoolVal(False)
    # Dirichlet
    d_nodes = d_dir = d_val = None
    dm = []
    comps = {"all": None, "u^1": 0, "u^2": 1, "u^3": 2}
    if dirichlet is not None:
        lst = isinstance(dirichlet, (list, tuple))
        dirs = dirichlet if lst else [dirichlet]
        d_nodes = []
        for q, s in enumerate(dirs):
            a = ids(c, f"dirichlet{q}", c.int(f"n_d{q}", 1), g.P)
            d_nodes.append(a)
            dm.append((index_info(a).mem, comps[s] if vector else None))
        if vector:
            d_dir = list(dirs) if lst else dirichlet
            d_val = None
        else:
            d_val = [300.0 + q for q in range(len(dirs))] if lst else 300.0
        if not lst:
            d_nodes = d_nodes[0]
    # Neumann, Robin
    def region(kind, name):
        if kind is None:
            return None, none
        arrs = [ids(c, f"{name}{q}", c.int(f"n_{name}{q}", 1), g.P)
                for q in range(2 if kind == "list" else 1)]
        ms = [index_info(a).mem for a in arrs]
        return (arrs if kind == "list" else arrs[0]), \
            (lambda x: z3.Or(*[m(x) for m in ms]))
    n_nodes, mn = region(neumann, "neumann")
    r_nodes, mr = region(robin, "robin")
    refused = False
    kw = dict(
        basis=b, dirichlet_nodes=d_nodes, dirichlet_dir=d_dir,
        dirichlet_values=d_val, neumann_nodes=n_nodes,
        neumann_dir_type="u^3" if n_nodes is not None else None,
        neumann_values=1.0 if n_nodes is not None else None,
        robin_facets_ids=r_nodes, robin_nodes=r_nodes,
        robin_coefficient=2.0 if r_nodes is not None else None,
        robin_bc_value=3.0 if r_nodes is not None else None,
        design_robin_boundary=design_robin, design_elements=design)
    try:
        task = M.FEMDomain.from_nodes(**kw)
    except ValueError:
        refused = True

    def loaded(e):
        return z3.And(e >= 0, e < g.E.t, touches(g, e, mn))

    def robin_el(e):
        return z3.And(e >= 0, e < g.E.t, touches(g, e, mr))

    def excluded(e):
        return z3.Or(loaded(e), robin_el(e)) if design_robin is False \
            else loaded(e)

    def want(e):
        return z3.And(md(e), z3.Not(excluded(e)))
    if refused:
        k = c.fresh_idx(g.E.t, "m")
        bad = [z3.Not(want(k))]
        for on, el in ((n_nodes, loaded), (r_nodes, robin_el)):
            if on is not None:
                bad.append(z3.Not(el(c.fresh_idx(g.E.t, "m"))))
        c.oblige("refused only when nothing is left to design",
                 z3.Or(*bad), kind="post")
        c.reach("refused")
        return
    same(c, "design", task.design_elements, want, g.E)
    same(c, "all", task.all_elements, lambda e: z3.BoolVal(True), g.E)
    same(c, "fixed", task.fixed_elements,
         lambda e: z3.Not(want(e)), g.E)
    c.post("something to design", dim_term(
        as_array(task.design_elements).dims[0]) >= 1)

    def constrained(e):
        return touches(g, e, lambda x: z3.Or(
            *[m(x) for m, _ in dm])) if dm else z3.BoolVal(False)
    same(c, "constrained or loaded", task.dirichlet_neumann_elements,
         lambda e: z3.Or(constrained(e), loaded(e)), g.E)
    if dm:
        same(c, "constrained", task.dirichlet_elements, constrained, g.E)
    if n_nodes is not None:
        same(c, "loaded", task.neumann_elements, loaded, g.E)
    if r_nodes is not None:
        same(c, "robin", task.robin_elements, robin_el, g.E)

    def fixed_dof(d):
        c.note_idx(g.node(d))
        return z3.Or(*[z3.And(m(g.node(d)), g.comp(d) == cc)
                       if cc is not None else m(g.node(d))
                       for m, cc in dm]) if dm else z3.BoolVal(False)
    if dm:
        same(c, "constrained dofs", task.dirichlet_dofs, fixed_dof, g.N)
    same(c, "free dofs", task.free_dofs,
         lambda d: z3.Not(fixed_dof(d)), g.N)
    same(c, "elements with a free dof", task.free_elements,
         lambda e: z3.Or(*[z3.Not(fixed_dof(g.ed((z3.IntVal(r), e))))
                           for r in range(g.rows)]), g.E)
    for n in ("dirichlet_nodes", "dirichlet_values", "neumann_nodes",
              "neumann_dir_type", "neumann_values", "robin_facets_ids",
              "robin_nodes", "robin_coefficient", "robin_bc_value",
              "design_robin_boundary", "basis"):
        got = getattr(task, n)
        c.post(f"{n} kept", z3.BoolVal(got is kw[n] or (
            not isinstance(got, SymArray) and got == kw[n])))
    c.post("volumes of this mesh", z3.BoolVal(task.elements_volume is vol))
    c.reach("end")


def facets(c, kinds):
    """from_facets hands from_nodes the nodes of each region's facets, all
    other arguments as given"""
    M = c.load(TC)
    E, P, F = c.int("elements", 1), c.int("nodes", 1), c.int("facets", 1)
    fc = c.array("facets", (3, F), kind="int", lo=0,
                 pred=lambda a, i, v: v < P.t)
    ff = fc.snap()
    c.ghost["quantified"] = 4000
    basis = Stub(mesh=Stub(facets=fc, nelements=E))
    got = {}
    sig = inspect.signature(M.FEMDomain.from_nodes)

    class Cap(M.FEMDomain):
        vpy_contract = True

        @classmethod
        def from_nodes(cls, *a, **k):
            b = sig.bind(*a, **k)
            got.update(b.arguments)
            return "task"

    def region(kind, name):
        """-> argument, [(ids array, membership)]"""
        if kind is None:
            return None, []
        arrs = [ids(c, f"{name}{q}", c.int(f"n_{name}{q}", 1), F)
                for q in range(2 if kind == "list" else 1)]
        return (arrs if kind == "list" else arrs[0]), arrs
    d, da = region(kinds[0], "dirichlet")
    n, na = region(kinds[1], "neumann")
    r, ra = region(kinds[2], "robin")
    design = ids(c, "design", c.int("n_design", 1), E)
    given = dict(
        basis=basis, dirichlet_dir=object(), dirichlet_values=object(),
        neumann_dir_type=object(), neumann_values=object(),
        robin_coefficient=object(), robin_bc_value=object(),
        design_robin_boundary=object(), design_elements=design)
    out = Cap.from_facets(dirichlet_facets_ids=d, neumann_facets_ids=n,
                          robin_facets_ids=r, **given)
    c.post("the task from_nodes builds", z3.BoolVal(out == "task"))
    absent = []
    if n is None:
        absent += ["neumann_dir_type", "neumann_values"]
    if r is None:
        absent += ["robin_coefficient", "robin_bc_value",
                   "design_robin_boundary"]
    for k, v in given.items():
        want = None if k in absent else v
        c.post(f"{k} forwarded", z3.BoolVal(got.get(k) is want))
    c.post("Robin facets forwarded", z3.BoolVal(
        got.get("robin_facets_ids") is r))

    def nodes_of(name, arr, arrs):
        """exactly the nodes of those facets"""
        arr = as_array(arr)
        n0 = len(c.pc)
        ff_ = [a.snap() for a in arrs]
        mem = index_info(arr).mem
        for q, (a, af) in enumerate(zip(arrs, ff_)):
            j = c.fresh_idx(dim_term(a.dims[0]), "j")
            for k in range(3):
                c.oblige(f"{name}: every node of every facet", mem(
                    ff((z3.IntVal(k), af((j,))))), kind="post")
        x = z3.Function(f"node_{name}", T.I, z3.BoolSort())
        for a, af in zip(arrs, ff_):
            for k in range(3):
                c.fact(lambda j, af=af, k=k: x(ff((z3.IntVal(k), af((j,))))),
                       (dim_term(a.dims[0]),))
        # x: any set containing all these nodes contains the result
        c.forall(f"{name}: no other node", arr, lambda j, v: x(v))
        del c.pc[n0:]
    if d is None:
        c.post("no Dirichlet nodes", z3.BoolVal(
            got["dirichlet_nodes"] is None))
    elif kinds[0] == "list":
        c.post("one node list per region", z3.BoolVal(
            isinstance(got["dirichlet_nodes"], list)
            and len(got["dirichlet_nodes"]) == len(da)))
        for q, a in enumerate(da):
            nodes_of(f"dirichlet{q}", got["dirichlet_nodes"][q], [a])
    else:
        nodes_of("dirichlet", got["dirichlet_nodes"], da)
    for name, v, arrs in (("neumann", n, na), ("robin", r, ra)):
        if v is None:
            c.post(f"no {name} nodes", z3.BoolVal(
                got[f"{name}_nodes"] is None))
        else:
            g = got[f"{name}_nodes"]
            g = g if not isinstance(g, list) else g
            if isinstance(g, list):
                from vpy import npshim
                g = npshim.concatenate(g)
            nodes_of(name, g, arrs)
    c.reach("end")


def forwarded(c, kind):
    """the elasticity and heat tasks carry the fields of the general task
    under the same names, plus their own material and load data"""
    M = c.load(TE if kind == "elastic" else TH)
    fields = {n: object() for n in c.load(TC).FEMDomain.__dataclass_fields__}
    basis = object()
    fields["basis"] = basis
    base = Stub(**fields)
    seen = {}
    sig = inspect.signature(M.FEMDomain.from_facets)

    class Fake:
        vpy_contract = True

        @staticmethod
        def from_facets(*a, **k):
            seen.update(sig.bind(*a, **k).arguments)
            return base
    c.patch(M, "FEMDomain", Fake)
    args = dict(basis=basis, design_elements=object())
    if kind == "elastic":
        loads = [c.array("F1", c.int("N", 1)), c.array("F2", c.int("N", 1))]
        ret = loads if c.choose("several") else [loads[0]]
        said = {}

        def forces(*a, **k):
            said.update(inspect.signature(real).bind(*a, **k).arguments)
            return list(ret)
        real = M.assemble_surface_forces
        forces.vpy_contract = True
        c.patch(M, "assemble_surface_forces", forces)
        args.update(dirichlet_facets_ids=object(), dirichlet_dir=object(),
                    force_facets_ids=object(), force_dir_type=object(),
                    force_value=object())
        t = M.LinearElasticity.from_facets(E=210.0, nu=0.3, **args)
        want = dict(args)
        for a, b in (("force_facets_ids", "neumann_facets_ids"),
                     ("force_dir_type", "neumann_dir_type"),
                     ("force_value", "neumann_values")):
            want[b] = want.pop(a)
        c.post("loads on the loaded facets of this mesh", z3.BoolVal(
            said.get("basis") is basis
            and said.get("force_facets_ids") is args["force_facets_ids"]
            and said.get("force_dir_type") is base.neumann_dir_type
            and said.get("force_value") is base.neumann_values))
        c.post("material and loads", z3.BoolVal(
            t.E == 210.0 and t.nu == 0.3
            and t.material_coef == 210.0 and t.n_tasks == len(ret)
            and len(t.neumann_linear) == len(ret) and all(
                x is y for x, y in zip(t.neumann_linear, ret))))
    else:
        said = {}

        def robin(*a, **k):
            said.update(inspect.signature(real).bind(*a, **k).arguments)
            return ["B"], ["L"]
        real = M.assemble_surface_robin
        robin.vpy_contract = True
        c.patch(M, "assemble_surface_robin", robin)
        has = c.choose("robin")
        args.update(dirichlet_facets_ids=object(), dirichlet_values=object(),
                    robin_facets_ids=object() if has else None,
                    robin_coefficient=object(), robin_bc_value=object(),
                    design_robin_boundary=object())
        t = M.LinearHeatConduction.from_facets(
            k=10.0, objective="averaged_temp", avg_temp_weight=0.5, **args)
        want = dict(args, neumann_facets_ids=None)
        c.post("Robin terms of the Robin facets", z3.BoolVal(
            not has and not said and t.robin_bilinear is None
            and t.robin_linear is None
            or has and said.get("basis") is basis
            and said.get("robin_facets_ids") is args["robin_facets_ids"]
            and said.get("robin_coefficient") is base.robin_coefficient
            and said.get("robin_bc_value") is base.robin_bc_value
            and said.get("rho") is None
            and t.robin_bilinear == ["B"] and t.robin_linear == ["L"]))
        c.post("material and objective", z3.BoolVal(
            t.k == 10.0 and t.material_coef == 10.0
            and t.objective == "averaged_temp" and t.avg_temp_weight == 0.5))
    for k, v in want.items():
        c.post(f"{k} handed over", z3.BoolVal(seen.get(k) is v))
    for k, v in fields.items():
        c.post(f"{k} carried over", z3.BoolVal(getattr(t, k) is v))


def narrowing(c):
    """excluding the Dirichlet region removes exactly its elements from the
    design; the mask tells the design elements from the rest"""
    M = c.load(TC)
    c.ghost["quantified"] = 4000
    E = c.int("elements", 1)
    de = make_index_array("design", E)
    di = ids(c, "dirichlet", c.int("nd", 0), E)
    alle = make_index_array("all", E, mem=lambda k: z3.And(
        k >= 0, k < E.t), n=E)
    fixed = object()
    t = object.__new__(M.FEMDomain)
    t.__dict__.update(design_elements=de, dirichlet_elements=di,
                      all_elements=alle, fixed_elements=fixed)
    m0, m1 = index_info(de).mem, index_info(di).mem
    ef = alle.snap()
    mask = t.design_mask
    c.post("one mask entry per element",
           dim_term(as_array(mask).dims[0]) == E.t)
    c.forall("mask", mask, lambda k, v: v == m0(ef((k,))))
    t.exlude_dirichlet_from_design()
    same(c, "design without the Dirichlet region", t.design_elements,
         lambda k: z3.And(m0(k), z3.Not(m1(k))), E)
    c.post("nothing else changes", z3.BoolVal(
        t.dirichlet_elements is di and t.all_elements is alle
        and t.fixed_elements is fixed))


def exported(c, kinds):
    """the exported picture: node colour per boundary kind, element label
    design / fixed / free, on the mesh itself"""
    import meshio
    import skfem
    M = c.load(TC)
    c.ghost["quantified"] = 4000
    E, P = c.int("elements", 1), c.int("nodes", 1)
    mesh = object.__new__(skfem.MeshTet)
    pt = c.array("p", (3, P))
    tt = c.array("t", (4, E), kind="int", lo=0, pred=lambda a, e, v: v < P.t)
    object.__setattr__(mesh, "doflocs", pt)
    object.__setattr__(mesh, "t", tt)

    def region(kind, name):
        if kind is None:
            return None, lambda x: z3.BoolVal(False)
        arrs = [ids(c, f"{name}{q}", c.int(f"n_{name}{q}", 1), P)
                for q in range(2 if kind == "list" else 1)]
        ms = [index_info(a).mem for a in arrs]
        return (arrs if kind == "list" else arrs[0]), \
            (lambda x: z3.Or(*[m(x) for m in ms]))
    n, mn = region(kinds[0], "neumann")
    d, md = region(kinds[1], "dirichlet")
    r, mr = region(kinds[2], "robin")
    sets = {k: make_index_array(k, E) for k in ("design", "fixed", "free")}
    de, fi, fr = (index_info(sets[k]).mem for k in
                  ("design", "fixed", "free"))
    t = object.__new__(M.FEMDomain)
    t.__dict__.update(basis=Stub(mesh=mesh), neumann_nodes=n,
                      dirichlet_nodes=d, robin_nodes=r,
                      design_elements=sets["design"],
                      fixed_elements=sets["fixed"],
                      free_elements=sets["free"])
    got = {}

    class FakeMesh:
        vpy_contract = True

        def __init__(self, points, cells, point_data=None, cell_data=None,
                     **k):
            got.update(points=points, cells=cells, point_data=point_data,
                       cell_data=cell_data)

        def write(self, path, *a, **k):
            got["path"] = str(path)
    real = meshio.Mesh
    meshio.Mesh = FakeMesh
    try:
        t.export_analysis_condition_on_mesh("/nowhere")
    finally:
        meshio.Mesh = real
    c.post("written to the folder", z3.BoolVal(
        got.get("path", "").startswith("/nowhere/")))
    [(ct, cells)] = got["cells"]
    c.post("cell type", z3.BoolVal(ct == "tetra"))
    pf, tf = pt.snap(), tt.snap()
    c.forall("points of the mesh", got["points"],
             lambda i, k, v: v == pf((k, i)))
    c.forall("cells of the mesh", cells, lambda e, a, v: v == tf((a, e)))
    col = got["point_data"]["node_color"]
    c.post("a colour per node", dim_term(as_array(col).dims[0]) == P.t)
    c.forall("node colours", col, lambda x, v: v == z3.If(
        mr(x), 3, z3.If(md(x), 2, z3.If(mn(x), 1, 0))))
    [lab] = got["cell_data"]["condition"]
    c.post("a label per element", dim_term(as_array(lab).dims[0]) == E.t)
    c.forall("element labels", lab, lambda e, v: v == z3.If(
        de(e), 3, z3.If(fi(e), 2, z3.If(fr(e), 1, 0))))


UNITS = [
    Unit(PROP, "lookup_array", lambda c: lookup(c, False)),
    Unit(PROP, "lookup_list", lambda c: lookup(c, True)),
    Unit(PROP, "difference", lambda c: difference(c, TC)),
    Unit(PROP, "difference_heat", lambda c: difference(c, TH)),
    Unit(PROP, "elastic_all", lambda c: partition(c, "all", "array")),
    Unit(PROP, "elastic_roller", lambda c: partition(c, "u^2", "list")),
    Unit(PROP, "elastic_regions",
         lambda c: partition(c, ["u^1", "all"], "array")),
    Unit(PROP, "no_load", lambda c: partition(c, "all", None)),
    Unit(PROP, "heat_fixed_robin", lambda c: partition(
        c, [0, 1], None, "array", False, vector=False)),
    Unit(PROP, "heat_design_robin", lambda c: partition(
        c, [0, 1], None, "list", True, vector=False)),
    Unit(PROP, "facets_arrays", lambda c: facets(
        c, ("array", "array", None)), doc=facets.__doc__),
    Unit(PROP, "facets_lists", lambda c: facets(
        c, ("list", "list", None)), doc=facets.__doc__),
    Unit(PROP, "facets_heat", lambda c: facets(
        c, ("list", None, "list")), doc=facets.__doc__),
    Unit(PROP, "facets_heat_one", lambda c: facets(
        c, (None, None, "array")), doc=facets.__doc__),
    Unit(PROP, "elastic_fields", lambda c: forwarded(c, "elastic"),
         doc=forwarded.__doc__),
    Unit(PROP, "heat_fields", lambda c: forwarded(c, "heat"),
         doc=forwarded.__doc__),
    Unit(PROP, "narrowing", narrowing),
    Unit(PROP, "exported", lambda c: exported(c, ("array", "list", None)),
         doc=exported.__doc__),
    Unit(PROP, "exported_heat", lambda c: exported(
        c, (None, "array", "list")), doc=exported.__doc__),
    Unit(PROP, "heat_one_region", lambda c: partition(
        c, 0, None, "array", False, vector=False)),
    Unit(PROP, "no_dirichlet", lambda c: partition(c, None, "array")),
    Unit(PROP, "loaded_fixed_robin", lambda c: partition(
        c, 0, "array", "array", False, vector=False)),
    Unit(PROP, "loaded_fixed_robin_lists", lambda c: partition(
        c, [0, 1], "list", "list", False, vector=False)),
    Unit(PROP, "loaded_design_robin", lambda c: partition(
        c, 0, "array", "array", True, vector=False)),
    Unit(PROP, "facets_all", lambda c: facets(
        c, ("array", "list", "array")), doc=facets.__doc__),
    Unit(PROP, "elastic_robin", lambda c: partition(
        c, "all", "array", "array", False)),
]
for u in UNITS:
    if not u.doc:
        u.doc = (partition if "lookup" not in u.name else lookup).__doc__


# -- real meshes --------------------------------------------------------------
def sets(x):
    return sorted(int(v) for v in x)


def r_tasks(rt):
    """tasks built from facets or tags on real meshes against sets computed
    from the definitions"""
    import gc
    import numpy as np
    import skfem
    from rt import toy
    import contextlib
    import io

    def hush():
        return contextlib.redirect_stdout(io.StringIO())
    EL = rt.get(TE, "LinearElasticity")
    HT = rt.get(TH, "LinearHeatConduction")
    for q in range(rt.n(60, 500)):
        g = rt.np_rng
        m, _ = toy.mesh(g, nmax=3)
        if isinstance(m, skfem.MeshTet):
            m = skfem.MeshTet(m.p, rt.get(
                UT, "fix_elements_orientation")(m), sort_t=False)
        gc.collect()
        n = m.t.shape[1]
        heat = bool(g.integers(2))
        el = skfem.ElementHex1() if isinstance(m, skfem.MeshHex) \
            else skfem.ElementTetP1()
        tags = bool(g.integers(3) == 0)
        bf = m.boundary_facets()

        def some(k=None):
            return g.choice(bf, int(g.integers(1, min(4, len(bf)) + 1)),
                            replace=False)
        nd, nn = int(g.integers(1, 4)), int(g.integers(1, 3))
        D, F = [some() for _ in range(nd)], [some() for _ in range(nn)]
        dirs = [str(g.choice(["u^1", "u^2", "u^3", "all"])) for _ in D]
        design = np.sort(g.choice(n, int(g.integers(1, n + 1)),
                                  replace=False))
        dr = bool(g.integers(2))
        kind = "heat" if heat else "elastic"
        with rt.case("task", kind=kind, tags=tags, p=m.p, t=m.t, D=D, F=F,
                     dirs=dirs, design=design, design_robin=dr):
            if tags:
                # order of creation differs from the numbering
                names = {f"dirichlet_{9 + k if nd > 1 else ''}".rstrip("_"):
                         d for k, d in enumerate(D)}
                oth = "robin" if heat else "neumann"
                names.update({f"{oth}_{9 + k}" if nn > 1 else oth: f
                              for k, f in enumerate(F)})
                m = m.with_boundaries(
                    {k: names[k] for k in sorted(names, reverse=True)})
                m = m.with_subdomains({"design": design})
            one_d, one_f = nd == 1, nn == 1
            basis = skfem.Basis(m, el if heat else skfem.ElementVector(el))
            dn = [np.unique(m.facets[:, f]) for f in D]
            fn = np.unique(np.concatenate([m.facets[:, f].ravel()
                                           for f in F]))

            def touching(nodes):
                s = set(int(v) for v in np.ravel(nodes))
                return {e for e in range(n) if s & set(
                    int(v) for v in m.t[:, e])}
            loaded = touching(fn)
            want = [int(e) for e in design if int(e) not in loaded] \
                if not heat or not dr else [int(e) for e in design]
            vals = [float(100 + k) for k in range(nn)]
            with hush():
                try:
                    if heat:
                        tv = [300.0 + k for k in range(nd)]
                        a = (tv[0] if one_d else tv,
                             vals[0] if one_f else vals,
                             10.0 if one_f else [10.0] * nn, dr)
                        task = HT.from_mesh_tags(basis, *a, 1.0) if tags \
                            else HT.from_facets(
                                basis, D[0] if one_d else D, a[0],
                                F[0] if one_f else F, *a[1:], design, 1.0)
                    else:
                        fd = ["u^1"] * nn
                        a = (dirs[0] if one_d else dirs,
                             fd[0] if one_f else fd,
                             vals[0] if one_f else vals)
                        task = EL.from_mesh_tags(
                            basis, *a, 1.0, .3) if tags else EL.from_facets(
                            basis, D[0] if one_d else D, a[0],
                            F[0] if one_f else F, a[1], a[2], design,
                            1.0, .3)
                except ValueError:
                    rt.ok("refused only with nothing to design", not want)
                    continue
            rt.ok("nothing to design is refused", bool(want))
            rt.ok("design", sets(task.design_elements) == want,
                  f"{task.design_elements} {want}")
            rt.ok("all", sets(task.all_elements) == list(range(n)))
            rt.ok("fixed", sets(task.fixed_elements) ==
                  [e for e in range(n) if e not in want])
            con = touching(np.concatenate(dn))
            rt.ok("constrained", sets(task.dirichlet_elements) ==
                  sorted(con))
            got = task.robin_elements if heat else task.neumann_elements
            rt.ok("loaded", sets(got) == sorted(loaded))
            rt.ok("constrained or loaded", set(sets(
                task.dirichlet_neumann_elements)) ==
                (con if heat else con | loaded))
            fixed = set()
            for nodes, s in zip(dn, dirs):
                if heat:
                    fixed |= set(sets(basis.nodal_dofs[0, nodes]))
                else:
                    for k in range(3):
                        if s in ("all", f"u^{k + 1}"):
                            fixed |= set(sets(basis.nodal_dofs[k, nodes]))
            rt.ok("constrained dofs", set(sets(task.dirichlet_dofs)) ==
                  fixed)
            free = [k for k in range(basis.N) if k not in fixed]
            rt.ok("free dofs", sets(task.free_dofs) == free)
            rt.ok("elements with a free dof", sets(task.free_elements) == [
                e for e in range(n) if set(free) & set(
                    int(v) for v in basis.element_dofs[:, e])])
            rt.ok("design mask", [bool(b) for b in task.design_mask] ==
                  [e in want for e in range(n)])
            task.exlude_dirichlet_from_design()
            rt.ok("without the Dirichlet region",
                  sets(task.design_elements) ==
                  [e for e in want if e not in con])


def r_general(rt):
    """the general constructor with Dirichlet, loaded and Robin regions
    together, also over one another"""
    import contextlib
    import io
    import numpy as np
    import skfem
    from rt import toy
    D = rt.get(TC, "FEMDomain")
    for q in range(rt.n(40, 400)):
        g = rt.np_rng
        m, _ = toy.mesh(g, nmax=3)
        if isinstance(m, skfem.MeshTet):
            m = skfem.MeshTet(m.p, rt.get(
                UT, "fix_elements_orientation")(m), sort_t=False)
        n, nv = m.t.shape[1], m.p.shape[1]
        hexa = isinstance(m, skfem.MeshHex)
        basis = skfem.Basis(m, skfem.ElementHex1() if hexa
                            else skfem.ElementTetP1())
        facets = bool(g.integers(2))
        top = m.facets.shape[1] if facets else nv

        def region():
            k = int(g.integers(0, 3))
            return [g.choice(top, int(g.integers(1, min(3, top) + 1)),
                             replace=False) for _ in range(k)]
        R = {k: region() for k in ("dirichlet", "neumann", "robin")}
        dr = [None, True, False][int(g.integers(3))] if R["robin"] else None
        design = np.sort(g.choice(n, int(g.integers(1, n + 1)),
                                  replace=False))

        def arg(k):
            return None if not R[k] else R[k][0] if len(R[k]) == 1 else R[k]

        def nodes(k):
            return {int(v) for a in R[k] for v in np.ravel(
                m.facets[:, a] if facets else a)}

        def touching(s):
            return {e for e in range(n) if s & {int(v) for v in m.t[:, e]}}
        with rt.case("general", p=m.p, t=m.t, facets=facets, regions=R,
                     design_robin=dr, design=design):
            kw = dict(basis=basis, dirichlet_dir=None, dirichlet_values=
                      [300.0 + k for k in range(len(R["dirichlet"]))] if len(
                          R["dirichlet"]) > 1 else 300.0,
                      neumann_dir_type=None, neumann_values=1.0,
                      robin_coefficient=2.0, robin_bc_value=3.0,
                      design_robin_boundary=dr, design_elements=design)
            if facets:
                kw.update({f"{k}_facets_ids": arg(k) for k in R})
            else:
                kw.update({f"{k}_nodes": arg(k) for k in R},
                          robin_facets_ids=arg("robin"))
            if not R["dirichlet"]:
                kw["dirichlet_values"] = None
            con, load, rob = (touching(nodes(k)) for k in (
                "dirichlet", "neumann", "robin"))
            out = load | (rob if dr is False and R["robin"] else set())
            want = [int(e) for e in design if int(e) not in out]
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    t = (D.from_facets if facets else D.from_nodes)(**kw)
            except ValueError:
                rt.ok("refused only with nothing to design", not want)
                continue
            rt.ok("design", sets(t.design_elements) == want,
                  f"{t.design_elements} {want}")
            rt.ok("fixed", sets(t.fixed_elements) ==
                  [e for e in range(n) if e not in want])
            rt.ok("constrained or loaded", set(sets(
                t.dirichlet_neumann_elements)) == con | load)
            if R["dirichlet"]:
                rt.ok("constrained", sets(t.dirichlet_elements) ==
                      sorted(con))
            if R["neumann"]:
                rt.ok("loaded", sets(t.neumann_elements) == sorted(load))
            if R["robin"]:
                rt.ok("robin", sets(t.robin_elements) == sorted(rob))
            free = set(range(basis.N)) - {int(basis.nodal_dofs[0, v])
                                          for v in nodes("dirichlet")}
            rt.ok("free dofs", set(sets(t.free_dofs)) == free)


def r_neighbours(rt):
    """elements sharing a node, by both implementations"""
    import numpy as np
    from rt import toy
    A = rt.get(UT, "build_element_adjacency_matrix")
    B = rt.get(UT, "build_element_adjacency_matrix_fast")
    fa = rt.get(UT, "get_adjacent_elements")
    fb = rt.get(UT, "get_adjacent_elements_fast")
    lk = rt.get(UT, "get_elements_by_nodes")
    for q in range(rt.n(25, 200)):
        g = rt.np_rng
        m, _ = toy.mesh(g, nmax=3)
        n = m.t.shape[1]
        S = [set(int(v) for v in m.t[:, e]) for e in range(n)]
        pick = sorted(set(int(e) for e in g.integers(0, n, 2)))
        nodes = g.integers(0, m.p.shape[1], 3)
        with rt.case("neighbours", p=m.p, t=m.t, pick=pick, nodes=nodes):
            share = [[bool(S[i] & S[j]) for j in range(n)]
                     for i in range(n)]
            a, b = A(m).toarray() != 0, B(m).toarray() != 0
            rt.ok("sharing a node", a.tolist() == share)
            off = [[share[i][j] and i != j for j in range(n)]
                   for i in range(n)]
            rt.ok("sharing a node, without itself", b.tolist() == off)
            want = sorted(j for j in range(n) if j not in pick and any(
                share[i][j] for i in pick))
            rt.ok("neighbours", sets(fa(m, pick)) == want)
            rt.ok("neighbours, fast", sets(fb(B(m), pick)) == want)
            rt.ok("lookup", sets(lk(m, nodes)) == [
                e for e in range(n) if S[e] & set(map(int, nodes))])


RUNTIME = [("tasks", r_tasks, 150), ("general", r_general, 90), ("neighbours", r_neighbours, 60)]
