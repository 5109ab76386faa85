"""Mesh geometry: orientation repair and element volumes."""
import z3
from vpy import terms as T
from vpy.engine import SymArray
from vpy.unit import Unit
from vpy.contracts import Stub

PROP = "P16"
UT, CO = "sktopt.mesh.utils", "sktopt.fea.composer"


def mesh(c, nodes):
    """arbitrary mesh: node numbers per element, coordinates per node"""
    n, m = c.int("elements", 1), c.int("nodes", 1)
    t = c.array("t", (nodes, n), kind="int", lo=0,
                pred=lambda r, e, v: v < m.t)
    p = c.array("p", (3, m))
    return n, m, t, p


def edges(c, t, p, e, a, b):
    """vector from local node a to b of element e"""
    f, g = t.snap(), p.snap()
    ia, ib = f((z3.IntVal(a), e)), f((z3.IntVal(b), e))
    return [T.t_sub(g((z3.IntVal(k), ib)), g((z3.IntVal(k), ia)))
            for k in range(3)]


def det(a, b, d):
    return (a[1] * b[2] - a[2] * b[1]) * d[0] + \
        (a[2] * b[0] - a[0] * b[2]) * d[1] + \
        (a[0] * b[1] - a[1] * b[0]) * d[2]


FLIPS = {4: [(0, 1, 2, 3), (0, 2, 1, 3)],
         8: [(0, 1, 2, 3, 4, 5, 6, 7), (0, 3, 2, 1, 6, 5, 4, 7)]}
CORNER = {4: (1, 2, 3), 8: (1, 3, 2)}


def orientation(c, name, nodes):
    """after the repair every element is right-handed at its first node; it
    is the old element, or, only if that was inverted, its mirrored
    numbering (the same cell); the mesh itself is only read"""
    M = c.load(UT)
    n, m, t, p = mesh(c, nodes)
    t0, p0 = t.snap(), p.snap()

    def sign(tf, e):
        a, b, d = CORNER[nodes]

        def vec(q):
            return [p0((z3.IntVal(k), tf(q, e))) - p0(
                (z3.IntVal(k), tf(0, e))) for k in range(3)]
        return det(vec(a), vec(b), vec(d))

    keep, flip = FLIPS[nodes]

    def old(q, e):
        return t0((z3.IntVal(q), e))

    def want(q, e):
        return z3.If(sign(old, e) >= 0, old(q, e), old(flip[q], e))

    def content(k, r, e):
        """columns before k repaired, the others as given"""
        done = z3.simplify(e < k)
        rows = [r.as_long()] if z3.is_int_value(r) else range(nodes)
        out = None
        for q in rows:
            v = old(q, e) if z3.is_false(done) else want(q, e) \
                if z3.is_true(done) else z3.If(done, want(q, e), old(q, e))
            out = v if out is None else z3.If(r == q, v, out)
        return out

    def inv(mods):
        for b in mods:
            if len(b.shape) == 2:
                yield "columns so far", b, None, content
    c.ghost["array_inv"] = inv
    f = getattr(M, name)
    r = f(t, p)
    e = c.fresh_idx(n.t, "e")
    rf = r.snap()

    def new(q, e):
        return rf((z3.IntVal(q), e))
    s0 = sign(old, e)
    c.post("right-handed elements are left alone", z3.Implies(
        s0 >= 0, z3.And(*[new(q, e) == old(q, e) for q in range(nodes)])))
    c.post("inverted elements are mirrored", z3.Implies(
        s0 < 0, z3.And(*[new(q, e) == old(flip[q], e)
                         for q in range(nodes)])))
    c.post("right-handed afterwards", sign(new, e) >= 0)
    c.forall("connectivity only read", t, lambda i, j, v: v == t0((i, j)))
    c.forall("coordinates only read", p, lambda i, j, v: v == p0((i, j)))
    c.reach("end")


def tet_volumes(c, name, checked=True):
    """every tetrahedron's value is its volume; an inverted one is reported
    instead (checked variant)"""
    M = c.load(CO)
    n, m, t, p = mesh(c, 4)
    t0, p0 = t.snap(), p.snap()

    def vol(e):
        v = [edges(c, t, p, e, 0, q) for q in (1, 2, 3)]
        return det(*v) / 6

    def inv(mods):
        for b in mods:
            if len(b.shape) == 1:
                yield "volumes so far", b, None, lambda k, e: z3.If(
                    e < k, vol(e), z3.RealVal(0))
                if checked:
                    yield "none inverted so far", b, lambda f, k, e: \
                        z3.Implies(e < k, vol(e) >= -T.lift(1e-12))
    c.ghost["array_inv"] = inv
    try:
        r = getattr(M, name)(t, p)
    except ValueError:
        ks = list(c.ghost.get("loop_k", {}).values())
        c.post("only inverted meshes are rejected", z3.And(
            z3.BoolVal(checked), z3.Or(*[z3.And(
                k >= 0, k < n.t, vol(k) < 0) for k in ks])))
        return
    c.post("one volume per element",
           T.t_eq(T.lift(r.shape[0]), n.t))
    c.forall("volume of the tetrahedron", r, lambda e, v: v == vol(e))
    if checked:
        c.forall("no inverted element accepted", r,
                 lambda e, v: v >= -T.lift(1e-12))
    c.forall("connectivity only read", t, lambda i, j, v: v == t0((i, j)))
    c.forall("coordinates only read", p, lambda i, j, v: v == p0((i, j)))
    c.reach("end")


AFF = [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 1, 1), (1, 0, 1),
       (1, 1, 0), (1, 1, 1)]


def hex_volumes(c, name):
    """every parallelepiped's value is its volume (edges at node 0)"""
    M = c.load(CO)
    n, m = c.int("elements", 1), c.int("nodes", 1)
    t = c.array("t", (8, n), kind="int", lo=0,
                pred=lambda r, e, v: v < m.t)
    raw = z3.Function("p", T.I, T.I, T.R)
    org = z3.Function("origin", T.I, T.I, T.R)
    edg = [z3.Function(f"edge{a}", T.I, T.I, T.R) for a in range(3)]
    tf = z3.Function("t", T.I, T.I, T.I)

    def coord(ix):
        k, node = ix
        if z3.is_app(node) and node.decl().eq(tf) and \
                z3.is_int_value(node.arg(0)):
            q, e = node.arg(0).as_long(), node.arg(1)
            v = org(k, e)
            for a in range(3):
                if AFF[q][a]:
                    v = v + edg[a](k, e)
            return v
        return raw(k, node)
    p = SymArray((3, m), coord, "real", "p")
    p0, t0 = p.snap(), t.snap()

    def vol(e):
        v = [[edg[a](z3.IntVal(k), e) for k in range(3)] for a in range(3)]
        d = det(*v)
        return z3.If(d >= 0, d, -d)

    def inv(mods):
        for b in mods:
            if len(b.shape) == 1:
                yield "volumes so far", b, None, lambda k, e: z3.If(
                    e < k, vol(e), z3.RealVal(0))
    c.ghost["array_inv"] = inv
    r = getattr(M, name)(t, p)
    c.post("one volume per element",
           T.t_eq(T.lift(r.shape[0]), n.t))
    c.forall("volume of the parallelepiped", r, lambda e, v: v == vol(e))
    c.forall("connectivity only read", t, lambda i, j, v: v == t0((i, j)))
    c.reach("end")


def dispatch(c):
    """tetrahedral and hexahedral meshes go to their own routine with their
    own connectivity and coordinates, anything else is refused"""
    import skfem
    U, C = c.load(UT), c.load(CO)
    kind = ("tet", "hex", "other")[
        0 if c.choose("tet") else 1 if c.choose("hex") else 2]
    m = {"tet": skfem.MeshTet, "hex": skfem.MeshHex,
         "other": skfem.MeshTri}[kind]()
    calls = []

    def stub(tag):
        def f(t, p):
            calls.append((tag, t is m.t or (t == m.t).all(),
                          p is m.p or (p == m.p).all()))
            return tag
        return f
    names = {"v": (C, "get_elements_volume", {
        "_get_elements_volume_tet": "tet", "_get_elements_volume_hex": "hex",
        "_get_elements_volume_tet_numba": "tet",
        "_get_elements_volume_hex_numba": "hex"}),
        "o": (U, "fix_elements_orientation", {
            "fix_tetrahedron_orientation": "tet",
            "fix_tetrahedron_orientation_numba": "tet",
            "fix_hexahedron_orientation": "hex"})}
    for M, fn, parts in names.values():
        for n, tag in parts.items():
            if hasattr(M, n):
                setattr(M, n, stub(tag))
    M, fn, _ = names["v" if c.choose("volumes") else "o"]
    try:
        r = getattr(M, fn)(m)
    except (ValueError, NotImplementedError):
        c.post("only other cells are refused",
               z3.BoolVal(kind == "other"))
        return
    c.post("own routine, own mesh", z3.BoolVal(
        kind != "other" and r == kind and calls == [(kind, True, True)]))
    c.reach("end")


UNITS = [
    Unit(PROP, "dispatch", dispatch),
    Unit(PROP, "tet_volumes",
         lambda c: tet_volumes(c, "_get_elements_volume_tet")),
    Unit(PROP, "tet_volumes_numba",
         lambda c: tet_volumes(c, "_get_elements_volume_tet_numba", False)),
    Unit(PROP, "hex_volumes",
         lambda c: hex_volumes(c, "_get_elements_volume_hex")),
    Unit(PROP, "hex_volumes_numba",
         lambda c: hex_volumes(c, "_get_elements_volume_hex_numba")),
    Unit(PROP, "tet_orientation",
         lambda c: orientation(c, "fix_tetrahedron_orientation", 4)),
    Unit(PROP, "tet_orientation_numba",
         lambda c: orientation(c, "fix_tetrahedron_orientation_numba", 4)),
    Unit(PROP, "hex_orientation",
         lambda c: orientation(c, "fix_hexahedron_orientation", 8)),
]
def exact(m):
    """volumes by quadrature that is exact for trilinear cells"""
    import numpy as np
    import skfem
    e = skfem.ElementHex1() if isinstance(m, skfem.MeshHex) \
        else skfem.ElementTetP1()
    return skfem.Basis(m, e, intorder=5).dx.sum(axis=1)


def some_mesh(rt, g, tet):
    """box with uneven spacing, sheared, rotated, possibly mirrored, nodes
    and elements renumbered"""
    import numpy as np
    import skfem
    ax = [np.cumsum(g.uniform(.1, 1, int(g.integers(2, 5))))
          for _ in range(3)]
    m = (skfem.MeshTet if tet else skfem.MeshHex).init_tensor(*ax)
    A = g.normal(size=(3, 3))
    while abs(np.linalg.det(A)) < .05:
        A = g.normal(size=(3, 3))
    pn = g.permutation(m.p.shape[1])
    pe = g.permutation(m.t.shape[1])
    p = np.empty_like(m.p)
    p[:, pn] = A @ m.p * 10. ** float(g.choice([0, 0, -3, 3]))
    return p, pn[m.t][:, pe], (skfem.MeshTet if tet else skfem.MeshHex)


def r_volumes(rt):
    """volumes on real meshes against exact quadrature"""
    import numpy as np
    f = rt.get(CO, "get_elements_volume")
    fix = rt.get(UT, "fix_elements_orientation")
    for q in range(rt.n(60, 600)):
        g = rt.np_rng
        tet = bool(g.integers(2))
        p, t, cls = some_mesh(rt, g, tet)
        with rt.case("volumes", tet=tet, p=p, t=t):
            raw = cls(p, t, sort_t=False) if tet else cls(p, t)
            before = raw.t.copy()
            fixed = fix(raw)
            rt.ok("mesh only read", (raw.t == before).all())
            rt.ok("same nodes per element",
                  (np.sort(fixed, 0) == np.sort(raw.t, 0)).all())
            m = cls(p, fixed, sort_t=False) if tet else cls(p, fixed)
            if tet:
                x = p[:, m.t]
                d = np.einsum("ie,ie->e", np.cross(
                    x[:, 1] - x[:, 0], x[:, 2] - x[:, 0], axis=0),
                    x[:, 3] - x[:, 0])
                rt.ok("right-handed afterwards", (d > 0).all(), f"{d}")
            else:
                import skfem
                b = skfem.Basis(m, skfem.ElementHex1())
                dd = b.mapping.detDF(b.X)
                rt.ok("one orientation, nowhere inverted",
                      (dd < 0).all(), f"{dd.min()} .. {dd.max()}")
            v = f(m)
            ref = exact(m)
            rt.ok("volumes", np.allclose(v, ref, rtol=1e-9), f"{v} {ref}")
            rt.ok("positive", (v > 0).all())
            if tet:
                d = np.einsum("ie,ie->e", np.cross(
                    p[:, before[1]] - p[:, before[0]],
                    p[:, before[2]] - p[:, before[0]], axis=0),
                    p[:, before[3]] - p[:, before[0]])
                if (d < -1e-9).any():
                    try:
                        f(raw)
                        rt.ok("inverted tetrahedra are refused", False)
                    except ValueError:
                        pass


def r_box(rt):
    """the box generators fill the box with right-handed cells"""
    import numpy as np
    bh = rt.get("sktopt.mesh.toy_problem", "create_box_hex")
    bt = rt.get("sktopt.mesh.toy_problem", "create_box_tet")
    f = rt.get(CO, "get_elements_volume")
    rng = rt.get(UT, "get_points_in_range")
    for q in range(rt.n(15, 100)):
        g = rt.np_rng
        L = [float(v) for v in g.uniform(.5, 3, 3)]
        h = float(g.uniform(.3, .8))
        tet = bool(g.integers(2))
        with rt.case("box", tet=tet, size=L, h=h):
            m = (bt if tet else bh)(*L, h)
            v = f(m)
            rt.ok("cells fill the box", abs(v.sum() - L[0] * L[1] * L[2])
                  <= 1e-9 * v.sum(), f"{v.sum()}")
            rt.ok("bounds", np.allclose(m.p.min(1), 0) and
                  np.allclose(m.p.max(1), L))
            rt.ok("cells have positive volume", (v > 0).all())
            if not tet:
                rt.ok("cells no larger than asked", all(
                    np.ptp(m.p[k][m.t], axis=0).max() <= h + 1e-9
                    for k in range(3)))
            lo = [float(a) for a in g.uniform(0, 1, 3)]
            hi = [a + float(b) for a, b in zip(lo, g.uniform(0, 2, 3))]
            i = int(g.integers(m.p.shape[1]))
            lo[0] = float(m.p[0, i])
            got = rng((lo[0], hi[0]), (lo[1], hi[1]), (lo[2], hi[2]))(m.p)
            want = [all(lo[k] <= m.p[k, j] <= hi[k] for k in range(3))
                    for j in range(m.p.shape[1])]
            rt.ok("closed box range", list(map(bool, got)) == want)


RUNTIME = [("volumes", r_volumes, 120), ("box", r_box, 120)]
