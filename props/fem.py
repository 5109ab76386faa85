"""Contracts of the linear-algebra libraries the state solves rely on."""
import z3
from vpy import terms as T, npshim, loops
from vpy.engine import Sym, SymArray, dim_term, as_array, quiet
from vpy.npshim import _mem_of
from vpy.contracts import Stub
from vpy.unit import Unit                                      # noqa: F401


class Mat:
    """square matrix; what it is made of is in `tag`; conversions keep the
    matrix"""

    def __init__(self, n, tag, **kw):
        self.n, self.tag = n, tag
        self.shape = (Sym(dim_term(n)), Sym(dim_term(n)))
        self.__dict__.update(kw)

    def tocsr(self, *a, **k):
        return self

    tocsc = copy = tocoo = tocsr

    def diagonal(self):
        """positive: the matrix is positive definite"""
        from vpy.engine import ctx
        d = npshim.havoc_array((dim_term(self.n),), "real", "diag")
        f = d.snap()
        ctx().fact(lambda i: T.lift(f((i,))) > 0, (self.n,))
        return d

    def __add__(self, o):
        if not isinstance(o, Mat):
            raise T.Unsupported("matrix plus something else")
        return Mat(self.n, ("sum", self, o))

    def __matmul__(self, x):
        y = npshim.havoc_array((dim_term(self.n),), "real", "product")
        self.__dict__.setdefault("products", []).append(
            (as_array(x).snap(), y.snap()))
        return y

    def terms(self):
        """the matrices this one is a sum of"""
        if isinstance(self.tag, tuple) and self.tag[0] == "sum":
            return self.tag[1].terms() + self.tag[2].terms()
        return [self]


class Problem:
    """records what is solved.

    enforce(K, f, D=D, x=x): the system with the rows of D replaced by
    u[D] = x[D] (x = 0 if not given); its right-hand side is x on D, f
    elsewhere.  Solvers return a vector u with `enforced system` u = rhs: in
    particular u = rhs on D.  Iterative solvers do so (to the tolerance) if
    they report convergence."""

    def __init__(self, c, N):
        self.c, self.N = c, N
        self.enforced, self.solved = [], []

    def enforce(self, A, b=None, x=None, I=None, D=None, diag=1.0,
                overwrite=False):
        if I is not None or D is None or b is None or overwrite \
                or diag != 1.0 or not isinstance(A, Mat):
            raise T.Unsupported("enforce options")
        d = getattr(D, "vpy_dofs", D)
        mem = _mem_of(as_array(d))
        f = as_array(b).snap()
        xf = as_array(x).snap() if x is not None else (
            lambda i: z3.RealVal(0))
        K = Mat(A.n, "enforced", of=A, mem=mem, D=D)

        def rhs(i):
            return z3.If(mem(i[0]), T.to_real(T.lift(xf(i))),
                         T.to_real(T.lift(f(i))))
        F = SymArray((dim_term(self.N),), rhs, "real")
        self.enforced.append((A, f, mem, xf, K, F, D))
        return K, F

    def solution(self, K, F, how, **kw):
        """u with K u = F"""
        c = self.c
        F = as_array(F)
        Ff = F.snap()
        u = npshim.havoc_array(tuple(F.dims), "real", "u")
        uf = u.snap()
        sure = kw.get("sure", z3.BoolVal(True))
        if getattr(K, "tag", None) == "enforced":
            cols = (None,) * (F.ndim - 1)
            c.fact(lambda d, *k: z3.Implies(z3.And(
                K.mem(d), sure), uf((d,) + k) == T.lift(Ff((d,) + k))),
                (self.N,) + cols)
        r = Stub(K=K, F=Ff, u=u, uf=uf, how=how, ndim=F.ndim,
                 fam=list(c.family), **kw)
        self.solved.append(r)
        return u

    def spsolve(self, A, b, **k):
        if k:
            raise T.Unsupported("spsolve options")
        return self.solution(A, b, "spsolve")

    def splu(self, A, **k):
        if k:
            raise T.Unsupported("splu options")
        return Stub(solve=lambda b: self.solution(A, b, "spsolve"))

    factorized = None

    def cg(self, A, b, x0=None, *, rtol=1e-5, atol=0.0, maxiter=None, M=None,
           callback=None):
        """an x0 changes where the iteration starts, not what it solves"""
        c = self.c
        info = c.fresh("info", T.I)
        u = self.solution(A, b, "cg", rtol=rtol, maxiter=maxiter, M=M,
                          sure=info == 0, atol=atol)
        return u, Sym(info)

    def scipy(self):
        """the scipy namespace"""
        import scipy.sparse as sp
        lin = Stub(spsolve=self.spsolve, splu=self.splu, cg=self.cg,
                   LinearOperator=self.operator)
        return Stub(sparse=Stub(linalg=lin, spmatrix=Mat, csr_matrix=Mat,
                                csc_matrix=Mat, issparse=sp.issparse))

    def operator(self, shape, matvec=None, **k):
        if k or matvec is None:
            raise T.Unsupported("linear operator options")
        return Stub(kind="operator", matvec=matvec, shape=shape)

    def amg(self):
        ml = Stub(aspreconditioner=lambda *a, **k: Stub(kind="amg", K=K_[0]))
        K_ = [None]

        def build(K, *a, **k):
            K_[0] = K
            return ml
        return Stub(smoothed_aggregation_solver=build,
                    ruge_stuben_solver=build)


class Timer:
    """contract of the section timer: runs the section"""

    def __init__(self):
        self.open, self.seen = 0, []

    def section(self, name):
        t = self

        class S:
            def __enter__(s):
                t.open += 1
                t.seen.append(name)

            def __exit__(s, *a):
                t.open -= 1
                return False
        return S()


# -- forms and fields -----------------------------------------------------------
def helpers(c, M):
    """run skfem.helpers' own source on symbolic fields: its `np` becomes the
    numpy shim, in every module-level name of M bound to one of them"""
    import types
    import skfem.helpers as H
    g = dict(vars(H))
    g["np"] = npshim.np_shim
    for k, v in list(g.items()):
        if isinstance(v, types.FunctionType) and v.__module__ == H.__name__:
            g[k] = types.FunctionType(v.__code__, g, v.__name__,
                                      v.__defaults__, v.__closure__)
    for k, v in list(vars(M).items()):
        if getattr(v, "__module__", None) == H.__name__ and \
                isinstance(v, types.FunctionType):
            c.patch(M, k, g[v.__name__])


class Field:
    """discrete field: values and gradients at (element, point)"""

    def __init__(self, value=None, grad=None, **kw):
        self.value, self.grad = value, grad
        self.__dict__.update(kw)


class Params(dict):
    """extra form parameters: items or attributes"""
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)


class Cells:
    """contract of skfem's cell basis: `interpolate(u)` is the finite element
    field with nodal values u; a functional's elementwise value is the sum
    over the element's points of its integrand times weight dx > 0; `asm` of
    a form integrates that form over this basis; equal nodal values of a
    scalar field are interpolated exactly (partition of unity)"""

    def __init__(self, c, n_el, vector=3, mesh=None, N=None):
        self.c, self.nel, self.vector = c, n_el, vector
        self.elem = object()
        if N is not None:
            self.N = N
        self.nqp = c.int("n_qp", 1)
        self.w = z3.Function("dx", T.I, T.I, T.R)
        c.fact(lambda e, q: self.w(e, q) > 0, (n_el, self.nqp))
        self.mesh = mesh or Stub(nelements=Sym(dim_term(n_el)))
        self.X = Stub(shape=(3, self.nqp))
        self.taken, self.made = [], []
        k = (T.I,) * (2 if vector else 1)
        self.G = z3.Function("grad", *k, T.I, T.I, T.I, T.R)
        self.V = z3.Function("value", T.I, T.I, T.I, T.R)
        self.dx = SymArray(self.points(), lambda i: self.w(*i), "real")

    def points(self):
        return (dim_term(self.nel), self.nqp.t)

    def iteration(self):
        return self.c.family[-1].k if self.c.family else z3.IntVal(0)

    def interpolate(self, u):
        """gradients indexed by the iteration the field is made in"""
        if not self.vector:
            return self.scalar_field(u)
        k = self.iteration()
        self.taken.append(u)
        sh = ((3, 3) if self.vector else (3,)) + self.points()
        return Field(SymArray(self.points(), lambda i: self.V(*i, k), "real"),
                     SymArray(sh, lambda i: self.G(*i, k), "real"))

    def scalar_field(self, u):
        """values and gradients of their own for every field"""
        c = self.c
        f = as_array(u).snap()
        c.post("one nodal value per vertex",
               dim_term(as_array(u).dims[0]) == dim_term(self.N))
        with quiet():
            t, t2 = (z3.simplify(T.to_real(T.lift(f((z3.FreshInt(
                "node"),))))) for _ in range(2))
        if t.eq(t2):
            val = SymArray(self.points(), lambda i: t, "real")
            g = SymArray((3,) + self.points(), lambda i: z3.RealVal(0),
                         "real")
            V, G = (lambda e, q: t), (lambda a, e, q: z3.RealVal(0))
        else:
            V = c.fresh_fn("value", T.I, T.I, T.R)
            G = c.fresh_fn("gradient", T.I, T.I, T.I, T.R)
            val = SymArray(self.points(), lambda i: V(*i), "real")
            g = SymArray((3,) + self.points(), lambda i: G(*i), "real")
        val.grad = g
        val.vpy_field = Stub(u=u, uf=f, V=V, G=G, fam=list(c.family), field=val)
        self.taken.append(val.vpy_field)
        return val

    def elemental(self, form, basis, **kw):
        if basis is not self:
            raise T.Unsupported("integration over another basis")
        with quiet():
            v = form.form(Params(kw))
        self.made.append(kw)
        return npshim.np_sum(v * self.dx, axis=-1)

    def patch(self, M):
        """functionals and assembly of this basis, wherever M takes them"""
        import skfem
        c, me = self.c, self
        c.patch(skfem.assembly.form.functional.Functional, "elemental",
                lambda form, basis, **kw: me.elemental(form, basis, **kw))

        def asm(form, basis, *a, **kw):
            if a or basis is not me:
                raise T.Unsupported("assembly over another basis")
            return Mat(me.nel, "form", form=form, params=Params(kw),
                       fam=list(c.family))
        asm.vpy_contract = True
        if hasattr(M, "asm"):
            c.patch(M, "asm", asm)
        c.patch(skfem.assembly.form.form.Form, "assemble",
                lambda form, *a, **kw: asm(form, *a, **kw))
