"""C21: quadrature, nodal basis, weak forms, assembly, affine transport systems."""
from .fields import *
from . import fields
from .C20 import Assembler, world
from ovc.subst import without_abs
from ovc.terms import exp_, abs_, floor_

P = "ormatex_py.progression."


class Inf:
    """numpy.inf as a divisor of finite quantities"""
    abstract_array = True

    def __rtruediv__(self, o):
        return Sc.of(0)


class DField:
    """value and first derivative of a finite element function at a point"""
    abstract_array = True

    def __init__(self, v, g):
        self.value, self.grad = Sc.of(v), Sc.of(g)

    def _v(self, o):
        return o.value if isinstance(o, DField) else Sc.of(o)

    def __mul__(self, o): return self.value * self._v(o)
    __rmul__ = __mul__
    def __add__(self, o): return self.value + self._v(o)
    __radd__ = __add__
    def __sub__(self, o): return self.value - self._v(o)
    def __rsub__(self, o): return self._v(o) - self.value
    def __neg__(self): return -self.value
    def __truediv__(self, o): return self.value / self._v(o)
    def __getitem__(self, ix): return self.value


class Pt:
    """a quantity given at the quadrature points"""
    abstract_array = True

    def __init__(self, v):
        self.v = Sc.of(v)

    def __getitem__(self, ix): return self.v
    def sum(self, axis=None, **k): return self.v
    def __mul__(self, o): return self.v * (o.v if isinstance(o, Pt) else o)
    __rmul__ = __mul__
    def __add__(self, o): return self.v + (o.v if isinstance(o, Pt) else o)
    __radd__ = __add__
    def __truediv__(self, o): return self.v / (o.v if isinstance(o, Pt) else o)


class WDict(dict):
    def __getattr__(self, k):
        if k in self:
            return self[k]
        raise AttributeError(k)


def kernel_world(abstract):
    """the module with its velocity and source functions as shipped, or arbitrary"""
    W = install(make_world())
    W.libs["numpy"].inf = W.libs["jax.numpy"].inf = Inf()
    m = W.load(P + "advection_diffusion_1d")
    w = WDict(nu=real("nu"), vel=real("vel"), tau=real("tau"), h=Pt(pos("h")), x=Pt(real("x")), n=real("normal"))
    if abstract:
        a, f = real("a(x)"), real("f(x)")
        W.replace(m.vel_f, lambda x, **k: a)
        W.replace(m.src_f, lambda x, **k: f)
    else:
        a, f = w["vel"], Sc.of(0)
    return W, m, w, a, f


def tau_of(w, a):
    if bool(cmp_("==", a, 0)):
        return Sc.of(0)
    return w["tau"] * w["h"].v / (2 * abs_(a))


FORMS = {
    "adv_diff_cons_supg": lambda u, v, w, a, f, t: w["nu"] * u.grad * v.grad - a * u.value * v.grad + t * a * a * u.grad * v.grad,
    "adv_diff_cons": lambda u, v, w, a, f, t: w["nu"] * u.grad * v.grad - a * u.value * v.grad,
    "adv_diff": lambda u, v, w, a, f, t: w["nu"] * u.grad * v.grad + a * u.grad * v.value,
    "mass_supg": lambda u, v, w, a, f, t: u.value * v.value + t * a * v.grad * u.value,
    "mass": lambda u, v, w, a, f, t: u.value * v.value,
    "robin": lambda u, v, w, a, f, t: a * w["n"] * u.value * v.value,
    "rhs_supg": lambda u, v, w, a, f, t: f * v.value + t * a * v.grad * f,
    "rhs": lambda u, v, w, a, f, t: f * v.value,
}


def form(name, abstract):
    def fn():
        W, m, w, a, f = kernel_world(abstract)
        k = getattr(m, name).form
        one = name.startswith("rhs")
        u, v, v2 = DField(real("u"), real("u'")), DField(real("v"), real("v'")), DField(real("v2"), real("v2'"))
        ev = lambda v: Sc.of(call(name, k, *((v, w) if one else (u, v, w))))
        t = tau_of(w, a) if "supg" in name else Sc.of(0)
        CTX.prove_eq("%s: integrand of the weak form" % name, ev(v), FORMS[name](u, v, w, a, f, t))
        al, be = real("alpha"), real("beta")
        CTX.prove_eq("%s: linear in the test function" % name, ev(DField(al * v.value + be * v2.value, al * v.grad + be * v2.grad)), al * ev(v) + be * ev(v2))
        c = ev(DField(1, 0))
        if name in ("adv_diff_cons_supg", "adv_diff_cons"):
            CTX.prove_eq("nothing is lost: a constant test function gives zero", c, Sc.of(0))
        if name in ("mass_supg", "mass"):
            CTX.prove_eq("a constant test function gives the total", c, u.value)
        if name in ("rhs_supg", "rhs"):
            CTX.prove_eq("a constant test function gives the total source", c, f)
        CTX.cover("form")
    return fn


def consistency():
    """the three stabilised forms vanish on solutions of u_t + a u' = f (constant a) up to the boundary and diffusion terms"""
    W, m, w, a, f = kernel_world(True)
    u, ut, v = DField(real("u"), real("u'")), DField(real("u_t"), real("u_t'")), DField(real("v"), real("v'"))
    got = (Sc.of(m.adv_diff_cons_supg.form(u, v, w)) + Sc.of(m.mass_supg.form(ut, v, w)) - Sc.of(m.rhs_supg.form(v, w)))
    t = tau_of(w, a)
    res = ut.value + a * u.grad - f
    CTX.prove_eq("tested residual + diffusion - divergence of the flux", got,
                 (v.value + t * a * v.grad) * res + w["nu"] * u.grad * v.grad - a * (u.grad * v.value + u.value * v.grad))
    CTX.cover("form")


def upwind():
    W, m, w, a, f = kernel_world(True)
    CTX.assume(cmp_("<=", 0, w["tau"]))
    u = DField(real("u"), real("u'"))
    CTX.assume(~cmp_("==", u.grad, 0))
    d = Sc.of(m.adv_diff_cons_supg.form(u, u, w)) - Sc.of(m.adv_diff_cons.form(u, u, w))
    CTX.prove_eq("stabilisation: tau h |a| / 2 times the squared gradient", d,
                 Sc.of(0) if bool(cmp_("==", a, 0)) else w["tau"] * w["h"].v * abs_(a) / 2 * u.grad * u.grad)
    CTX.prove("never anti-diffusion", cmp_("<=", 0, w["tau"] * w["h"].v * abs_(a) / 2))
    CTX.cover("form")


# ------------------------------------------------------------------- assembly
class Asm:
    """sum of assembled forms, with rows replaced by identity rows (matrix) or zero (vector)"""
    abstract_array = True

    def __init__(self, parts, n, D=None):
        self.parts, self.n, self.D = list(parts), n, D
        self.shape = (n, n)

    def __add__(self, o):
        if self.D or o.D:
            raise Unsupported("sum after enforcing")
        return Asm(self.parts + o.parts, self.n)
    __iadd__ = __add__

    def copy(self):
        return Asm(self.parts, self.n, self.D)

    def __matmul__(self, o):
        o = as_fd(o)
        if o.ndim != 1 or not same(o.dims[0], self.n):
            raise lin.ShapeError("product")
        return RowSum(self, o(integer("any node", 0)))

    def sum(self, axis=None):
        if axis == 1:
            return RowSum(self, Sc.of(1))
        raise Unsupported("sum")

    def what(self):
        return sorted(self.parts)


class RowSum:
    abstract_array = True

    def __init__(self, M, c):
        self.M, self.c = M, c

    def ravel(self):
        return self
    flatten = squeeze = ravel


def assembly(periodic, fields_given):
    def fn():
        W = install(make_world())
        N = integer("dofs", 1)
        fem = W.libs["skfem"]
        log = dict(enforce=[], args=[])

        class Form:
            def __init__(self, f):
                self.form, self.name = f, f.__name__

            def __call__(self, *a, **k):
                return self.form(*a, **k)

            def assemble(self, basis, **w):
                log["args"].append((self.name, w))
                return Asm([(self.name, basis.name)], N)

        def enforce(A, b=None, x=None, I=None, D=None, diag=1., overwrite=False, **k):
            used("skfem.enforce")
            only("enforce", (), k)
            if x is not None or I is not None or not (Sc.of(diag).is_const() and Sc.of(diag).const() == 1):
                raise Unsupported("enforce with other arguments")
            if not overwrite:
                A, b = A.copy(), b.copy() if b is not None else None
            for o in (A, b):
                if o is not None:
                    o.D = D.name if o.D is None else o.D + "," + D.name
            return A if b is None else (A, b)

        class Dofs:
            def __init__(self, name):
                self.name = name

            def flatten(self):
                return self
            ravel = flatten

        class Basis:
            def __init__(self, mesh, element, quadrature=None, **k):
                only("Basis", (), k)
                self.mesh, self.element, self.quadrature = mesh, element, quadrature
                self.name = "cells"
                self.doflocs = Fd((1, N), lambda c, i: Sc.app("x", i))

            def get_dofs(self, *a, **k):
                if a or k:
                    raise Unsupported("degrees of freedom of a selected boundary")
                return Dofs("boundary dofs (none on a periodic mesh)")

            def interpolate(self, v):
                return ("interpolated on " + self.name, v)

        class FacetBasis(Basis):
            def __init__(self, mesh, element, **k):
                if k:
                    raise Unsupported("facet basis with other arguments")
                Basis.__init__(self, mesh, element)
                self.name = "boundary facets"

        class P1:
            pass

        class P2:
            pass
        fem.BilinearForm = fem.LinearForm = Form
        fem.enforce, fem.Basis, fem.FacetBasis = enforce, Basis, FacetBasis
        fem.CellBasis = Basis
        fem.ElementLineP1, fem.ElementLineP2 = P1, P2

        class Nodal:
            def __init__(self, p):
                self.p = p
        W.libs["jax.experimental.sparse"].BCOO = type("BCOO", (), dict(from_scipy_sparse=staticmethod(lambda A: ("bcoo", A))))
        m = W.load(P + "advection_diffusion_1d")
        el = W.load(P + "element_line_pp_nodal")
        W.replace(el.ElementLinePp_nodal, Nodal)
        el.ElementLinePp_nodal = Nodal
        for ns in ("numpy", "jax.numpy"):
            old = W.libs[ns].asarray
            W.libs[ns].asarray = W.libs[ns].array = lambda x, *a, _o=old, **k: x if isinstance(x, (Asm, RowSum)) else _o(x, *a, **k)

        class Mesh:
            boundaries = {} if periodic else {"left": Dofs("left"), "right": Dofs("right")}
        nu, vel, tau = real("nu"), real("vel"), real("tau")
        for p in (1, 2, 3, 4):
            log["args"].clear()
            seen = []

            def field(x, **k):
                seen.append((x, k))
                return Fd((1, N), lambda c, i: Sc.app("field", i))
            kw = dict(field_fns={"kappa": field}) if fields_given else {}
            s = call("AdDiffSEM.__init__", m.AdDiffSEM, Mesh(), p=p, params=dict(nu=nu, vel=vel, tau=tau), **kw)
            e = s.basis.element
            CTX.prove("element of order %d" % p, B.of(isinstance(e, P1) if p == 1 else isinstance(e, P2) if p == 2 else isinstance(e, Nodal) and e.p == p))
            X, Wt = el.GLL_quad()(p + 1)
            q = s.basis.quadrature
            CTX.prove_eq("collocation quadrature", Sc.of(len(q[1])), Sc.of(p + 1))
            for i in range(p + 1):
                CTX.prove_eq("collocation point", Sc.of(q[0][0, i]), Sc.of(X[0, i]))
                CTX.prove_eq("collocation weight", Sc.of(q[1][i]), Sc.of(Wt[i]))
            A, Ml, b = call("AdDiffSEM.assemble", s.assemble, **(dict(extra=nu) if fields_given else {}))
            want = [("adv_diff_cons_supg", "cells")] + ([] if periodic else [("robin", "boundary facets")])
            D = ("boundary dofs (none on a periodic mesh)", None) if periodic else ("left",)
            CTX.prove("transport matrix: the conservative stabilised form, with the boundary flux unless periodic", B.of(A[0] == "bcoo" and A[1].what() == sorted(want)), repr(A[1].what()))
            CTX.prove("transport matrix: identity rows at the Dirichlet nodes", B.of(A[1].D in D), repr(A[1].D))
            CTX.prove("load: the stabilised source", B.of(b.what() == [("rhs_supg", "cells")]), repr(b.what()))
            CTX.prove("load: zero at the Dirichlet nodes", B.of(b.D in D), repr(b.D))
            CTX.prove("mass: row sums of the stabilised mass", B.of(isinstance(Ml, RowSum) and Ml.M.what() == [("mass_supg", "cells")] and Ml.M.D in D), repr(Ml.M.what()))
            CTX.prove_eq("mass: sums over all columns", Ml.c, Sc.of(1))
            for nm, w in log["args"]:
                for key, val in (("nu", nu), ("vel", vel), ("tau", tau)):
                    CTX.prove_eq("%s gets parameter %s" % (nm, key), Sc.of(w[key]), val)
                if fields_given:
                    where = "interpolated on " + ("boundary facets" if nm == "robin" else "cells")
                    CTX.prove("%s gets the field interpolated on its own points" % nm, B.of(isinstance(w.get("kappa"), tuple) and w["kappa"][0] == where))
            for x, k in seen:
                CTX.prove("field functions see the parameters and the extra arguments", B.of("vel" in k and "extra" in k), repr(sorted(k)))
                if "vel" in k and "extra" in k:
                    CTX.prove_eq("field functions see the velocity", Sc.of(k["vel"]), vel)
                    CTX.prove_eq("field functions see the value of extra arguments", Sc.of(k["extra"]), nu)
            if periodic:
                CTX.prove("no Dirichlet nodes", B.of(s.dirichlet_bd is None))
            else:
                CTX.prove("Dirichlet nodes: the left end", B.of(s.dirichlet_bd.name == "left"))
        CTX.cover("assembled")
    return fn


# ------------------------------------------------------------------ quadrature
def quadrature(q):
    def fn():
        W = install(make_world())
        el = W.load(P + "element_line_pp_nodal")
        X, Wt = call("GLL_quad", el.GLL_quad(), q)
        x, w = [Sc.of(X[0, i]) for i in range(q)], [Sc.of(Wt[i]) for i in range(q)]
        CTX.prove("q points and weights", B.of(X.shape == (1, q) and Wt.shape == (q,)))
        CTX.prove_eq("left end first", x[0], Sc.of(0))
        CTX.prove_eq("right end second", x[1], Sc.of(1))
        for i in range(q):
            CTX.prove("weight %d is positive" % i, cmp_("<", 0, w[i]))
        for i in range(2, q):
            CTX.prove("interior points lie inside", cmp_("<", 0, x[i]) & cmp_("<", x[i], 1))
            for j in range(2, i):
                CTX.prove("points are distinct", cmp_("<", x[i], x[j]) | cmp_("<", x[j], x[i]))
        for d in range(2 * q - 2):
            CTX.prove_eq("exact for degree %d" % d, sum((wi * xi ** d for wi, xi in zip(w, x)), Sc.of(0)), Sc.of(1) / (d + 1))
        CTX.cover("quadrature")
    return fn


# --------------------------------------------------------------- nodal basis
class Interp:
    """contract of scipy's BarycentricInterpolator: the interpolating polynomial and its derivative"""

    def __init__(self, xi, yi=None, axis=0, **k):
        self.x = [Sc.of(v) for v in np.ravel(xi)]
        self.y = as_fd(yi)
        if self.y.ndim != 2 or axis != 0 or k:
            raise Unsupported("interpolation of other data")

    def _at(self, f, pts):
        pts = as_fd(pts)
        n, y = len(self.x), self.y
        return Fd(pts.dims + (y.dims[1],), lambda *k: sum((f(self.x, j, pts(*k[:-1])) * y(j, k[-1]) for j in range(n)), Sc.of(0)))

    def __call__(self, pts):
        return self._at(lagrange, pts)

    def derivative(self, pts, der=1):
        if der != 1:
            raise Unsupported("higher derivative")
        return self._at(dlagrange, pts)


def lagrange(x, j, z):
    r = Sc.of(1)
    for i in range(len(x)):
        if i != j:
            r = r * (z - x[i]) / (x[j] - x[i])
    return r


def dlagrange(x, j, z):
    r = Sc.of(0)
    for l in range(len(x)):
        if l == j:
            continue
        t = Sc.of(1) / (x[j] - x[l])
        for i in range(len(x)):
            if i not in (j, l):
                t = t * (z - x[i]) / (x[j] - x[i])
        r = r + t
    return r


def element_world(p):
    W = install(make_world())
    W.libs["scipy.interpolate"].BarycentricInterpolator = Interp
    el = W.load(P + "element_line_pp_nodal")
    X, _ = el.GLL_quad()(p + 1)
    return W, el, [Sc.of(X[0, i]) for i in range(p + 1)]


def basis(p):
    def fn():
        W, el, x = element_world(p)
        e = call("ElementLinePp_nodal.__init__", el.ElementLinePp_nodal, p)
        CTX.prove_eq("interior degrees of freedom", Sc.of(e.interior_dofs), Sc.of(p - 1))
        CTX.prove_eq("polynomial degree", Sc.of(e.maxdeg), Sc.of(p))
        for i in range(p + 1):
            CTX.prove_eq("degree of freedom %d sits at its node" % i, Sc.of(e.doflocs[i, 0]), x[i])
        CTX.prove("one name per degree of freedom of an element end and interior", B.of(len(e.dofnames) == p))
        M = integer("points", 1)
        k = integer("k", 0)
        CTX.assume(cmp_("<", k, M))
        X = Fd((1, M), lambda c, q: Sc.app("X", q))
        z = X(0, k)
        tot, dtot = Sc.of(0), Sc.of(0)
        for i in range(p + 1):
            v, d = call("ElementLinePp_nodal.lbasis", e.lbasis, X, i)
            CTX.prove_eq("one value per point", Sc.of(v.shape[0]), M)
            CTX.prove("one derivative per point", B.of(d.ndim == 2 and same(d.dims[0], 1) and same(d.dims[1], M)))
            CTX.prove_eq("basis function %d" % i, v(k), lagrange(x, i, z))
            CTX.prove_eq("derivative of basis function %d" % i, d(0, k), dlagrange(x, i, z))
            tot, dtot = tot + v(k), dtot + d(0, k)
        CTX.prove_eq("the basis sums to one", tot, Sc.of(1))
        CTX.prove_eq("the derivatives sum to zero", dtot, Sc.of(0))
        for i in range(p + 1):
            for j in range(p + 1):
                CTX.prove_eq("one at its own node, zero at the others", lagrange(x, i, x[j]), Sc.of(1 if i == j else 0))
        CTX.cover("basis")
    return fn


def history(p):
    """evaluations at other points in between do not matter"""
    def fn():
        W, el, x = element_world(p)
        e = el.ElementLinePp_nodal(p)
        M1, M2, k = integer("points 1", 1), integer("points 2", 1), integer("k", 0)
        CTX.assume(cmp_("<", k, M1))
        CTX.assume(cmp_("<", k, M2))
        fields.GENERIC[:] = [(Sc.of(0), k)]
        X1, X2 = Fd((1, M1), lambda c, q: Sc.app("X1", q)), Fd((1, M2), lambda c, q: Sc.app("X2", q))
        i = p // 2
        e.lbasis(X1, 0)
        for X, nm in ((X2, "second"), (X1, "first"), (X1, "first")):
            v, d = call("ElementLinePp_nodal.lbasis", e.lbasis, X, i)
            CTX.prove_eq("value at the %s points" % nm, v(k), lagrange(x, i, X(0, k)))
            CTX.prove_eq("derivative at the %s points" % nm, d(0, k), dlagrange(x, i, X(0, k)))
        fields.GENERIC[:] = []
        CTX.cover("evaluated")
    return fn


def evaluated_state(e, before, X, k):
    """what an evaluation left in the element, at generic points; None where it left the attribute alone"""
    out = {}
    for n in sorted(vars(e)):
        v = vars(e)[n]
        if n in before and v is before[n]:
            continue
        if v is X:
            raise Unsupported("the element keeps the caller's array")
        if isinstance(v, Fd):
            if v.ndim > 3:
                raise Unsupported("state of an unrecognised shape")
            gen = [k if same(d, X.dims[1]) else None for d in v.dims]
            fixed = [range(1) if g is not None else range(d) if isinstance(d, int) else None for g, d in zip(gen, v.dims)]
            if None in fixed or sum(g is not None for g in gen) > 1:
                raise Unsupported("state of an unrecognised shape")
            import itertools
            out[n] = (v.dims, [v(*[k if g is not None else i for g, i in zip(gen, ix)]) for ix in itertools.product(*fixed)])
        elif v is None or isinstance(v, (int, Sc, bool)):
            out[n] = (None, v)
        else:
            raise Unsupported("state %s of an unrecognised kind" % n)
    return out


def history_any(p):
    """induction over the history: whatever was evaluated last, an evaluation leaves the element in the state a new
    element has after that evaluation alone, and returns the same values"""
    def fn():
        W, el, x = element_world(p)
        M1, M2, k = integer("points 1", 1), integer("points 2", 1), integer("k", 0)
        CTX.assume(cmp_("<", k, M1))
        CTX.assume(cmp_("<", k, M2))
        fields.GENERIC[:] = [(Sc.of(0), k)]
        X1, X2 = Fd((1, M1), lambda c, q: Sc.app("X1", q)), Fd((1, M2), lambda c, q: Sc.app("X2", q))
        e, f = el.ElementLinePp_nodal(p), el.ElementLinePp_nodal(p)
        i = next((j for j in range(p) if CTX.choose("basis function %d" % j)), p)
        new_e, new_f = dict(vars(e)), dict(vars(f))
        e.lbasis(X1, p - i)                                # arbitrary last evaluation
        one = evaluated_state(e, new_e, X1, k)
        v, d = call("ElementLinePp_nodal.lbasis", e.lbasis, X2, i)
        CTX.prove_eq("value after any history", v(k), lagrange(x, i, X2(0, k)))
        CTX.prove_eq("derivative after any history", d(0, k), dlagrange(x, i, X2(0, k)))
        f.lbasis(X2, i)
        two, ref = evaluated_state(e, new_e, X2, k), evaluated_state(f, new_f, X2, k)
        if set(two) != set(ref) or set(one) != set(ref):
            raise Unsupported("which attributes are kept depends on the history")
        for n in sorted(ref):
            if ref[n][0] is None:
                CTX.prove("state %s depends on the last evaluation only" % n, B.of(two[n][1] is ref[n][1] or same(two[n][1], ref[n][1])))
                continue
            if not isinstance(two[n][0], tuple) or not all(same(a, b) for a, b in zip(two[n][0], ref[n][0])):
                raise Unsupported("state of another shape after another history")
            for a, b in zip(two[n][1], ref[n][1]):
                CTX.prove_eq("state %s depends on the last evaluation only" % n, a, b)
        fields.GENERIC[:] = []
        CTX.cover("evaluated")
    return fn


# ----------------------------------------------------------- affine systems
def affine(cls, dirichlet):
    def fn():
        W, m = world("advection_diffusion_1d")
        jax = W.libs["jax"]

        def grad(f, *a, **k):
            if a or k:
                raise Unsupported("grad with other arguments")

            def g(t):
                return terms.diff(Sc.of(f(t)), t)
            return g
        jax.grad = grad
        N = integer("N", 1)
        S = Assembler(N, dirichlet)
        s = call(cls + ".__init__", getattr(m, cls), S)
        u = Fd((N,), lambda q: Sc.app("u", q))
        t = real("t")
        got = call(cls + ".frhs", s.frhs, t, u)
        i = integer("i", 0)
        CTX.assume(cmp_("<", i, N))
        Au = S.A.apply(lambda kap: u.f(kap), i)
        CTX.prove_eq("linear part applied to the state", call(cls + ".fl", s.fl, t, u).matvec(u)(i), -Au / S.Ml(i))
        CTX.prove_eq("mass operator", call(cls + ".fm", s.fm, t, u).matvec(u)(i), S.Ml(i) * u(i))
        if dirichlet and bool(S.isD(i)):
            want = Sc.of(0)
            if cls == "NonautonomousSEM":
                # d/dt exp(-(dist(0, 3/10 + t/2) / (1/10))^2), dist the distance on the circle of length 1
                w = Sc.lit("0.3") + t / 2
                s = w - floor_(w)
                CTX.assume(~cmp_("==", s, Sc.of(1) / 2))
                near = bool(cmp_("<=", s, Sc.of(1) / 2))
                d = s if near else 1 - s
                want = exp_(-100 * d * d) * (-200 * d) * (Sc.of(1) if near else Sc.of(-1)) / 2
            CTX.prove_eq("prescribed rate at a Dirichlet node", without_abs(got(i)), want)
            CTX.cover("Dirichlet")
            return
        CTX.prove_eq("(b - A u) / M", got(i), (S.b(i) - Au) / S.Ml(i))
        CTX.cover("interior")
    return fn


def torus_contract():
    """distance on the circle of length one"""
    W, m = world("advection_diffusion_1d")
    x, y = real("x"), real("y")
    d = Sc.of(call("torus_distance", m.torus_distance, x, y))
    k = abs_((x - floor_(x)) - (y - floor_(y)))
    CTX.prove("nonnegative and at most one half", cmp_("<=", 0, d) & cmp_("<=", d, Sc.of(1) / 2))
    CTX.prove("the shorter way round", cmp_("==", d, k) & cmp_("<=", k, 1 - k) | cmp_("==", d, 1 - k) & cmp_("<=", 1 - k, k))
    CTX.cover("distance")


def tasks():
    T = []
    A, E = "advection_diffusion_1d.", "element_line_pp_nodal."
    for nm in FORMS:
        for ab in (False, True):
            T.append(Task("form-%s-%s" % (nm, "any" if ab else "shipped"), form(nm, ab), [A + nm, A + "tau_upwind_f", A + "vel_f", A + "src_f"], covers=["form"]))
    T.append(Task("consistency", consistency, [A + "adv_diff_cons_supg", A + "mass_supg", A + "rhs_supg"], covers=["form"]))
    T.append(Task("upwind", upwind, [A + "tau_upwind_f", A + "adv_diff_cons_supg"], covers=["form"]))
    for per in (False, True):
        for fg in (False, True):
            T.append(Task("assembly-%s%s" % ("periodic" if per else "dirichlet", "-fields" if fg else ""), assembly(per, fg),
                          [A + "AdDiffSEM.__init__", A + "AdDiffSEM.assemble", A + "AdDiffSEM.w_ext"], covers=["assembled"]))
    for q in (2, 3, 4, 5):
        T.append(Task("quadrature-%d" % q, quadrature(q), [E + "GLL_quad.__init__", E + "GLL_quad.__call__"], covers=["quadrature"]))
    for p in (1, 2, 3, 4):
        T.append(Task("basis-%d" % p, basis(p), [E + "ElementLinePp_nodal.__init__", E + "ElementLinePp_nodal.lbasis", E + "ElementLinePp_nodal._reval_legendre"], covers=["basis"]))
        T.append(Task("history-%d" % p, history(p), [E + "ElementLinePp_nodal.lbasis"], covers=["evaluated"], bounded="four successive evaluations at two sets of points (any history: history-any-%d)" % p))
        T.append(Task("history-any-%d" % p, history_any(p), [E + "ElementLinePp_nodal.lbasis"], covers=["evaluated"]))
    for c in ("AffineLinearSEM", "NonautonomousSEM"):
        for d in (True, False):
            T.append(Task("%s-%s" % (c, "dirichlet" if d else "periodic"), affine(c, d), [A + c + "._frhs", A + "AffineLinearSEM._fl", A + "AffineLinearSEM._fm"],
                          covers=["interior"] + (["Dirichlet"] if d else [])))
    T.append(Task("torus", torus_contract, [A + "torus_distance"], covers=["distance"]))
    return T
