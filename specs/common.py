"""Shared vocabulary of the specifications: abstract systems, library-level spec
functions (phi_k, ...), contracts put at call sites, and task records."""
import math
import sys
from fractions import Fraction

from ovc import terms, lin, lib, explore, load
from ovc.terms import Sc, B, Unsupported, cmp_
from ovc.lin import Arr, EArr, PArr, Op, LT, KA, Stack3, psum
from ovc.explore import CTX, PathEnd, Infeasible

Q = Fraction


class Task:
    """one function (or method) under contract"""

    def __init__(self, name, fn, functions=(), cap=None, budget=None, covers=(), weight=1, tier="quick", bounded=None):
        self.name, self.fn = name, fn
        self.functions = list(functions)
        self.cap, self.budget = cap, budget
        self.covers = list(covers)
        self.weight = weight
        self.tier = tier
        self.bounded = bounded      # bound of a stand-in for an unbounded parameter: reported apart, never counted as proved


class Violated(Exception):
    pass


def pos(name):
    return Sc.sym(name, pos=True)


def real(name):
    return Sc.sym(name)


def step_size(name):
    """an arbitrary nonzero step size (negative: backwards in time)"""
    s = Sc.sym(name)
    CTX.assume(~cmp_("==", s, 0))
    return s


def integer(name, lo=None, hi=None):
    s = Sc.sym(name, "I", nonneg=(lo is not None and lo >= 0), pos=(lo is not None and lo > 0))
    if lo is not None:
        CTX.assume(cmp_("<=", lo, s))
    if hi is not None:
        CTX.assume(cmp_("<=", s, hi))
    return s


def vec_app(name, n, *args):
    """uninterpreted vector-valued function applied to args"""
    return Arr.from_op(Op.get("sym", name, lin._dim(n), Sc.of(1), tuple(_arg(a) for a in args)), 1)


def mat_app(name, n, *args):
    return Arr.from_op(Op.get("sym", name, lin._dim(n), lin._dim(n), tuple(_arg(a) for a in args)), 2)


def _arg(a):
    if isinstance(a, Arr):
        return KA(a)
    if isinstance(a, EArr):
        return KA(lin.from_earr(a))
    if isinstance(a, (int, float, Fraction)):
        return Sc.of(a)
    return a


# ------------------------------------------------------------------ denotation
def denote(f, n):
    """matrix of a linear function, from its action on a generic vector of length n
    (n: a dimension, or the list of dimensions of the blocks of the vector)"""
    parts = [Sc.of(d) for d in n] if isinstance(n, (list, tuple)) else [Sc.of(n)]
    parts = [d for d in parts if d.p]
    if len(parts) == 1:
        return lib.vmap(f, in_axes=1, out_axes=1)(Arr.eye(parts[0]))
    gen = [lib._generic_col(d) for d in parts]
    zero = [Arr.zeros((d,)) for d in parts]
    cols = []
    for i, d in enumerate(parts):
        v = lin.concat([gen[j][0] if j == i else zero[j] for j in range(len(parts))])
        cols.append(lib._coefficient(f(v), gen[i], d))
    M = lin.hcat(cols)
    full = lin.concat([g[0] for g in gen])
    if lin.compare(CTX, f(full), M @ full)[0] != "proved":
        raise Unsupported("operator is not linear")
    return M


def phik(k, m):
    """spec function phi_k of a matrix"""
    return lin.phi(k, m)


# ------------------------------------------------------------- abstract systems
def make_world():
    return load.World()


def abstract_system(W, n, tag="", split=False, kw_seen=None):
    """an arbitrary OdeSys: F, J, dF/dt (and L) are uninterpreted functions of (t, u)"""
    ode = W.load("ormatex_py.ode_sys")
    LinOp = ode.LinOp

    class AbsOp(LinOp):
        def __init__(self, m, t, u, jac):
            self.m, self.t, self.u, self.jac = m, t, u, jac

        def _matvec(self, v):
            return self.m @ v

        def _dense(self):
            return self.m

        def _fdt(self):
            if not self.jac:
                raise Unsupported("time derivative of a split operator")
            return vec_app("dFdt" + tag, n, self.t, self.u)

        def _frhs_cached(self):
            if not self.jac:
                raise Unsupported("cached rhs of a split operator")
            return vec_app("F" + tag, n, self.t, self.u)

    base = ode.OdeSplitSys if split else ode.OdeSys

    class AbsSys(base):
        def __init__(self):
            super().__init__()

        def _frhs(self, t, u, **kw):
            if kw_seen is not None:
                kw_seen.append(("frhs", kw))
            return vec_app("F" + tag, n, t, u)

        def _fjac(self, t, u, **kw):
            if kw_seen is not None:
                kw_seen.append(("fjac", kw))
            return AbsOp(mat_app("J" + tag, n, t, u), t, u, True)

        def _fl(self, t, u, **kw):
            return AbsOp(mat_app("L" + tag, n, t, u), t, u, False)

    s = AbsSys()
    s.F = lambda t, u: vec_app("F" + tag, n, t, u)
    s.J = lambda t, u: mat_app("J" + tag, n, t, u)
    s.Ft = lambda t, u: vec_app("dFdt" + tag, n, t, u)
    s.L = lambda t, u: mat_app("L" + tag, n, t, u)
    return s


# ------------------------------------------------------------ call-site contracts
def used(name):
    CTX.contracts_used[name] = CTX.contracts_used.get(name, 0) + 1


class KrylovCfg:
    """what the configured Krylov parameters are; calls must pass them on"""
    m = None
    iom = None


def check_cfg(who, m, iom):
    if KrylovCfg.m is not None:
        CTX.prove_eq("%s-uses-configured-krylov-dimension" % who, m, KrylovCfg.m)
    if KrylovCfg.iom is not None:
        CTX.prove_eq("%s-uses-configured-orthogonalisation-depth" % who, iom, KrylovCfg.iom)


def c_phi_linop(a_lo, dt, v0, k, max_krylov_dim, iom=100):
    """contract of phi_linop: phi_k(dt A) v0   (C12)"""
    used("phi_linop")
    check_cfg("phi_linop", max_krylov_dim, iom)
    A = denote(a_lo, v0.rp)
    k = int(Sc.of(k))
    return phik(k, A * dt) @ v0


def c_matexp_linop(a_lo, dt, v0, max_krylov_dim, iom=100):
    used("matexp_linop")
    check_cfg("matexp_linop", max_krylov_dim, iom)
    if any(not Sc.of(d).is_const() for d in v0.rp[1:]):
        return shifted_exponential(a_lo, dt, v0)
    return phik(0, denote(a_lo, v0.rp) * dt) @ v0


def unit_end(y, last):
    """c with y = c e_last (or c e_0), None when y is not of that form"""
    t = psum(y.rp)
    c = y[t - 1] if last else y[0]
    e = lib.zeros((t,))
    if terms._scalarish(c) and lin.compare(CTX, y, lin.setitem(e, t - 1 if last else 0, c))[0] == "proved":
        return Sc.of(c)
    return None


def shifted_exponential(f, dt, v0):
    """exp of the operator f (times dt) on v0, where f is [[Z, B], [0, K]] on vectors of length n + p, K the p x p shift
    (one up, v0 = (x, c e_last): K^i e_last = e_{p-1-i}; or one down with the columns of B in opposite order).
    Block exponential lemma: the leading block is phi_0(Z) x + c sum_i phi_{i+1}(Z) B K^i e; nothing is said of the rest."""
    if not isinstance(dt, (int, float)) and lin.compare(CTX, Sc.of(dt), Sc.of(1))[0] != "proved":
        raise Unsupported("scaled augmented operator")
    n, p = v0.rp[0], psum(v0.rp[1:])
    gx, gy = lib._generic_col(n), lib._generic_col(p)
    top = f(lin.concat([gx[0], lin.Arr.zeros((p,))]))
    Z = lib._coefficient(top[0:n], gx, n)
    bot = f(lin.concat([lin.Arr.zeros((n,)), gy[0]]))
    Bm = lib._coefficient(bot[0:n], gy, p)
    full = f(lin.concat([gx[0], gy[0]]))
    for last in (True, False):
        y = gy[0]
        k = lin.concat([y[1:], Arr.zeros((1,))]) if last else lin.concat([Arr.zeros((1,)), y[:p - 1]])
        want = lin.concat([Z @ gx[0] + Bm @ y, k])
        if lin.compare(CTX, full, want)[0] == "proved":
            c = unit_end(v0[n:], last)
            if c is None:
                continue
            CTX.note("lemma block-exponential: leading block of exp[[Z,B],[0,K]] (x, y) is exp(Z) x + sum_i phi_{i+1}(Z) B K^i y")
            C = lin.flip_cols(Bm) if last else Bm
            r = phik(0, Z) @ v0[0:n] + lin.shift_sum(Z, C) * c
            return lin.concat([r, Arr.from_op(Op.get("sym", terms.fresh_name("tail"), p, Sc.of(1)), 1)])
    raise Unsupported("exponential of an operator of symbolic size that is not [[Z, B], [0, shift]]")


def c_kiops(a_lo, dt, vb, max_krylov_dim, iom=100, n_steps=1):
    """contract of kiops_fixedsteps: sum_j phi_j(dt A) b_j   (C13)"""
    used("kiops_fixedsteps")
    check_cfg("kiops_fixedsteps", max_krylov_dim, iom)
    A = denote(a_lo, vb[0].shape[0]) * dt
    r = None
    for j, b in enumerate(vb):
        x = phik(j, A) @ b
        r = x if r is None else r + x
    return r


def c_sq_all(z, k):
    """contract of f_phi_k_sq_all: [phi_0(Z), ..., phi_k(Z)]   (C08)"""
    used("f_phi_k_sq_all")
    CTX.prove("f_phi_k_sq_all-pre: 0 <= k <= 3", cmp_("<=", 0, Sc.of(k)) & cmp_("<=", Sc.of(k), 3))
    return [phik(j, z) for j in range(int(Sc.of(k)) + 1)]


def c_sq(z, k, return_all=False):
    used("f_phi_k_sq")
    if return_all:
        return Stack3(c_sq_all(z, k), 0)
    CTX.prove("f_phi_k_sq-pre: 0 <= k <= 3", cmp_("<=", 0, Sc.of(k)) & cmp_("<=", Sc.of(k), 3))
    return phik(int(Sc.of(k)), z)


def order(k):
    k = Sc.of(k)
    return int(k) if k.is_const() else k


def c_ext(z, k, return_all=False):
    used("f_phi_k_ext")
    k = order(k)
    if return_all:
        return Stack3([phik(j, z) for j in range(k + 1)], 0)
    return phik(k, z)


class PfdCfg:
    method = None


def c_pfd(z, b, k, method):
    """contract of f_phi_k_pfd: phi_k(Z) B by the named table   (C09, C10)"""
    used("f_phi_k_pfd")
    if PfdCfg.method is not None:
        CTX.prove("pfd-table-is-the-configured-one", B.of(method == PfdCfg.method))
    CTX.prove("f_phi_k_appl-pre: k >= 0", cmp_("<=", 0, Sc.of(k)))
    return phik(order(k), z) @ b


def c_appl(z, b, k):
    used("f_phi_k_appl")
    CTX.prove("f_phi_k_appl-pre: k >= 0", cmp_("<=", 0, Sc.of(k)))
    return phik(order(k), z) @ b


def install_phi_contracts(W):
    """replace the phi evaluators by their contracts at every call site"""
    mk = W.load("ormatex_py.matexp_krylov")
    mp = W.load("ormatex_py.matexp_phi")
    for m in ("ode_exp", "ode_explicit", "integrate_wrapper"):
        W.load("ormatex_py." + m)
    for mod, nm, c in ((mk, "phi_linop", c_phi_linop), (mk, "matexp_linop", c_matexp_linop),
                       (mk, "kiops_fixedsteps", c_kiops), (mp, "f_phi_k_sq_all", c_sq_all),
                       (mp, "f_phi_k_sq", c_sq), (mp, "f_phi_k_ext", c_ext), (mp, "f_phi_k_pfd", c_pfd),
                       (mp, "f_phi_k_appl", c_appl)):
        f = getattr(mod, nm, None)
        if f is not None:
            W.replace(f, c)


def call(name, f, *a, **k):
    """run repository code; an exception it raises refutes the obligation `name: returns`"""
    try:
        return f(*a, **k)
    except (Unsupported, PathEnd, Infeasible):
        raise
    except (AssertionError, RuntimeError, NotImplementedError, ValueError, KeyError, AttributeError, TypeError, IndexError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1]
        inrepo = load.REPO in last.filename
        if inrepo and isinstance(e, (AssertionError, RuntimeError, NotImplementedError, ValueError, KeyError, IndexError)):
            CTX._rec(name + ": returns normally", "refuted", "path", __import__("time").time(),
                     "%s: %s at %s:%s" % (type(e).__name__, e, last.filename, last.lineno))
            raise PathEnd()
        raise Unsupported("%s: %s at %s:%s" % (type(e).__name__, e, last.filename, last.lineno))
