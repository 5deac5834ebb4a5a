"""C12: Krylov phi products are the projected phi function of the operator."""
from .common import *


def c_arnoldi(m, iom):
    """contract of arnoldi_lop: basis and projection of s*A for the direction of b (C11)"""
    def c(a_lo, a_scale, b, m_, iom_):
        used("arnoldi_lop")
        CTX.prove_eq("arnoldi_lop-uses-requested-dimension", Sc.of(m_), m)
        CTX.prove_eq("arnoldi_lop-uses-requested-depth", Sc.of(iom_), iom)
        nb = lib.norm(b)
        CTX.prove("arnoldi_lop-pre: nonzero start vector", cmp_("<", 0, nb))
        return basis(denote(a_lo, b.rp) * a_scale, b / nb)
    return c


def basis(M, d):
    n = M.shape[0]
    j = Sc.app("krylov_dim", KA(M), KA(d), sort="I", nonneg=True, pos=True)
    CTX.assume(cmp_("<=", 1, j))
    CTX.assume(cmp_("<=", j, n))
    if bool(cmp_("==", j, 1)):
        j = Sc.of(1)
    Q = Arr.from_op(Op.get("sym", "Q", Sc.of(n), j, (KA(M), KA(d))), 2)
    H = Arr.from_op(Op.get("sym", "H", j, j, (KA(M), KA(d))), 2)
    return Q, H


def setup():
    W = make_world()
    mk = W.load("ormatex_py.matexp_krylov")
    mp = W.load("ormatex_py.matexp_phi")
    ode = W.load("ormatex_py.ode_sys")
    n = integer("n", 1)
    A = Arr.mat("A", n)

    class Any(ode.LinOp):
        def _matvec(self, x):
            return A @ x

        def _dense(self):
            return A
    m, iom = integer("mdim", 1), integer("iom", 1)
    W.replace(mk.arnoldi_lop, c_arnoldi(m, iom))
    for nm, c in (("f_phi_k_appl", c_appl), ("f_phi_k_sq", c_sq), ("f_phi_k_ext", c_ext), ("f_phi_k_sq_all", c_sq_all)):
        f = getattr(mp, nm, None)
        if f is not None:
            W.replace(f, c)
    return W, mk, n, A, Any(), m, iom


def e1(j):
    return Arr.eye(j)[:, 0]


def want(A, dt, v, k):
    nv = lib.norm(v)
    Q, H = basis(A * dt, v / nv)
    return (Q @ (phik(k, H) @ e1(H.shape[0]))) * nv


def product(k, expo=False):
    def fn(k=k):
        k = integer("k", 0) if k is None else k
        CTX.strict_div = True
        W, mk, n, A, op, m, iom = setup()
        dt, v = real("dt"), Arr.vec("v", n)
        CTX.assume(cmp_("<", 0, lib.norm(v)))
        if expo:
            got = call("matexp_linop", mk.matexp_linop, op, dt, v, m, iom)
        else:
            got = call("phi_linop", mk.phi_linop, op, dt, v, k, m, iom)
        CTX.prove_eq("result = |v| Q phi_k(H) e_1", got, want(A, dt, v, k))
        CTX.cover("nonzero vector")
    return fn


def scaled(k):
    def fn(k=k):
        k = integer("k", 0) if k is None else k
        CTX.strict_div = True
        W, mk, n, A, op, m, iom = setup()
        dt, v, s = real("dt"), Arr.vec("v", n), pos("s")
        CTX.assume(cmp_("<", 0, lib.norm(v)))
        a = call("phi_linop", mk.phi_linop, op, dt, v, k, m, iom)
        b = call("phi_linop", mk.phi_linop, op, dt, v * s, k, m, iom)
        CTX.prove_eq("scaling the vector scales the result", b, a * s)
        CTX.cover("scaled")
    return fn


def zero(k):
    def fn(k=k):
        k = integer("k", 0) if k is None else k
        CTX.strict_div = True
        W, mk, n, A, op, m, iom = setup()
        got = call("phi_linop", mk.phi_linop, op, real("dt"), Arr.zeros((n,)), k, m, iom)
        CTX.prove_eq("zero vector gives the zero vector", got, Arr.zeros((n,)))
        CTX.cover("zero vector")
    return fn


def tasks():
    f = ["matexp_krylov.phi_linop"]
    T = [Task("phi-any-order", product(None), f, covers=["nonzero vector"]),
         Task("zero-phi-any-order", zero(None), f, covers=["zero vector"]),
         Task("scaled-phi-any-order", scaled(None), f, covers=["scaled"])]
    for k in range(0, 6):
        T.append(Task("phi%d" % k, product(k), f, covers=["nonzero vector"], bounded="this order k only (any-order tasks: every k)"))
        T.append(Task("zero-phi%d" % k, zero(k), f, covers=["zero vector"], bounded="this order k only (any-order tasks: every k)"))
        T.append(Task("scaled-phi%d" % k, scaled(k), f, covers=["scaled"], bounded="this order k only (any-order tasks: every k)"))
    T.append(Task("exponential", product(0, True), f + ["matexp_krylov.matexp_linop"], covers=["nonzero vector"]))
    return T
