"""C07: generic linear operators act as the matrices they stand for."""
from .common import *


def forms(op, v, want, lab=""):
    """every calling form gives the same product"""
    CTX.prove_eq(lab + "matvec", call("matvec", op.matvec, v), want)
    CTX.prove_eq(lab + "call", call("__call__", op, v), want)
    CTX.prove_eq(lab + "numpy-compatible matvec", call("npcompat", op.matvec_npcompat, v), want)


def world():
    W = make_world()
    return W, W.load("ormatex_py.ode_sys")


def eye():
    W, m = world()
    n = integer("n", 1)
    v = Arr.vec("v", n)
    op = call("constructor", m.EyeLinOp, n)
    forms(op, v, v)
    CTX.prove_eq("dense", call("dense", op.dense), Arr.eye(n))
    CTX.cover("op")


def diagonal():
    W, m = world()
    n = integer("n", 1)
    v, d = Arr.vec("v", n), Arr.vec("d", n)
    op = call("constructor", m.DiagLinOp, d)
    forms(op, v, lin.diag(d) @ v)
    CTX.prove_eq("dense", call("dense", op.dense), lin.diag(d))
    CTX.cover("op")


def matrix():
    W, m = world()
    n = integer("n", 1)
    v, a = Arr.vec("v", n), Arr.mat("a", n)
    op = call("constructor", m.MatrixLinOp, a)
    forms(op, v, a @ v)
    CTX.prove_eq("dense", call("dense", op.dense), a)
    CTX.cover("op")


def sparse():
    W, m = world()
    n = integer("n", 1)
    v, a = Arr.vec("v", n), Arr.mat("a", n)
    J = W.libs["jax.experimental.sparse"].JAXSparse

    class Sp(J):
        shape = (n, n)
        ndim = 2

        def __matmul__(self, x):
            return a @ x

        def todense(self):
            return a
    op = call("constructor", m.MatrixLinOp, Sp())
    forms(op, v, a @ v)
    CTX.prove_eq("dense", call("dense", op.dense), a)
    CTX.cover("op")


def rejected(name, f):
    try:
        f()
        ok = False
    except (AssertionError, ValueError, TypeError):
        ok = True
    CTX.prove(name, B.of(ok))


def shapes():
    W, m = world()
    n, k = integer("n", 1), integer("k", 1)
    CTX.assume(~cmp_("==", n, k))
    rejected("a matrix that is not square is rejected", lambda: m.MatrixLinOp(Arr.mat("a", n, k)))
    rejected("a vector is rejected", lambda: m.MatrixLinOp(Arr.vec("a", n)))
    op = m.MatrixLinOp(Arr.mat("a", n))
    p, q = integer("p", 1), integer("q", 1)
    CTX.assume(~cmp_("==", p, q))
    rejected("augmentation: a block narrower or wider than K is rejected",
             lambda: m.AugMatrixLinOp(op, Sc.of(1), Arr.mat("B", n, p), Arr.mat("K", q)))
    rejected("augmentation: K must be square (rows)", lambda: m.AugMatrixLinOp(op, Sc.of(1), Arr.mat("B", n, p), Arr.mat("K", p, q)))
    rejected("augmentation: K must be square (columns)", lambda: m.AugMatrixLinOp(op, Sc.of(1), Arr.mat("B", n, p), Arr.mat("K", q, p)))
    CTX.cover("op")


def augmented(inner):
    def fn():
        W, m = world()
        n, p = integer("n", 1), integer("p", 1)
        dt = real("dt")
        Bm, K = Arr.mat("B", n, p), Arr.mat("K", p)
        v = lin.concat([Arr.vec("v1", n), Arr.vec("v2", p)])
        if inner == "matrix":
            A = Arr.mat("A", n)
            op = m.MatrixLinOp(A)
        elif inner == "diagonal":
            d = Arr.vec("d", n)
            A, op = lin.diag(d), m.DiagLinOp(d)
        elif inner == "identity":
            A, op = Arr.eye(n), m.EyeLinOp(n)
        else:
            # any callable operator
            A = Arr.mat("A", n)

            class Any(m.LinOp):
                def _matvec(self, x):
                    return A @ x

                def _dense(self):
                    return A
            op = Any()
        aug = call("constructor", m.AugMatrixLinOp, op, dt, Bm, K)
        M = lin.block([[A * dt, Bm], [Arr.zeros((p, n)), K]])
        forms(aug, v, M @ v)
        # the blocks are used as given: once more with another vector
        w = lin.concat([Arr.vec("w1", n), Arr.vec("w2", p)])
        forms(aug, w, M @ w, "second vector: ")
        CTX.cover("op")
    return fn


def tasks():
    o = "ode_sys."
    L = [o + "LinOp.matvec", o + "LinOp.__call__", o + "LinOp.matvec_npcompat", o + "LinOp.dense"]
    T = [Task("identity", eye, [o + "EyeLinOp"] + L, covers=["op"]),
         Task("diagonal", diagonal, [o + "DiagLinOp"] + L, covers=["op"]),
         Task("matrix", matrix, [o + "MatrixLinOp"] + L, covers=["op"]),
         Task("sparse-matrix", sparse, [o + "MatrixLinOp"] + L, covers=["op"]),
         Task("shapes", shapes, [o + "MatrixLinOp.__init__", o + "AugMatrixLinOp.__init__"], covers=["op"])]
    for i in ("matrix", "diagonal", "identity", "any"):
        T.append(Task("augmented-" + i, augmented(i), [o + "AugMatrixLinOp"] + L, covers=["op"]))
    return T
