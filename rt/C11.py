"""C11 on the real code: Arnoldi relation, orthonormality, truncation on breakdown."""
from .common import *


def op(A):
    return mod("ode_sys").MatrixLinOp(jnp.asarray(A))


def check(A, s, b, m, iom, case, brk=None, tol=1e-9, otol=1e-8):
    f = need("arnoldi_jax", "arnoldi_lop")
    n = len(b)
    case.update(A=A, s=s, b=b, m=m, iom=iom)
    Q, H = f(op(A), s, jnp.asarray(b), m, iom)
    Q, H = np.asarray(Q), np.asarray(H)
    k = Q.shape[1]
    require("shapes", Q.shape == (n, k) and H.shape == (k, k), (Q.shape, H.shape))
    require("at most min(m, n) columns", k <= min(m, n), (k, m, n))
    if not np.any(b):
        require("nothing is built from the zero vector", k == 0, k)
        return
    require("all columns unless broken down", k == (brk if brk is not None else min(m, n)), (k, brk, m, n))
    require("finite", np.all(np.isfinite(Q)) and np.all(np.isfinite(H)))
    close("first column", Q[:, 0], b / np.linalg.norm(b), 1e-12)
    M = s * A
    sc = float(np.linalg.norm(M)) or 1.0       # the relation holds relative to the operator, however small it is
    require("zeros below the subdiagonal", np.all(np.tril(H, -2) == 0), H)
    for j in range(k):
        lo = max(j - iom, 0)
        require("band of the incomplete orthogonalisation", np.all(H[:lo, j] == 0), (j, H[:, j]))
        r = M @ Q[:, j]
        if j + 1 < k:
            close("relation for column %d" % j, Q[:, :j + 2] @ H[:j + 2, j], r, tol, tol * sc)
            w = r - Q[:, :j + 1] @ H[:j + 1, j]
            close("subdiagonal %d" % j, H[j + 1, j], np.linalg.norm(w), 1e-8, 1e-9 * sc)
            close("unit column %d" % (j + 1), np.linalg.norm(Q[:, j + 1]), 1.0, 1e-10)
            if H[j + 1, j] > 1e-4 * sc:
                close("column %d orthogonal to its window" % (j + 1), Q[:, lo:j + 1].T @ Q[:, j + 1], np.zeros(j + 1 - lo), 0, otol)
    if iom >= k - 1 and np.all(np.abs(np.diag(H, -1)) > 1e-4 * sc):
        close("orthonormal", Q.T @ Q, np.eye(k), 0, 10 * otol)
        close("projection", H, Q.T @ M @ Q, 10 * otol, 10 * otol * sc)


@contract("generic operators and start vectors", quick=8, thorough=60)
def c_generic(rng, case):
    n = int(rng.integers(1, 10))
    m = int(rng.integers(1, 13))
    iom = int(rng.choice([0, 1, 2, 3, 100]))
    check(rng.standard_normal((n, n)), float(rng.standard_normal()) + 0.1, 10.0 ** float(rng.uniform(-6, 4)) * rng.standard_normal(n), m, iom, case)


@contract("larger systems", quick=2, thorough=12)
def c_larger(rng, case):
    n, m = int(rng.choice([45, 80, 130])), int(rng.choice([12, 20, 40]))
    iom = int(rng.choice([2, 10, 22, 100]))
    # one pass of modified Gram-Schmidt loses orthogonality as the basis grows
    check(stable_matrix(rng, n) * 10.0 ** float(rng.uniform(-1, 2)), float(rng.uniform(0.1, 2)), rng.standard_normal(n), m, iom, case,
          otol=1e-8 if m <= 20 else 1e-4)


@contract("breakdown on an invariant subspace", quick=5, thorough=30)
def c_break(rng, case):
    n = int(rng.integers(2, 9))
    d = int(rng.integers(1, n))
    if rng.uniform() < 0.5:
        A = np.zeros((n, n))
        A[:d, :d] = np.diag(np.arange(1, d + 1.0)) + 0.3 * np.triu(rng.standard_normal((d, d)), 1)
        A[d:, d:] = rng.standard_normal((n - d, n - d))
        b = np.zeros(n)
        b[:d] = rng.uniform(0.5, 1.5, d)
        p = rng.permutation(n)
        A, b = A[np.ix_(p, p)], b[p]
    else:
        A = np.diag(np.ones(d), -1) if n == d + 1 else np.zeros((n, n))
        for i in range(d - 1):
            A[i + 1, i] = 1.0 + i
        if n == d + 1:
            A[d, d - 1] = 0
        b = np.zeros(n)
        b[0] = 2.0
    m = int(rng.integers(1, n + 3))
    check(A, float(rng.uniform(0.3, 2)), b, m, 100, case, brk=min(d, m), tol=1e-8)


@contract("zero start vector", quick=2, thorough=6)
def c_zero(rng, case):
    n = int(rng.integers(1, 6))
    check(rng.standard_normal((n, n)), 1.0, np.zeros(n), int(rng.integers(1, 6)), 2, case)


@contract("badly scaled operators: a small subdiagonal entry is not a breakdown", quick=4, thorough=20)
def c_scaled(rng, case):
    # cyclic shift with one small coupling (well above rounding, which is 1e-16 of the entries it is made of)
    n = int(rng.integers(2, 7))
    w = 10.0 ** rng.uniform(-1, 3, n)
    w[int(rng.integers(0, n - 1))] = 10.0 ** float(rng.uniform(-10.5, -6))
    A = np.zeros((n, n))
    for i in range(n):
        A[(i + 1) % n, i] = w[i]
    b = np.zeros(n)
    b[0] = 3.0
    check(A, 1.0, b, n, 100, case, tol=1e-12)


@contract("small operators are not breakdowns either", quick=4, thorough=20)
def c_small(rng, case):
    n = int(rng.integers(2, 7))
    A = 10.0 ** float(rng.uniform(-9, -5)) * (np.linalg.qr(rng.standard_normal((n, n)))[0] + 0.5 * rng.standard_normal((n, n)))
    check(A, float(rng.uniform(0.5, 1.5)), rng.standard_normal(n), int(rng.integers(2, n + 1)), int(rng.choice([1, 2, 100])), case, brk=None)


@contract("nearly invariant start vectors", quick=4, thorough=20)
def c_nearly(rng, case):
    # the new direction is many orders of magnitude shorter than the image, but far longer than rounding
    n = int(rng.integers(3, 8))
    A = np.diag(rng.permutation(np.arange(1.0, n + 1)))
    b = np.zeros(n)
    b[0] = 1.0
    b[1:] = 10.0 ** float(rng.uniform(-9, -7.5)) * rng.uniform(0.5, 1.5, n - 1)
    check(A, 1.0, b, 2, 100, case, tol=1e-12)
