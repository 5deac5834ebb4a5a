"""C12 on the real code."""
from .common import *


def krylov(M, b, m, iom):
    """basis and projection by modified Gram-Schmidt against the newest iom+1 vectors"""
    n = len(b)
    m = min(m, n)
    Q, H = np.zeros((n, m)), np.zeros((m, m))
    Q[:, 0] = b / np.linalg.norm(b)
    for k in range(m):
        w = M @ Q[:, k]
        for i in range(max(k - iom, 0), k + 1):
            H[i, k] = w @ Q[:, i]
            w = w - H[i, k] * Q[:, i]
        nw = np.linalg.norm(w)
        if nw <= 1e-12:
            return Q[:, :k + 1], H[:k + 1, :k + 1]
        if k + 1 < m:
            H[k + 1, k] = nw
            Q[:, k + 1] = w / nw
    return Q, H


def matrix(rng, n):
    kind = int(rng.integers(0, 4))
    if kind == 0:                       # nilpotent: every phi argument is singular
        return np.triu(rng.standard_normal((n, n)), 1)
    if kind == 1:                       # rank one
        return np.outer(rng.standard_normal(n), rng.standard_normal(n)) / n
    return stable_matrix(rng, n)


def draw(rng, case):
    n = int(rng.integers(1, 9))
    A, dt, v = matrix(rng, n), float(rng.choice([-1, 1]) * rng.uniform(0.05, 2.5)), rng.standard_normal(n)
    k = int(rng.integers(0, 5))
    case.update(n=n, A=A, dt=dt, v=v, k=k)
    return n, A, dt, v, k


def prod(A, dt, v, k, m, iom):
    o, mk = mod("ode_sys"), mod("matexp_krylov")
    return np.asarray(mk.phi_linop(o.MatrixLinOp(jnp.asarray(A)), dt, jnp.asarray(v), k, m, iom))


@contract("projected phi function with the requested dimension and depth", quick=8, thorough=60)
def c_proj(rng, case):
    n, A, dt, v, k = draw(rng, case)
    A = stable_matrix(rng, n)
    m, iom = int(rng.integers(1, n + 3)), int(rng.integers(1, 5))
    case.update(A=A, m=m, iom=iom)
    Q, H = krylov(dt * A, v, m, iom)
    want = np.linalg.norm(v) * Q @ phi_ref(k, H)[:, 0]
    close("phi_linop", prod(A, dt, v, k, m, iom), want, 3e-5)


@contract("projected exponential with the requested dimension and depth", quick=6, thorough=40)
def c_projexp(rng, case):
    o, mk = mod("ode_sys"), need("matexp_krylov", "matexp_linop")
    n, A, dt, v, k = draw(rng, case)
    A = stable_matrix(rng, n)
    m, iom = int(rng.integers(1, n + 3)), int(rng.integers(1, 5))
    case.update(A=A, m=m, iom=iom)
    Q, H = krylov(dt * A, v, m, iom)
    want = np.linalg.norm(v) * Q @ scipy.linalg.expm(H)[:, 0]
    close("matexp_linop", mk(o.MatrixLinOp(jnp.asarray(A)), dt, jnp.asarray(v), m, iom), want, 3e-5)


@contract("exact on an invariant space", quick=8, thorough=60)
def c_exact(rng, case):
    n, A, dt, v, k = draw(rng, case)
    close("phi_linop", prod(A, dt, v, k, n + int(rng.integers(0, 3)), 100), phi_ref(k, dt * A, v), 3e-5)
    o, mk = mod("ode_sys"), mod("matexp_krylov")
    close("matexp_linop", mk.matexp_linop(o.MatrixLinOp(jnp.asarray(A)), dt, jnp.asarray(v), n, 100), scipy.linalg.expm(dt * A) @ v, 3e-5)
    close("default depth", mk.phi_linop(o.MatrixLinOp(jnp.asarray(A)), dt, jnp.asarray(v), k, n), phi_ref(k, dt * A, v), 3e-5)


@contract("linear under scaling of the vector", quick=5, thorough=40)
def c_scale(rng, case):
    n, A, dt, v, k = draw(rng, case)
    s = float(rng.choice([-1, 1]) * 10.0 ** rng.uniform(-60, 60))
    m = int(rng.integers(1, n + 1))
    case.update(s=s, m=m)
    close("scaled product", prod(A, dt, s * v, k, m, 100) / s, prod(A, dt, v, k, m, 100), 1e-6)


@contract("zero vector", quick=2, thorough=6)
def c_zero(rng, case):
    n, A, dt, v, k = draw(rng, case)
    close("zero vector", prod(A, dt, 0 * v, k, n, 100), 0 * v, 0, 0)


@contract("each product stands on its own", quick=5, thorough=30)
def c_again(rng, case):
    o, mk = mod("ode_sys"), mod("matexp_krylov")
    n = int(rng.integers(3, 8))
    A, dt, k = stable_matrix(rng, n), float(rng.uniform(0.1, 2)), int(rng.integers(0, 4))
    lo = o.MatrixLinOp(jnp.asarray(A))
    v = rng.standard_normal(n)
    seq = []
    for _ in range(4):
        what = int(rng.integers(0, 5))
        if what == 0:                 # only inner components differ
            v = v.copy()
            v[1:-1] += rng.standard_normal(n - 2)
        elif what == 4:               # ... and the length stays
            v = v.copy()
            v[1:-1] *= -1
        elif what == 1:
            dt = -dt
        elif what == 2:
            k = int(rng.integers(0, 4))
        else:
            v = v[rng.permutation(n)]
        seq.append((v, dt, k))
        case.update(A=A, calls=seq)
        close("phi_linop", mk.phi_linop(lo, dt, jnp.asarray(v), k, n, 100), phi_ref(k, dt * A, v), 3e-5)
        close("matexp_linop", mk.matexp_linop(lo, dt, jnp.asarray(v), n, 100), scipy.linalg.expm(dt * A) @ v, 3e-5)
