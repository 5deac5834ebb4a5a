"""C13 on the real code."""
from .common import *


def want(A, dt, vb):
    r = np.zeros(A.shape[0])
    for j, b in enumerate(vb):
        r = r + phi_ref(j, dt * A, b)
    return r


def draw(rng, case, zeros=False):
    n, p = int(rng.integers(2, 8)), int(rng.integers(1, 5) if rng.uniform() < 0.6 else rng.integers(5, 8))
    A = stable_matrix(rng, n)
    dt = float(rng.choice([-1, 1]) * rng.uniform(0.1, 2.5))
    vb = [rng.standard_normal(n) for _ in range(p + 1)]
    if zeros:
        keep = int(rng.integers(0, p + 1))
        for j in range(p + 1):
            if j != keep and rng.uniform() < 0.7:
                vb[j] = np.zeros(n)
    case.update(n=n, p=p, dt=dt, A=A, vb=vb)
    return n, p, A, dt, vb


@contract("combined product equals the sum of the single ones", quick=5, thorough=30)
def c_sum(rng, case):
    o, mk = mod("ode_sys"), mod("matexp_krylov")
    n, p, A, dt, vb = draw(rng, case, zeros=rng.uniform() < 0.5)
    got = mk.kiops_fixedsteps(o.MatrixLinOp(jnp.asarray(A)), dt, [jnp.asarray(b) for b in vb], n + p, 100)
    close("kiops_fixedsteps", got, want(A, dt, vb), 3e-5)
    if rng.uniform() < 0.3:
        got = mk.kiops_fixedsteps(o.DiagLinOp(jnp.asarray(np.diag(A))), dt, [jnp.asarray(b) for b in vb], n + p, 100)
        close("kiops_fixedsteps (diagonal)", got, want(np.diag(np.diag(A)), dt, vb), 3e-5)


@contract("independent of the magnitudes of the vectors", quick=5, thorough=30)
def c_scale(rng, case):
    o, mk = mod("ode_sys"), mod("matexp_krylov")
    n, p, A, dt, vb = draw(rng, case)
    kind = int(rng.integers(0, 3))
    if kind == 0:      # all vectors scaled by a common factor
        s = [10.0 ** float(rng.uniform(-60, 60))] * (p + 1)
        tol = [3e-5] * (p + 1)
    else:              # one vector much smaller than the others
        s = [1.0] * (p + 1)
        s[int(rng.integers(0, p + 1))] = 10.0 ** float(rng.uniform(-8, -3) if kind == 1 else rng.uniform(3, 8))
    vb = [b * x for b, x in zip(vb, s)]
    case.update(scales=s)
    got = np.asarray(mk.kiops_fixedsteps(o.MatrixLinOp(jnp.asarray(A)), dt, [jnp.asarray(b) for b in vb], n + p, 100))
    w = want(A, dt, vb)
    close("kiops_fixedsteps with scaled vectors", got / max(s), w / max(s), 3e-5)


@contract("all vectors zero", quick=1, thorough=3)
def c_zero(rng, case):
    o, mk = mod("ode_sys"), mod("matexp_krylov")
    n, p, A, dt, vb = draw(rng, case)
    got = mk.kiops_fixedsteps(o.MatrixLinOp(jnp.asarray(A)), dt, [jnp.zeros(n)] * (p + 1), n, 100)
    close("kiops_fixedsteps of zero vectors", got, np.zeros(n), 0, 0)


@contract("augmented system of the Leja interpolation", quick=5, thorough=40)
def c_aug(rng, case):
    o = mod("ode_sys")
    build = need("matexp_leja", "build_a_tilde")
    n, p, A, dt, vb = draw(rng, case, zeros=rng.uniform() < 0.3)
    at, v, m = build(o.MatrixLinOp(jnp.asarray(A)), dt, [jnp.asarray(b) for b in vb])
    M = np.zeros((n + p, n + p))
    M[:n, :n] = dt * A
    for j in range(p):
        M[:n, n + j] = vb[p - j]
    for j in range(p - 1):
        M[n + j, n + j + 1] = 1
    e = np.zeros(p)
    e[-1] = 1
    close("start vector", v, np.concatenate([vb[0], e]), 1e-13)
    require("size of the leading block", int(m) == n, m)
    for _ in range(2):
        x = rng.standard_normal(n + p)
        close("augmented operator", at.matvec(jnp.asarray(x)), M @ x, 1e-12)
    E = np.stack([np.asarray(at.matvec(jnp.asarray(c))) for c in np.eye(n + p)], axis=1)
    close("leading block of the exponential", (scipy.linalg.expm(E) @ np.asarray(v))[:n], want(A, dt, vb), 1e-9)
