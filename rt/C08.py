"""C08 on the real code."""
from .common import *


def draw(rng, case, kmax=5):
    n, k = int(rng.integers(1, 7)), int(rng.integers(0, kmax + 1))
    kind = int(rng.integers(0, 4))
    Z = stable_matrix(rng, n, float(rng.choice([0.01, 0.3, 1.0, 4.0])))
    if kind == 0:
        Z = np.triu(rng.standard_normal((n, n)), 1)          # nilpotent
    elif kind == 1:
        Z = rng.standard_normal((n, n))
    case.update(n=n, k=k, Z=Z)
    return n, k, Z


@contract("extension evaluator", quick=10, thorough=80)
def c_ext(rng, case):
    mp = mod("matexp_phi")
    n, k, Z = draw(rng, case)
    close("f_phi_k_ext", mp.f_phi_k_ext(jnp.asarray(Z), k), phi_ref(k, Z), 1e-7)
    allp = mp.f_phi_k_ext(jnp.asarray(Z), k, True)
    require("all of phi_0..phi_k", len(allp) == k + 1, len(allp))
    for j in range(k + 1):
        close("f_phi_k_ext all, phi_%d" % j, allp[j], phi_ref(j, Z), 1e-7)


@contract("definition: phi_0 = exp, Z phi_{k+1} = phi_k - I/k!", quick=5, thorough=40)
def c_def(rng, case):
    mp = mod("matexp_phi")
    n, k, Z = draw(rng, case)
    P = [np.asarray(mp.f_phi_k_ext(jnp.asarray(Z), j)) for j in range(k + 2)]
    close("phi_0", P[0], scipy.linalg.expm(Z), 1e-7)      # the exponential of jax itself is only that accurate
    import math
    for j in range(k + 1):
        close("recurrence %d" % j, Z @ P[j + 1], P[j] - np.eye(n) / math.factorial(j), 1e-7, scale=max(1.0, np.abs(P[0]).max()))


@contract("inverse-based evaluator and its warning", quick=6, thorough=50)
def c_inv(rng, case):
    mp = mod("matexp_phi")
    n, k, _ = draw(rng, case)
    k = 1 if rng.uniform() < 0.3 else k
    case.update(k=k)
    Q1, Q2 = (np.linalg.qr(rng.standard_normal((n, n)))[0] for _ in range(2))
    small = float(10.0 ** rng.uniform(-10, 0)) if k == 1 else float(10.0 ** rng.uniform(-7, 0))
    sv = np.concatenate([np.linspace(0.5, 1.0, n - 1), [small]]) if n > 1 else np.array([small])
    Z = Q1 @ np.diag(sv) @ Q2
    case.update(smallest_singular_value=small, Z=Z)
    eps = np.finfo(float).eps
    got, err = mp.f_phi_k_inv(jnp.asarray(Z), k, eps)
    rmin = np.min(np.abs(np.diag(scipy.linalg.qr(Z)[1])))
    close("error estimate", float(err), eps / rmin ** k, 1e-4)
    if small > 1e-2:
        close("f_phi_k_inv", got, phi_ref(k, Z), 2e-15 / rmin ** k * 100 + 1e-7)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        mp.f_phi_k(jnp.asarray(Z), k)
    warned = any("singular" in str(x.message) or "inaccurate" in str(x.message) for x in w)
    est = eps / rmin ** k
    if est > 1.2 * np.sqrt(eps):
        require("a warning close to singularity", warned, est)
    elif est < 0.8 * np.sqrt(eps):
        require("no warning away from singularity", not warned, est)


@contract("scaling and squaring evaluator", quick=10, thorough=80)
def c_sq(rng, case):
    mp = mod("matexp_phi")
    n, k, Z = draw(rng, case, 3)
    s = float(10.0 ** rng.uniform(-3, 1.0))
    Z = Z * s / max(1.0, np.abs(Z).sum(1).max()) if rng.uniform() < 0.7 else Z
    Z = Z - (0 if rng.uniform() < 0.5 else 0.5 * s) * np.eye(n)
    case.update(Z=Z)
    allp = mp.f_phi_k_sq_all(jnp.asarray(Z), k)
    require("all of phi_0..phi_k", len(allp) == k + 1, len(allp))
    th = max(1.0, np.abs(Z).sum(1).max())
    for j in range(k + 1):
        # Taylor polynomial of degree 4-j at norm < 1/8, amplified by the squarings
        close("f_phi_k_sq_all phi_%d" % j, allp[j], phi_ref(j, Z), (1e-5, 1e-5, 1e-4, 2e-3)[j] * th, scale=max(np.abs(phi_ref(j, Z)).max(), 1e-3))
    close("f_phi_k_sq", mp.f_phi_k_sq(jnp.asarray(Z), k), allp[k], 1e-12)
    close("f_phi_k_sq all", mp.f_phi_k_sq(jnp.asarray(Z), k, True), np.asarray(allp), 1e-12)


@contract("scaling and squaring of matrices of large norm", quick=3, thorough=20)
def c_large(rng, case):
    mp = mod("matexp_phi")
    import math
    from mpmath import mp as M, mpf

    def ph(k, x):
        with M.workdps(60):
            v = M.exp(mpf(x))
            for j in range(k):
                v = (v - 1 / M.factorial(j)) / mpf(x)
            return float(v)
    n = int(rng.integers(1, 6))
    s = float(10.0 ** rng.uniform(2, 8))
    Q = np.linalg.qr(rng.standard_normal((n, n)))[0]
    lam = -np.concatenate([[s * rng.uniform(0.5, 1)], rng.uniform(0.5, 5, n - 1)])
    Z = Q @ np.diag(lam) @ Q.T
    b = rng.standard_normal(n) if rng.uniform() < 0.5 else rng.standard_normal((n, int(rng.integers(1, 4))))
    case.update(eigenvalues=lam, Z=Z, b=b)
    allp = mp.f_phi_k_sq_all(jnp.asarray(Z), 3)
    for k in range(4):
        want = Q @ np.diag([ph(k, x) for x in lam]) @ Q.T
        if k or n > 1:
            close("f_phi_k_sq_all phi_%d" % k, allp[k], want, 5e-13 * s + 1e-8)
            if k:      # (phi_0 of a vector is the exponential of jax itself, which gives up beyond a norm of about 3e5)
                close("f_phi_k_appl phi_%d" % k, mp.f_phi_k_appl(jnp.asarray(Z), jnp.asarray(b), k), want @ b, 5e-13 * s + 1e-8,
                      scale=np.abs(want).max() * np.abs(b).max())


@contract("Taylor polynomials", quick=4, thorough=30)
def c_poly(rng, case):
    import math
    poly = need("matexp_phi", "f_phi_k_poly_all")
    n, k, Z = draw(rng, case, 6)
    deg = int(rng.integers(max(4, k + 1), 11))
    case.update(deg=deg)
    got = poly(jnp.asarray(Z), k, deg)
    for j in range(k + 1):
        want = sum(np.linalg.matrix_power(Z, i) / math.factorial(i + j) for i in range(deg - j + 1))
        close("Taylor polynomial of phi_%d" % j, got[j], want, 1e-10)
