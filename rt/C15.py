"""C15 on the real code: Newton polynomials at random (not only Leja) points, any termination."""
from .common import *


def problem(rng, case, npts=None, vec="any"):
    n = int(rng.integers(1, 7))
    A = stable_matrix(rng, n)
    u = rng.standard_normal(n) * 10.0 ** float(rng.uniform(-6, 6))
    if vec == "zero":
        u = np.zeros(n)
    N = int(rng.integers(1, 12)) if npts is None else npts
    d = dict(n=n, A=A, u=u, dt=float(rng.uniform(-1.5, 1.5)), shift=float(rng.standard_normal()), scale=float(rng.uniform(0.3, 2.0) * rng.choice([1, 1, -1])),
             tol=10.0 ** float(rng.uniform(-12, 1)), N=N)
    case.update(d)
    return d


def newton(d, x, c):
    """terms and sums of the Newton polynomial, in complex arithmetic"""
    S = d["shift"] + d["scale"] * x
    v = d["u"].astype(complex)
    w = [v]
    for i in range(1, len(x)):
        v = (d["dt"] * d["A"] @ v - S[i - 1] * v) / d["scale"]
        w.append(v)
    return w, np.cumsum([ci * wi for ci, wi in zip(c, w)], axis=0)


def estimates(u, terms):
    """running estimates after each term (index 1 on)"""
    e = [2 * np.linalg.norm(u)]
    with np.errstate(divide="ignore"):
        for t in terms:
            e.append(np.exp(0.5 * np.log(t) + 0.5 * np.log(e[-1])))
    return e


def verdict(what, d, i, conv, e, abort, maxi):
    nu = np.linalg.norm(d["u"])
    tol = d["tol"] * nu
    if nu == 0:
        require(what + ": zero vector converges at once", bool(conv))
        return
    near = abs(e - tol) <= 1e-9 * max(e, tol)
    if not near:
        require(what + ": reports convergence iff the estimate at the last term is below tolerance", bool(conv) == (e < tol), (bool(conv), e, tol, i))
    if not conv and not near:
        require(what + ": stops for a reason", e > abort * nu * (1 - 1e-9) or i >= maxi, (i, maxi, e / nu, abort))


def run_real(rng, case, d, abort):
    ml, o = mod("matexp_leja"), mod("ode_sys")
    x = np.sort(rng.uniform(-2, 2, d["N"]))[rng.permutation(d["N"])]
    c = rng.standard_normal(d["N"]) * 10.0 ** -np.cumsum(rng.uniform(0, 1.2, d["N"]))
    case.update(x=x, c=c, abort=abort)
    L = o.MatrixLinOp(jnp.asarray(d["A"]))
    a = (L, d["dt"], jnp.asarray(d["u"]), d["shift"], d["scale"], jnp.asarray(x))
    b = (jnp.asarray(c), d["tol"]) + (() if abort is None else (abort,))
    return a, b, x, c


def check_real(what, d, x, c, got, abort):
    pm, i, conv = got
    i = int(i)
    require(what + ": count within the sequence", 1 <= i <= d["N"], i)
    w, s = newton(d, x, c)
    close(what + ": sum of the first i terms", pm, s[i - 1].real, 1e-9, 1e-9 * max(1e-300, max(np.linalg.norm(q) for q in s[:i])))
    e = estimates(d["u"], [abs(c[j]) * np.linalg.norm(w[j]) for j in range(1, i)])[-1]
    ab = 1e10 if abort is None else abort
    if i == 1 and np.linalg.norm(d["u"]):
        require(what + ": convergence after the first term only below tolerance", not bool(conv) or 2 < d["tol"])
        require(what + ": stops for a reason", d["N"] <= 2 or 2 > ab or bool(conv), (d["N"], ab))
        return
    verdict(what, d, i, conv, e, ab, d["N"] - 1)


@contract("real interpolation sums its Newton polynomial", quick=6, thorough=40)
def c_real(rng, case):
    ml = mod("matexp_leja")
    for vec in ("any", "any", "zero"):
        d = problem(rng, case, vec=vec)
        abort = None if rng.uniform() < 0.5 else 10.0 ** float(rng.uniform(-3, 2))
        a, b, x, c = run_real(rng, case, d, abort)
        check_real("real_leja_expmv", d, x, c, ml.real_leja_expmv(*a, *b), abort)


@contract("conjugate interpolation with real points only", quick=6, thorough=40)
def c_allreal(rng, case):
    ml = mod("matexp_leja")
    d = problem(rng, case)
    abort = None if rng.uniform() < 0.3 else 10.0 ** float(rng.uniform(-3, 2))
    a, b, x, c = run_real(rng, case, d, abort)
    check_real("complex_conj_leja_expmv (real points)", d, x, c, ml.complex_conj_leja_expmv(*a, d["N"], *b), abort)


@contract("conjugate interpolation sums the complex Newton polynomial", quick=8, thorough=50)
def c_conj(rng, case):
    ml, o = mod("matexp_leja"), mod("ode_sys")
    R, P = int(rng.integers(0, 5)), int(rng.integers(1, 5))
    N = R + 2 * P
    d = problem(rng, case, N, "zero" if rng.uniform() < 0.1 else "any")
    if R == 0 and rng.uniform() < 0.5:
        R = 0
    # real points, then conjugate pairs; coefficients: divided differences of exp (real after a full pair)
    z = rng.uniform(-2, 1, P) + 1j * rng.uniform(0.05, 2, P)
    x = np.concatenate([rng.uniform(-2, 1, R), np.stack([z, z.conj()], 1).ravel()]).astype(complex)
    Z = np.diag(d["shift"] + d["scale"] * x) + np.diag(d["scale"] * np.ones(N - 1), -1)
    c = scipy.linalg.expm(Z)[:, 0]
    abort = None if rng.uniform() < 0.5 else 10.0 ** float(rng.uniform(-2, 2))
    case.update(R=R, x=x, c=c, abort=abort)
    L = o.MatrixLinOp(jnp.asarray(d["A"]))
    pm, i, conv = ml.complex_conj_leja_expmv(L, d["dt"], jnp.asarray(d["u"]), d["shift"], d["scale"], jnp.asarray(x), R, jnp.asarray(c), d["tol"],
                                             *(() if abort is None else (abort,)))
    i = int(i)
    require("count within the sequence", 1 <= i <= N, (i, N))
    if np.linalg.norm(d["u"]) == 0:
        close("zero vector", pm, d["u"], 0, 0)
        require("zero vector converges", bool(conv))
        return
    # the real-arithmetic equivalent: leading real points, then the pairs' terms taken by their real part.
    w, _ = newton(d, x, c)
    s, terms = d["u"] * c[0].real, []
    lead = max(R, 0)
    for j in range(1, i):
        t = w[j].real * c[j].real if j <= lead else (w[j] * c[j].real).real
        terms.append(np.linalg.norm(t))
        s = s + t
    if R >= 1:
        scale = max(np.linalg.norm(s), max([np.linalg.norm(d["u"] * c[0])] + terms))
        close("complex_conj_leja_expmv: sum of the first i terms", pm, s, 1e-8, 1e-8 * scale)
        ab = 1e10 if abort is None else abort
        e = estimates(d["u"], terms)[-1]
        if i == R + 1 and not terms:
            return
        if i > R + 1:
            verdict("complex_conj_leja_expmv", d, i, conv, e, ab, N - 2)
    else:
        close("complex_conj_leja_expmv: sum of the first i terms", pm, s, 1e-8, 1e-8 * max([np.linalg.norm(d["u"] * c[0])] + terms))


@contract("imaginary interpolation sums the complex Newton polynomial", quick=10, thorough=60)
def c_imag(rng, case):
    ml, o = mod("matexp_leja"), mod("ode_sys")
    P = int(rng.integers(0, 12))
    N = 1 + 2 * P
    d = problem(rng, case, N, "zero" if rng.uniform() < 0.1 else "any")
    if rng.uniform() < 0.2:
        d["u"] = d["u"] * 10.0 ** 8
    if rng.uniform() < 0.5:
        d["shift"] = 0.0
        d["scale"] = float(rng.uniform(0.3, 6.0) * rng.choice([1, 1, -1]))
        d["A"] = d["A"] - d["A"].T
        d["tol"] = 10.0 ** float(rng.uniform(-10, -3))
    y = rng.uniform(0.05, 2, P)
    x = np.concatenate([[0], np.stack([1j * y, -1j * y], 1).ravel()])
    c = scipy.linalg.expm(np.diag(d["shift"] + d["scale"] * x) + np.diag(d["scale"] * np.ones(N - 1), -1))[:, 0]
    case.update(d, x=x, c=c)
    L = o.MatrixLinOp(jnp.asarray(d["A"]))
    pm, i, conv = ml.complex_conj_imag_leja_expmv(L, d["dt"], jnp.asarray(d["u"]), d["shift"], d["scale"], jnp.asarray(x), jnp.asarray(c), d["tol"])
    i = int(i)
    require("count", 2 <= i <= N + 1 and i % 2 == 0, (i, N))
    w, _ = newton(d, x, c)
    t = [w[j].real * c[j].real for j in range(i - 1)]
    size = [np.linalg.norm(q) for q in t]
    close("sum of the terms before the reported count", pm, np.sum(t, 0), 1e-8, 1e-8 * max(size + [1e-300]))
    nu, last = np.linalg.norm(d["u"]), size[-1] + size[-2] if i > 2 else None
    if bool(conv) and i > 2:
        require("reports convergence only if the last terms are below tolerance", last <= d["tol"] * nu * (1 + 1e-9), (last / nu, d["tol"], i))
    if bool(conv) and i == 2:
        require("reports convergence after the first term only below tolerance", d["tol"] >= 1 or nu == 0, (d["tol"], nu))
    if not bool(conv) and i > 2:
        require("stops for a reason", i >= N or last >= 1e3 * nu * (1 - 1e-9), (i, N, last / nu))


@contract("converged interpolation at Leja points is the exponential", quick=3, thorough=20)
def c_exp(rng, case):
    ml, mp, o = mod("matexp_leja"), mod("matexp_poly"), mod("ode_sys")
    d = problem(rng, case, 60)
    d["dt"] = float(rng.uniform(0.05, 0.6))
    d["tol"] = 1e-9
    rho = max(abs(np.linalg.eigvals(d["dt"] * d["A"]))) + 0.2
    x, R, sc, sh = ml.gen_leja_conjugate(60, -rho, 0.1, 0.6 * rho)
    N = len(x)
    cs = mp.dd_exp_taylor(x, sh, sc)
    pm, i, conv = ml.complex_conj_leja_expmv(o.MatrixLinOp(jnp.asarray(d["A"])), d["dt"], jnp.asarray(d["u"]), sh, sc, x, R, cs, d["tol"])
    if bool(conv):
        close("exp(dt A) u", pm, scipy.linalg.expm(d["dt"] * d["A"]) @ d["u"], 1e-5)
