"""C16 on the real code: the interpolation is replaced by a scripted one (any pattern of converged and failed substeps)."""
from .common import *

LIMIT = 1000


class Script:
    """interpolation stand-in: outcome k decided by the script, result depends on the attempt so that the composition is visible"""

    def __init__(self, fails, rng, conj):
        self.fails, self.rng, self.conj = fails, rng, conj
        self.calls = []

    def __call__(self, op, dt, u, shift, scale, leja_x, *rest, **kw):
        if self.conj:
            self.real = int(rest[0])
            rest = rest[1:]
        coeffs, tol = rest[:2]
        k = len(self.calls)
        ok = not self.fails(k, float(dt))
        it = int(self.rng.integers(1, 40))
        w = jnp.asarray(np.asarray(u) * (1 + 0.1 * float(dt)) + float(dt) * (k + 1)) if ok else jnp.full(len(u), 1e30)
        self.calls.append((float(dt), np.asarray(u), ok, it, np.asarray(w), op, shift, scale, np.asarray(leja_x), np.asarray(coeffs), tol))
        return w, it, jnp.asarray(ok)


def simulate(case, S, v, got, n, err):
    """replay of the recorded attempts against the property"""
    tau, big, eff, w, prev = 0.0, 0.0, 0, np.asarray(v), None
    for k, (dt, u, ok, it, res, *_) in enumerate(S.calls):
        require("attempt %d starts from the last accepted vector" % k, np.array_equal(u, w))
        require("attempt %d has positive length" % k, dt > 0, dt)
        require("attempt %d stays within the remaining interval" % k, dt <= 1 - tau + 1e-12, (dt, tau))
        if prev is not None:
            close("substep after a failure", dt, prev / 1.2, 1e-12)
        prev = None if ok else dt
        eff += it
        if ok:
            tau, w, big = tau + dt, res, max(big, dt)
    if err is not None:
        require("raises only when the limit is reached", len(S.calls) >= LIMIT, len(S.calls))
        return
    close("accepted substeps sum to one", tau, 1.0, 0, 1e-9)
    require("number of attempts within the limit", len(S.calls) <= LIMIT + 1, len(S.calls))
    r, it, ok, size = got
    require("returned vector is the leading block of the composition", np.array_equal(np.asarray(r), w[:n]), (np.asarray(r), w[:n]))
    require("reported effort", int(it) == eff, (int(it), eff))
    require("reports convergence", bool(ok))
    close("reported size is the largest accepted substep", float(size), big, 1e-12)


def run(rng, case, conj, fails, dt0, substep=True):
    ml, mp, o = mod("matexp_leja"), mod("matexp_poly"), mod("ode_sys")
    nm = "complex_conj_leja_expmv" if conj else "real_leja_expmv"
    need("matexp_leja", nm)
    f = need("matexp_leja", nm + "_substep")
    dim = int(rng.integers(1, 7))
    n = int(rng.integers(1, dim + 1))
    v = rng.standard_normal(dim)
    x, nr, sc, sh = ml.gen_leja_conjugate(int(rng.integers(6, 14)), -1.0, 0.1, 0.5)
    z = int(rng.integers(0, 4)) if conj else 0
    dd = str(rng.choice(["taylor", "pade"]))
    sh, sc, tol = float(rng.standard_normal()) * 0.2, float(rng.uniform(0.3, 1.5)), 10.0 ** float(rng.uniform(-12, -2))
    xr = x if conj else jnp.real(x)
    case.update(conj=conj, dim=dim, n=n, v=v, dt0=dt0, zeros=z, dd=dd, tol=tol, substep=substep)
    S = Script(fails, rng, conj)
    old = getattr(ml, nm)
    setattr(ml, nm, S)
    err = got = None
    op = o.MatrixLinOp(jnp.asarray(stable_matrix(rng, dim)))
    try:
        kw = dict(tol=tol, substep=substep, dd_method=dd)
        if conj:
            kw["leja_n_zeros"] = z
        got = f(op, dt0, jnp.asarray(v), xr, *((nr,) if conj else ()), n, sh, sc, **kw)
    except RuntimeError as e:
        err = e
    finally:
        setattr(ml, nm, old)
    if not S.calls:
        raise Skip("interpolation not called through its module")
    for c in S.calls:
        require("operator", c[5] is op)
        close("shift and scale", [c[6], c[7], c[10]], [sh, sc, tol], 1e-14)
        require("all points are used", len(c[8]) == len(x) + z, (len(c[8]), len(x), z))
        close("points", c[8][z:], np.asarray(xr), 0, 0)
        close("near-zero points", c[8][:z], np.zeros(z), 0, 1e-6)
        if conj:
            require("leading real points", S.real == z + int(nr), (S.real, z, nr))
        M = np.diag(sh + sc * c[8]) + np.diag(sc * np.ones(len(c[8]) - 1), -1)
        close("coefficients are the divided differences of exp", c[9], scipy.linalg.expm(M)[:, 0], 1e-6, 1e-8)
    return S, v, got, n, err


@contract("any pattern of converged and failed substeps", quick=6, thorough=40)
def c_pattern(rng, case):
    for conj in (False, True):
        kind = int(rng.integers(0, 4))
        if kind == 0:
            p = float(rng.uniform(0, 0.7))
            pat = rng.uniform(size=2000) < p
            fails = lambda k, dt: bool(pat[k])
        elif kind == 1:
            h = float(rng.uniform(0.02, 0.9))
            fails = lambda k, dt: dt > h
        elif kind == 2:
            m = int(rng.integers(0, 12))
            fails = lambda k, dt: k < m
        else:
            m = int(rng.integers(1, 8))
            fails = lambda k, dt: k % (m + 1) == m
        dt0 = float(rng.choice([1.0, 1.5, 1.1, rng.uniform(0.05, 1), rng.uniform(0.002, 0.05), 1 / 3, 0.1]))
        S, v, got, n, err = run(rng, case, conj, fails, dt0)
        simulate(case, S, v, got, n, err)


@contract("fails loudly when the interval is not covered", quick=2, thorough=6)
def c_loud(rng, case):
    for conj in (False, True):
        if rng.uniform() < 0.5:
            fails, dt0 = (lambda k, dt: True), float(rng.uniform(0.1, 2))
        else:
            fails, dt0 = (lambda k, dt: False), float(rng.uniform(1e-5, 9e-4))
        S, v, got, n, err = run(rng, case, conj, fails, dt0)
        require("raises", err is not None, got)
        simulate(case, S, v, got, n, err)


@contract("without substeps one attempt", quick=4, thorough=20)
def c_single(rng, case):
    for conj in (False, True):
        bad = rng.uniform() < 0.5
        S, v, got, n, err = run(rng, case, conj, lambda k, dt: bad, float(rng.uniform(0.05, 2)), substep=False)
        require("returns", err is None, err)
        require("exactly one attempt over the whole interval", len(S.calls) == 1 and S.calls[0][0] == 1.0, [c[0] for c in S.calls])
        require("passes on the flag", bool(got[2]) == (not bad))
        require("leading block of the result", np.array_equal(np.asarray(got[0]), S.calls[0][4][:n]))
        require("reported size", bad or float(got[3]) == 1.0, got[3])
        require("effort", int(got[1]) == S.calls[0][3])


@contract("the real interpolation under substepping is the exponential", quick=2, thorough=12)
def c_exp(rng, case):
    ml, o = mod("matexp_leja"), mod("ode_sys")
    n = int(rng.integers(2, 6))
    A = stable_matrix(rng, n) * float(rng.uniform(0.5, 6))
    v = rng.standard_normal(n)
    rho = max(abs(np.linalg.eigvals(A))) + 0.3
    case.update(A=A, v=v)
    x, nr, sc, sh = ml.gen_leja_conjugate(80, -rho, 0.1, 0.7 * rho)
    w, it, ok, size = ml.complex_conj_leja_expmv_substep(o.MatrixLinOp(jnp.asarray(A)), 1.0, jnp.asarray(v), x, nr, n, sh, sc, tol=1e-9)
    close("exp(A) v", w, scipy.linalg.expm(A) @ v, 1e-5)
