"""C18 on the real code."""
from .common import *


def ref(A, b, limit, tol):
    """iterates and estimates until the stopping rule holds"""
    e, hist = None, []
    for i in range(1, limit + 1):
        y = A @ b
        en = b @ y / (b @ b)
        b = y / np.linalg.norm(y)
        hist.append((en, b))
        if e is not None and abs(en - e) <= tol:
            break
        e = en
    return hist


def draw(rng, case):
    n = int(rng.integers(1, 8))
    kind = int(rng.integers(0, 5))
    A = rng.standard_normal((n, n))
    if kind == 1:
        A = A @ A.T
    elif kind == 2:
        A = -A @ A.T * 10.0 ** float(rng.uniform(-4, 4))
    elif kind == 3:
        A = stable_matrix(rng, n)
    elif kind == 4:
        A = np.eye(n) * float(rng.choice([1.0, -2.0, 0.02, 1.02]))
    b = rng.standard_normal(n) * 10.0 ** float(rng.uniform(-5, 5))
    case.update(A=A, b=b)
    return n, A, b


@contract("power iteration", quick=12, thorough=80)
def c_power(rng, case):
    ml, o = mod("matexp_leja"), mod("ode_sys")
    n, A, b = draw(rng, case)
    limit = int(rng.integers(1, 25))
    tol = 10.0 ** float(rng.uniform(-8, 0))
    explicit = rng.uniform() < 0.7
    case.update(limit=limit, tol=tol if explicit else None)
    L = o.MatrixLinOp(jnp.asarray(A))
    lam, v, it = ml.power_iter(L, jnp.asarray(b), limit, *((tol,) if explicit else ()))
    it = int(it)
    t = tol if explicit else 5e-2
    require("between one and the requested number of applications", 1 <= it <= limit, (it, limit))
    full = ref(A, b, it, -1.0)
    sc = max(1.0, abs(full[-1][0]))
    close("Rayleigh quotient of the last-but-one iterate", lam, full[-1][0], 1e-7, 1e-7 * np.linalg.norm(A))
    close("last iterate, unit length", v, full[-1][1], 1e-6, 1e-6)
    if it < limit:
        require("does not stop before two estimates exist", it >= 2, it)
        require("stops only when successive estimates agree", abs(full[-1][0] - full[-2][0]) <= t + 1e-6 * sc, (full[-1][0], full[-2][0], t))


@contract("spectral estimate, shift and scale", quick=6, thorough=40)
def c_spec(rng, case):
    ml, o = mod("matexp_leja"), mod("ode_sys")
    n, A, b = draw(rng, case)
    fac = float(rng.uniform(0.5, 2))
    lim = int(rng.integers(1, 20))
    given = rng.uniform() < 0.5
    case.update(given=given, factor=fac, limit=lim)
    L = o.MatrixLinOp(jnp.asarray(A))
    kw = dict(b0=jnp.asarray(b)) if given else {}
    sh, sc, mx, v, it = ml.leja_shift_scale(L, n, lim, scale_factor=fac, **kw)
    start = jnp.asarray(b) if given else None
    if not given:
        again = ml.leja_shift_scale(L, n, lim, scale_factor=fac)
        close("same start vector every time", again[2], mx, 0, 0)
        start = jax.random.uniform(jax.random.key(42), (n,))
        lam, w, k = ml.power_iter(L, start, lim)
        if float(again[2]) != float(lam) * fac:
            start = None
    if start is not None:
        lam, w, k = ml.power_iter(L, start, lim)
        close("estimate is the quotient times the factor", mx, float(lam) * fac, 1e-12)
        close("eigenvector", v, w, 1e-12)
        require("count", int(k) == int(it))
    close("shift", sh, float(mx) / 2, 1e-13)
    close("scale", sc, abs(float(mx)) / 4, 1e-13)


@contract("start vectors of the wrong length are rejected", quick=2, thorough=6)
def c_wrong(rng, case):
    ml, o = mod("matexp_leja"), mod("ode_sys")
    n, A, b = draw(rng, case)
    for m in (n + 1, n - 1, 2 * n + 1):
        if m < 1:
            continue
        class Twice(o.LinOp):
            def _matvec(self, v):
                return 2.0 * v

            def _dense(self):
                return 2.0 * jnp.eye(n)
        for L in (o.MatrixLinOp(jnp.asarray(A)), Twice()):
            try:
                ml.leja_shift_scale(L, n, 10, b0=jnp.ones(m))
            except Exception:
                continue
            raise Bad("start vector of length %d accepted for dimension %d" % (m, n))
