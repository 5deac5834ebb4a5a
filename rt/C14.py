"""C14 on the real code: divided differences of the exponential against 60-digit arithmetic."""
from .common import *
try:
    import mpmath
    mpmath.mp.dps = 60
except ImportError:
    mpmath = None


def mpv(v):
    v = complex(v)
    return mpmath.mpf(v.real) if v.imag == 0 else mpmath.mpc(v.real, v.imag)


def dd_exact(x, y):
    """classical table"""
    x, t = [mpv(v) for v in x], list(y)
    out = [t[0]]
    for k in range(1, len(x)):
        t = [(t[i + 1] - t[i]) / (x[i + k] - x[i]) for i in range(len(t) - 1)]
        out.append(t[0])
    return out


def dd_exp_exact(x, a, b, h):
    """first column of exp(h (a I + b Z)), by Taylor series with squaring in 60 digits"""
    n = len(x)
    if len(set(map(complex, x))) == n:
        return np.array([complex(v) for v in dd_exact(x, [mpmath.exp(mpv(h) * (mpv(a) + mpv(b) * mpv(v))) for v in x])])
    M = mpmath.matrix(n, n)
    for i in range(n):
        M[i, i] = mpv(h) * (mpv(a) + mpv(b) * mpv(x[i]))
        if i:
            M[i, i - 1] = mpv(h) * mpv(b)
    E = mpmath.expm(M)
    return np.array([complex(E[i, 0]) for i in range(n)])


def points(rng, case, distinct):
    ml = mod("matexp_leja")
    kind = int(rng.integers(0, 5))
    if kind == 0:
        x = ml.gen_leja_fast(-2, 2, int(rng.choice([4, 7, 12, 25])))
    elif kind == 1:
        x = ml.gen_leja_conjugate(int(rng.choice([4, 7, 12, 25])), -float(rng.uniform(0.1, 2)), 0.1, float(rng.uniform(0.01, 2)))[0]
    else:
        n = int(rng.integers(1, 9))
        x = np.cumsum(rng.uniform(0.2, 0.8, n))
        x = rng.permutation(x - np.mean(x)) + (1j * rng.standard_normal(n) * 0.5 if kind == 4 else 0)
    x = np.asarray(x)
    if kind == 1 and rng.uniform() < 0.6 and not distinct:
        x = np.asarray(mod("matexp_poly").leja_seq_pad_zeros(jnp.asarray(x), int(rng.integers(1, 6))))
    if not distinct and kind >= 2 and len(x) > 2:
        x[int(rng.integers(0, len(x)))] = x[int(rng.integers(0, len(x)))]
        if rng.uniform() < 0.3:
            x[:] = x[0]
    if kind >= 2 and len(x) > 2 and rng.uniform() < 0.3:
        x = x - x[0]                 # the first point is the mean of the sequence
        x[1:] -= np.sum(x) / (len(x) - 1)
    case.update(x=x)
    return x


def params(rng, case):
    b = 10.0 ** float(rng.uniform(-2, 1.7))
    a = float(rng.choice([0.0, -2 * b, float(rng.standard_normal()), -float(rng.uniform(0, 3)) * b]))
    h = float(rng.choice([1.0, float(rng.uniform(0.01, 1))]))
    case.update(shift=a, scale=b, h=h)
    return a, b, h


def judge(what, got, want, tol, x, a, b, h):
    require(what + ": as many coefficients as points", np.shape(got) == np.shape(want), (np.shape(got), np.shape(want)))
    close(what, np.asarray(got), want, tol)
    close(what + ": first coefficient", np.asarray(got)[0], np.exp(h * (a + b * complex(x[0]))), tol, tol * float(np.max(np.abs(want))))


@contract("recursive routine on arbitrary data", quick=6, thorough=40)
def c_newton(rng, case):
    f = need("matexp_poly", "newton_poly_div_diff")
    if mpmath is None:
        raise Skip("no mpmath")
    n = int(rng.integers(1, 10))
    x = rng.permutation(np.cumsum(rng.uniform(0.2, 0.8, n)))
    y = rng.standard_normal(n)
    if rng.uniform() < 0.4:
        x, y = x + 1j * rng.standard_normal(n), y + 1j * rng.standard_normal(n)
    elif rng.uniform() < 0.4:         # real points, complex data
        y = y + 1j * rng.standard_normal(n)
    elif rng.uniform() < 0.5:         # integer points, real data
        x = rng.permutation(np.arange(n) - n // 2)
    case.update(x=x, y=y)
    want = np.array([complex(v) for v in dd_exact(x, [mpv(v) for v in y])])
    close("divided differences", np.asarray(f(jnp.asarray(x), jnp.asarray(y))), want, 1e-9)


@contract("recursive coefficients of the exponential", quick=5, thorough=30)
def c_rec(rng, case):
    f = need("matexp_poly", "leja_coeffs_exp_dd")
    if mpmath is None:
        raise Skip("no mpmath")
    x = points(rng, case, True)
    a, b, h = params(rng, case)
    unit = rng.uniform() < 0.3
    h = 1.0 if unit else h
    judge("recursive", f(jnp.asarray(x), a, b, *(() if unit else (h,))), dd_exp_exact(x, a, b, h), 1e-8, x, a, b, h)


@contract("Pade and Taylor coefficients of the exponential, repeated points included", quick=6, thorough=40)
def c_mat(rng, case):
    fs = [("pade", need("matexp_poly", "leja_coeffs_exp")), ("taylor", need("matexp_poly", "dd_exp_taylor"))]
    if mpmath is None:
        raise Skip("no mpmath")
    x = points(rng, case, rng.uniform() < 0.5)
    a, b, h = params(rng, case)
    unit = rng.uniform() < 0.3
    h = 1.0 if unit else h
    want = dd_exp_exact(x, a, b, h)
    for nm, f in fs:
        judge(nm, f(jnp.asarray(x), a, b, *(() if unit else (h,))), want, 2e-9 * max(1.0, abs(h) * (abs(a) + abs(b) * float(np.max(np.abs(x))))), x, a, b, h)   # jax's expm loses digits in proportion to the norm


@contract("wide intervals", quick=3, thorough=20)
def c_wide(rng, case):
    """stiff problems: the exponent runs over hundreds"""
    fs = [(nm, need("matexp_poly", f)) for nm, f in (("recursive", "leja_coeffs_exp_dd"), ("pade", "leja_coeffs_exp"), ("taylor", "dd_exp_taylor"))]
    if mpmath is None:
        raise Skip("no mpmath")
    n, w = int(rng.choice([5, 12, 30])), 10.0 ** float(rng.uniform(2, 3))
    x = np.asarray(mod("matexp_leja").gen_leja_fast(-2, 2, n))
    if rng.uniform() < 0.5:
        x = x[1:]
    h = float(rng.choice([1.0, float(rng.uniform(0.3, 1))]))
    a, b = -w / 2, w / 4
    case.update(x=x, shift=a, scale=b, h=h)
    want = dd_exp_exact(x, a, b, h)
    for nm, f in fs:
        judge(nm, f(jnp.asarray(x), a, b, h), want, 1e-8, x, a, b, h)


@contract("the truncated series", quick=4, thorough=20)
def c_series(rng, case):
    f = need("matexp_poly", "expm_taylor")
    n = int(rng.integers(1, 7))
    A = rng.standard_normal((n, n)) / np.sqrt(n)
    s = float(rng.standard_normal())
    case.update(A=A, shift=s)
    close("default order", f(jnp.asarray(A), s, 1.0), scipy.linalg.expm(A) * np.exp(s), 1e-11)
    p = int(rng.integers(1, 12))
    want, t = np.eye(n), np.eye(n)
    for k in range(1, p + 1):
        t = t @ A / k
        want = want + t
    close("order %d" % p, f(jnp.asarray(A), s, 1.0, p), want * np.exp(s), 1e-12)
