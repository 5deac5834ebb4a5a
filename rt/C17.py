"""C17 on the real code: generated Leja sequences against the property, in floating point."""
from .common import *


def dist(z, p):
    return np.abs(np.asarray(z)[:, None] - np.asarray(p)[None, :])


@contract("fast sequence on an arbitrary interval", quick=25, thorough=150)
def c_fast(rng, case):
    f = need("matexp_leja", "gen_leja_fast")
    kind = int(rng.integers(0, 6))
    h = 10.0 ** float(rng.uniform(-1.5, 1.5))
    m = [0.0, float(rng.standard_normal()) * h, 5 * h, -5 * h, h, -h][kind]
    a, b = m - h, m + h
    n = int(rng.integers(4, 70))
    case.update(a=a, b=b, n=n)
    z = np.asarray(f(a=a, b=b, n=n))
    require("number of points", z.shape == (n,), z.shape)
    t = (z - m) / h
    eps = 1e-12 * (1 + abs(m) / h)
    require("inside the interval", np.all(np.abs(t) <= 1 + eps), z)
    require("distinct", len(np.unique(z)) == n, z)
    if abs(a) != abs(b):
        close("starts with the end point of larger magnitude", z[0], a if abs(a) > abs(b) else b, 1e-13)
    close("starts at an end point", abs(t[0]), 1.0, 0, eps)
    close("then the other end point", t[1], -t[0], 0, eps)
    close("then the midpoint", t[2], 0, 0, eps)
    for i in range(3, n):
        s = np.sort(t[:i])
        mids = (s[1:] + s[:-1]) / 2
        val = np.sum(np.log(dist(mids, t[:i])), axis=1)
        k = int(np.argmin(np.abs(mids - t[i])))
        close("point %d is the midpoint of a gap" % i, t[i], mids[k], 0, 10 * eps)
        require("point %d maximises the product of distances" % i, val[k] >= np.max(val) - 1e-6, (val[k], np.max(val), i))


@contract("circle sequence", quick=20, thorough=120)
def c_circle(rng, case):
    f = need("matexp_leja", "gen_leja_circle")
    n = int(rng.integers(2, 140)) if rng.uniform() < 0.8 else int(rng.integers(140, 700))
    conj = bool(rng.uniform() < 0.6)
    case.update(n=n, conj=conj)
    z = np.asarray(f(n, conjugate=conj) if conj else f(n))
    require("number of points", z.shape == (n,), z.shape)
    close("modulus one", np.abs(z), np.ones(n), 0, 1e-12)
    close("starts with 1 and -1", z[:2], [1, -1], 0, 1e-14)
    d = dist(z, z) + 10 * np.eye(n)
    require("distinct", np.min(d) > 1.0 / n, np.min(d))
    p = 2
    while p <= n:
        close("first %d points are roots of unity" % p, z[:p] ** p, np.ones(p), 0, 1e-9)
        p *= 2
    if conj:
        for j in range(2, n - 1, 2):
            close("conjugate pair %d" % j, z[j + 1], np.conj(z[j]), 0, 1e-12)


@contract("sequence for a box", quick=30, thorough=200)
def c_box(rng, case):
    f = need("matexp_leja", "gen_leja_conjugate")
    n = int(rng.integers(4, 90))
    s = 10.0 ** float(rng.uniform(-2, 2))
    kind = int(rng.integers(0, 5))
    w, c = [(1.0, 0.0), (0.0, 1.0), (1.0, 10.0 ** float(rng.uniform(-6, 2))), (10.0 ** float(rng.uniform(-6, 2)), 1.0),
            (float(rng.uniform(0.1, 5)), float(rng.uniform(0.1, 5)))][kind]
    w, c = w * s, c * s
    a = float(rng.choice([0.0, -w, float(rng.standard_normal()) * s]))
    b = a + w
    w = b - a
    if rng.uniform() < 0.2 and kind == 4:
        a, b, w, c = b, a, -w, -c
    case.update(n=n, a=a, b=b, c=c)
    zt, nr, scale, shift = f(n=n, a=a, b=b, c=c)
    zt = np.asarray(zt)
    require("number of points", zt.shape == (n,), zt.shape)
    close("scale", scale, (w / 2 + c) / 2, 1e-12)
    close("shift", shift, (a + b) / 2, 1e-12, 1e-12 * abs(s))
    g = (w / 2 + c) / 2
    h1, h2 = w / 2 / g, c / g
    X, Y = np.real(zt), np.imag(zt)
    require("number of leading real points", int(nr) in (1, 2, n), nr)
    d = dist(zt, zt) + 10 * np.eye(n)
    require("distinct", np.min(d) > 1e-5 / n ** 2, np.min(d))
    if int(nr) == n:
        require("flat box", h2 <= 1.01e-4, h2)
        close("real", Y, np.zeros(n), 0, 1e-14)
        require("inside the segment", np.all(np.abs(X) <= h1 * (1 + 1e-12)), X)
        close("extreme points first", np.sort(X[:2]), [-h1, h1], 1e-12)
    elif int(nr) == 1:
        require("thin box", h1 <= 1.01e-4, h1)
        close("imaginary", X, np.zeros(n), 0, 1e-14)
        close("leading point real", zt[0], 0, 0, 1e-12)
        require("inside the segment", np.all(np.abs(Y) <= h2 * (1 + 1e-12)), Y)
    else:
        require("box with two extents", min(h1, h2) >= 0.99e-4, (h1, h2))
        close("on the ellipse", (X / h1) ** 2 + (Y / h2) ** 2, np.ones(n), 0, 1e-9)
        close("leading points real", Y[:2], [0, 0], 0, 1e-12)
    for j in range(int(nr), n - 1, 2):
        close("conjugate pair %d" % j, zt[j + 1], np.conj(zt[j]), 0, 1e-12)


@contract("empty boxes are rejected", quick=3, thorough=20)
def c_empty(rng, case):
    f = need("matexp_leja", "gen_leja_conjugate")
    w, c = float(rng.uniform(0.1, 5)), float(rng.uniform(0.1, 5))
    w, c = (-w, c) if rng.uniform() < 0.5 else (w, -c)
    a, n = float(rng.standard_normal()), int(rng.integers(4, 30))
    case.update(n=n, a=a, b=a + w, c=c)
    try:
        got = f(n=n, a=a, b=a + w, c=c)
    except ValueError:
        return
    require("rejected", False, got)


@contract("padding", quick=5, thorough=25)
def c_pad(rng, case):
    f = need("matexp_poly", "leja_seq_pad_zeros")
    n, p = int(rng.integers(1, 20)), int(rng.integers(1, 30))
    x = rng.standard_normal(n) + (1j * rng.standard_normal(n) if rng.uniform() < 0.5 else 0)
    case.update(n=n, p=p)
    z = np.asarray(f(jnp.asarray(x), p))
    require("length", z.shape == (n + p,), z.shape)
    close("near zeros", np.abs(z[:p]), np.zeros(p), 0, 1e-6)
    close("unchanged points", z[p:], x, 1e-15)


@contract("reordering", quick=10, thorough=60)
def c_reorder(rng, case):
    f = need("matexp_poly", "leja_seq_reordering")
    n = int(rng.integers(1, 25))
    x = rng.standard_normal(n) + (1j * rng.standard_normal(n) if rng.uniform() < 0.5 else 0)
    if rng.uniform() < 0.3 and n > 2:
        x[-1] = x[0]
    case.update(x=x)
    z = np.asarray(f(jnp.asarray(x) if rng.uniform() < 0.5 else x))
    require("length", z.shape == (n,), z.shape)
    close("permutation", np.sort_complex(z.astype(complex)), np.sort_complex(x.astype(complex)), 0, 0)
    for i in range(1, n):
        v = np.prod(dist(z[i:], z[:i]), axis=1)
        require("greedy choice %d" % i, v[0] >= np.max(v) * (1 - 1e-9), v)


@contract("results of earlier calls stay", quick=2, thorough=10)
def c_stay(rng, case):
    L = mod("matexp_leja")
    keep = []
    for j in range(3):
        n = 12
        a, b = -float(rng.uniform(0.5, 3)), float(rng.uniform(0.5, 3))
        for nm, f in (("gen_leja_fast", lambda: L.gen_leja_fast(a, b, n)), ("gen_leja_circle", lambda: L.gen_leja_circle(n, True)),
                      ("gen_leja_conjugate", lambda: L.gen_leja_conjugate(n, a, 0.0, b)[0])):
            r = f()
            keep.append((nm, r, np.array(r, copy=True)))
        for nm, r, c in keep:
            close("earlier result of " + nm, r, c, 0, 0)
