"""C06 on the real code: operators against analytic derivatives and difference quotients."""
from .common import *


def system(rng, n, split=False):
    ode = mod("ode_sys")
    A, C = rng.standard_normal((n, n)), rng.standard_normal((n, n))
    g = rng.standard_normal(n)
    Aj, Cj, gj = map(jnp.asarray, (A, C, g))
    base = ode.OdeSplitSys if split else ode.OdeSys

    class S(base):
        def _frhs(self, t, u, p=0.7, **kw):
            return p * Aj @ u + jnp.tanh(Cj @ u) * jnp.cos(t) + gj * t * t * u[0]

        def _fl(self, t, u, **kw):
            return ode.MatrixLinOp(Aj)
    F = lambda t, u, p=0.7: p * A @ u + np.tanh(C @ u) * np.cos(t) + g * t * t * u[0]
    e0 = np.zeros(n)
    e0[0] = 1
    J = lambda t, u, p=0.7: p * A + np.cos(t) * np.diag(1 - np.tanh(C @ u) ** 2) @ C + t * t * np.outer(g, e0)
    Ft = lambda t, u, p=0.7: -np.tanh(C @ u) * np.sin(t) + 2 * t * g * u[0]
    return S(), F, J, Ft


def draw(rng, case):
    n = int(rng.integers(1, 6))
    t, u, v = float(rng.uniform(-2, 2)), rng.standard_normal(n) * 10.0 ** rng.integers(-2, 3), rng.standard_normal(n)
    z = int(rng.integers(0, 8))  # states and times at exactly zero are inputs like any other
    if z == 0:
        u = np.zeros(n)
    elif z == 1:
        u = u * (rng.uniform(size=n) < 0.5)
    if int(rng.integers(0, 6)) == 0:
        t = 0.0
    case.update(n=n, t=t, u=u, v=v)
    return n, t, u, v


@contract("automatic differentiation operator", quick=4, thorough=30)
def c_ad(rng, case):
    n, t, u, v = draw(rng, case)
    for split in (False, True):
        s, F, J, Ft = system(rng, n, split)
        for kw in ({}, {"p": float(rng.uniform(1, 2))}):
            case.update(kw=kw, split=split)
            op = s.fjac(t, jnp.asarray(u), **kw)
            close("fjac matvec", op.matvec(jnp.asarray(v)), J(t, u, **kw) @ v, 1e-11)
            close("fjac call", op(jnp.asarray(v)), J(t, u, **kw) @ v, 1e-11)
            close("fjac dense", op.dense(), J(t, u, **kw), 1e-11)
            close("fjac time derivative", op._fdt(), Ft(t, u, **kw), 1e-11, 1e-12)
            close("fjac cached value", op._frhs_cached(), F(t, u, **kw), 1e-11, 1e-12)
            close("frhs", s.frhs(t, jnp.asarray(u), **kw), F(t, u, **kw), 1e-11, 1e-12)
        close("__call__", s(t, jnp.asarray(u)), F(t, u), 1e-11, 1e-12)
        close("mass operator", s.fm(t, jnp.asarray(u)).dense(), np.eye(n), 0, 0, scale=1.0)
    own = mod("ode_sys")
    M = rng.standard_normal((n, n))

    class Mass(own.OdeSys):
        def _frhs(self, t, u, **kw):
            return u

        def _fm(self, t, u, q=1.0, **kw):
            return own.MatrixLinOp(jnp.asarray(M) * q + t * jnp.outer(u, u))
    for kw in ({}, {"q": float(rng.uniform(2, 3))}):
        want = M * kw.get("q", 1.0) + t * np.outer(u, u)
        close("own mass operator", Mass().fm(t, jnp.asarray(u), **kw).matvec(jnp.asarray(v)), want @ v, 1e-11, 1e-12)


@contract("operator from given arrays at the zero state", quick=1, thorough=3)
def c_custom0(rng, case):
    C = need("ode_sys", "CustomJacLinOp")
    n = int(rng.integers(1, 6))
    s, F, J, Ft = system(rng, n)
    D, d, v = rng.standard_normal((n, n)), rng.standard_normal(n), rng.standard_normal(n)
    for t in (0.0, float(rng.uniform(-2, 2))):
        case.update(n=n, t=t, d=d)
        op = C(t, jnp.zeros(n), s.frhs, jnp.asarray(D), jnp.asarray(d))
        close("given dt at u = 0", op._fdt(), d, 0, 0, scale=1.0)
        op = C(t, jnp.zeros(n), s.frhs, jnp.asarray(D), jnp.zeros(n))
        close("given zero dt at u = 0", op._fdt(), np.zeros(n), 0, 0, scale=1.0)
        close("matvec", op.matvec(jnp.asarray(v)), D @ v, 1e-12)


@contract("operator from given arrays", quick=3, thorough=20)
def c_custom(rng, case):
    C = need("ode_sys", "CustomJacLinOp")
    n, t, u, v = draw(rng, case)
    s, F, J, Ft = system(rng, n)
    D, d = rng.standard_normal((n, n)), rng.standard_normal(n)
    for kw in ({}, {"p": 1.9}):
        for eps in (None, 1e-2):
            o = {} if eps is None else {"eps": eps}
            case.update(kw=kw, eps=eps)
            op = C(t, jnp.asarray(u), s.frhs, jnp.asarray(D), jnp.asarray(d), frhs_kwargs=kw, **o)
            close("given dt", op._fdt(), d, 0, 0, scale=1.0)
            plain = C(t, u, s.frhs, D, d, frhs_kwargs=kw, **o)
            close("dt given as a NumPy array", plain._fdt(), d, 0, 0, scale=1.0)
            close("matvec of a NumPy array", plain.matvec(v), D @ v, 1e-12)
            close("cached value", op._frhs_cached(), F(t, u, **kw), 1e-11, 1e-12)
            op = C(t, jnp.asarray(u), s.frhs, jnp.asarray(D), frhs_kwargs=kw, **o)
            e = 0.5e-8 if eps is None else eps
            want = (F(t + e, u, **kw) - F(t, u, **kw)) / e
            close("difference dt", op._fdt(), want, 1e-9 if eps else 1e-4, 1e-6 * (1 + np.max(np.abs(F(t, u, **kw)))))
            close("cached value", op._frhs_cached(), F(t, u, **kw), 1e-11, 1e-12)
            close("matvec", op.matvec(jnp.asarray(v)), D @ v, 1e-12)
            close("dense", op.dense(), D, 0, 0, scale=1.0)


@contract("finite difference operator", quick=4, thorough=30)
def c_fd(rng, case):
    C = need("ode_sys", "FdJacLinOp")
    n, t, u, v = draw(rng, case)
    if rng.uniform() < 0.25:
        u = np.zeros(n)
    s, F, J, Ft = system(rng, n)
    for kw in ({}, {"p": 1.9}):
        for o in ({}, dict(eps=1e-2, scale=-1.3, gamma=0.8)):
            case.update(u=u, kw=kw, opts=o)
            op = C(t, jnp.asarray(u), s.frhs, frhs_kwargs=kw, **o)
            e, sc, ga = o.get("eps", 0.5e-8), o.get("scale", 1.0), o.get("gamma", 0.0)
            h = e * (np.sum(np.abs(u)) or 1.0)
            want = (F(t, u + h * v, **kw) - F(t, u, **kw)) * sc / h + ga * v
            big = 1 + np.max(np.abs(F(t, u, **kw)))
            close("matvec", op.matvec(jnp.asarray(v)), want, 1e-9 if o else 1e-4, 2e-15 * big / h)
            close("time derivative", op._fdt(), (F(t + e, u, **kw) - F(t, u, **kw)) / e, 1e-9 if o else 1e-4, 2e-15 * big / e)
            close("cached value", op._frhs_cached(), F(t, u, **kw), 1e-11, 1e-12)
            require("shape", tuple(op.shape) == (n, n), op.shape)


@contract("finite difference operator at the zero state", quick=1, thorough=3)
def c_fd0(rng, case):
    C = need("ode_sys", "FdJacLinOp")
    n = int(rng.integers(1, 6))
    s, F, J, Ft = system(rng, n)
    v = rng.standard_normal(n)
    t = float(rng.uniform(-2, 2))
    case.update(n=n, t=t, v=v)
    op = C(t, jnp.zeros(n), s.frhs)
    close("matvec at u = 0", op.matvec(jnp.asarray(v)), J(t, np.zeros(n)) @ v, 1e-4, 1e-5)


@contract("finite difference increment follows the size of the state", quick=2, thorough=10)
def c_fd_scale(rng, case):
    """F(u) = c (u/s)^2 + b u/s for states of every magnitude s: the quotient shows the increment that was used"""
    C = need("ode_sys", "FdJacLinOp")
    n = int(rng.integers(1, 5))
    for s in (1e-12, 1e-9, 1e-5, 1.0, 1e6):
        c, b, w, v = rng.uniform(0.5, 2), rng.uniform(0.5, 2), rng.standard_normal(n), rng.standard_normal(n)
        u, e = s * w, 1e-2
        case.update(scale=s, n=n, u=u, v=v)
        f = lambda t, x, **k: c * (x / s) ** 2 + b * x / s
        op = C(0.0, jnp.asarray(u), jax.tree_util.Partial(f), eps=e)
        h = e * np.sum(np.abs(u))
        want = (f(0, u + h * v) - f(0, u)) / h
        close("matvec at magnitude %g" % s, op.matvec(jnp.asarray(v)), want, 1e-8, 1e-10 * np.max(np.abs(want)))


@contract("every magnitude of time, state and vector", quick=2, thorough=12)
def c_magnitudes(rng, case):
    CU, FD = need("ode_sys", "CustomJacLinOp"), need("ode_sys", "FdJacLinOp")
    n = int(rng.integers(1, 5))
    s, F, J, Ft = system(rng, n)
    D = rng.standard_normal((n, n))
    for t in (float(rng.uniform(1e3, 1e4)), -float(rng.uniform(1e3, 1e4)), float(rng.uniform(-1, 1) * 1e-9)):
        for mu, mv in ((1e-9, 1e-13), (1e3, 1e-6), (1.0, 1e6)):
            u, v = mu * rng.standard_normal(n), mv * rng.standard_normal(n)
            case.update(n=n, t=t, u=u, v=v)
            op = s.fjac(t, jnp.asarray(u))
            close("fjac matvec", op.matvec(jnp.asarray(v)), J(t, u) @ v, 1e-9, 1e-9 * np.max(np.abs(J(t, u))) * mv)
            close("fjac time derivative", op._fdt(), Ft(t, u), 1e-8, 1e-9 * (np.max(np.abs(u)) * (1 + abs(t))))
            op = CU(t, jnp.asarray(u), s.frhs, jnp.asarray(D), eps=1e-2)
            close("given array", op.matvec(jnp.asarray(v)), D @ v, 1e-12)
            close("difference dt", op._fdt(), (F(t + 1e-2, u) - F(t, u)) / 1e-2, 1e-8, 1e-12 * np.max(np.abs(u)) * (1 + t * t) / 1e-2)
            op = FD(t, jnp.asarray(u), s.frhs, eps=1e-2)
            h = 1e-2 * np.sum(np.abs(u))
            close("difference quotient", op.matvec(jnp.asarray(v)), (F(t, u + h * v) - F(t, u)) / h, 1e-7,
                  1e-13 * np.max(np.abs(F(t, u))) / h + 1e-9 * np.max(np.abs(J(t, u))) * mv)
