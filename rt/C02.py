"""C02 on the real code: splitting methods against a NumPy/SciPy reference."""
from .common import *

N = 4


def formula(method, ref, t, y, dt, L):
    m = method.replace("_dense", "")
    F = ref["F"](t, y)
    p = lambda k, c, v: phi_ref(k, c * dt * L, v)
    rem = lambda c, yr: ref["F"](t + c * dt, yr) - F - L @ (yr - y)
    if m == "exp1":
        return y + dt * p(1, 1.0, F)
    if m == "exp2":
        c2 = 1.0 if method == "exp2" else 2. / 3.
        r2 = rem(c2, y + c2 * dt * p(1, c2, F))
        return y + dt * p(1, 1.0, F) + dt / c2 * p(2, 1.0, r2)
    c2 = c3 = 2. / 3.
    r2 = rem(c2, y + c2 * dt * p(1, c2, F))
    r3 = rem(c3, y + c3 * dt * p(1, c3, F) + (4. / 9. / c2) * dt * p(2, c3, r2))
    return y + dt * p(1, 1.0, F) + 1.5 * dt * p(2, 1.0, r3)


def split_sys(rng, n):
    """split system whose operator depends on time and state"""
    ode = mod("ode_sys")
    A = stable_matrix(rng, n)
    Bm = 0.7 * rng.standard_normal((n, n)) / np.sqrt(n)
    D = 0.3 * rng.standard_normal((n, n))
    Aj, Bj, Dj = map(jnp.asarray, (A, Bm, D))

    class S(ode.OdeSplitSys):
        def _frhs(self, t, u, **kw):
            return Aj @ u + Bj @ jnp.tanh(u) + jnp.sin(t) * jnp.cos(u)

        def _fl(self, t, u, **kw):
            return ode.MatrixLinOp(Aj + Dj * jnp.sin(u)[:, None] + t * jnp.eye(n) * 0.1)
    ref = dict(F=lambda t, u: A @ u + Bm @ np.tanh(u) + np.sin(t) * np.cos(u),
               L=lambda t, u: A + D * np.sin(u)[:, None] + t * np.eye(n) * 0.1)
    return S(), ref


def run(rng, case, method, ops):
    C = need("ode_exp", "ExpSplitIntegrator")
    s, ref = split_sys(rng, N)
    t, y = float(rng.uniform(0, 1)), 0.8 * rng.standard_normal(N)
    case.update(method=method, ops=str(ops), t0=t, y0=y)
    I = C(s, t, jnp.asarray(y), method=method)
    built = None
    for op in ops:
        if op in ("reset", "reset here"):        # at another time, or at the same time with another state
            t, y = float(rng.uniform(0, 1)) if op == "reset" else t, 0.8 * rng.standard_normal(N)
            I.reset_ic(t, jnp.asarray(y))
            built = None
            continue
        dt = op
        r = I.step(dt)
        L = ref["L"](t, y)
        if method.endswith("_dense"):
            if built is None or built[0] != dt:
                built = (dt, L)
            L = built[1]
        want = formula(method, ref, t, y, dt, L)
        close("%s: time" % method, r.t, t + dt, 1e-13, 1e-13)
        close("%s: step of size %g in history %s" % (method, dt, ops), np.asarray(r.y) - y, want - y, 3e-5,
              scale=max(np.max(np.abs(want - y)), 1e-2))
        I.accept_step(r)
        t, y = float(r.t), np.asarray(r.y)


@contract("Krylov splitting steps", quick=2, thorough=12)
def c_krylov(rng, case):
    for m in ("exp1", "exp2", "exp3"):
        a, b = rng.uniform(0.1, 0.5, 2)
        run(rng, case, m, [a, b, "reset", a, "reset here", a, -a])


@contract("dense splitting steps, step-size changes and resets", quick=2, thorough=12)
def c_dense(rng, case):
    for m in ("exp1_dense", "exp2_dense", "exp3_dense"):
        a, b = rng.uniform(0.1, 0.5, 2) * rng.choice([-1, 1], 2)
        run(rng, case, m, [a, a, b, a, "reset", a, b, "reset", b, -b, a, "reset here", a])


@contract("step sizes that are close to each other", quick=2, thorough=8)
def c_close(rng, case):
    """fast dynamics, so that step sizes very close in absolute terms give different steps"""
    C = need("ode_exp", "ExpSplitIntegrator")
    ode = mod("ode_sys")
    speed = 10.0 ** float(rng.uniform(3, 9))
    A = stable_matrix(rng, N)
    Bm = 0.7 * rng.standard_normal((N, N)) / np.sqrt(N)
    Lm = A + 0.3 * rng.standard_normal((N, N)) / np.sqrt(N)
    Aj, Bj, Lj = map(jnp.asarray, (speed * A, speed * Bm, speed * Lm))

    class S(ode.OdeSplitSys):
        def _frhs(self, t, u, **kw):
            return Aj @ u + Bj @ jnp.tanh(u)

        def _fl(self, t, u, **kw):
            return ode.MatrixLinOp(Lj)
    ref = dict(F=lambda t, u: speed * (A @ u + Bm @ np.tanh(u)), L=lambda t, u: speed * Lm)
    for m in ("exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense"):
        t, y = 0.0, 0.8 * rng.standard_normal(N)
        I = C(S(), t, jnp.asarray(y), method=m)
        base = float(rng.uniform(0.2, 0.4)) / speed
        for dt in (base, base * 1.05, base * 0.9, base * (1 - 1e-3), base):
            case.update(method=m, dt=dt, speed=speed)
            r = I.step(dt)
            want = formula(m, ref, t, y, dt, ref["L"](t, y))
            close("%s: step of size %g" % (m, dt), np.asarray(r.y) - y, want - y, 3e-5, scale=max(np.max(np.abs(want - y)), 1e-2))
            I.accept_step(r)
            t, y = float(r.t), np.asarray(r.y)


@contract("steps of any length", quick=1, thorough=6)
def c_long(rng, case):
    for m in ("exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense"):
        run(rng, case, m, [float(rng.uniform(1.5, 4)), -float(rng.uniform(0.5, 1.5))])


@contract("states of every magnitude", quick=2, thorough=8)
def c_small(rng, case):
    """the same dynamics in other units: F_s(t, u) = s F(t, u / s)"""
    C = need("ode_exp", "ExpSplitIntegrator")
    ode = mod("ode_sys")
    s = 10.0 ** float(rng.uniform(-12, -7) if rng.uniform() < 0.7 else rng.uniform(4, 9))
    A = stable_matrix(rng, N)
    Bm = 0.7 * rng.standard_normal((N, N)) / np.sqrt(N)
    Lm = A + 0.3 * rng.standard_normal((N, N)) / np.sqrt(N)
    Aj, Bj, Lj = map(jnp.asarray, (A, Bm, Lm))

    class S(ode.OdeSplitSys):
        def _frhs(self, t, u, **kw):
            return Aj @ u + s * (Bj @ jnp.tanh(u / s)) + s * jnp.sin(t)

        def _fl(self, t, u, **kw):
            return ode.MatrixLinOp(Lj)
    ref = dict(F=lambda t, u: A @ u + s * (Bm @ np.tanh(u / s)) + s * np.sin(t), L=lambda t, u: Lm)
    for m in ("exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense"):
        t, y, dt = float(rng.uniform(0, 1)), 0.8 * s * rng.standard_normal(N), float(rng.uniform(0.2, 0.5))
        I = C(S(), t, jnp.asarray(y), method=m)
        case.update(method=m, dt=dt, unit=s, t=t, y=y)
        r = I.step(dt)
        want = formula(m, ref, t, y, dt, Lm)
        close("%s: step of a state of size %g" % (m, s), np.asarray(r.y) - y, want - y, 3e-5, scale=max(np.max(np.abs(want - y)), 1e-2 * s))
