"""C01 on the real code: one accepted step of every method against a NumPy/SciPy reference."""
from .common import *

N = 4


def phis(J, ks):
    return {k: phi_ref(k, J) for k in ks}


def stage(ref, t, y, dt, c, gated=True):
    J, F, Ft = ref["J"](t, y), ref["F"](t, y), ref["Ft"](t, y)
    h = c * dt
    return y + h * phi_ref(1, h * J, F) + (h * h * phi_ref(2, h * J, Ft) if gated else 0), (Ft if gated else 0 * Ft)


def remf(ref, t, y, tr, yr, v):
    return ref["F"](tr, yr) - ref["F"](t, y) - ref["J"](t, y) @ (yr - y) - v * (tr - t)


def formula(method, ref, hist, dt, gated=True):
    t, y = hist[0]
    J = ref["J"](t, y)
    if method == "exp_pfd":
        return phi_ref(0, dt * J, y)
    if method == "epi3" and len(hist) > 1:
        tp, yp = hist[1]
        F, Ft = ref["F"](t, y), ref["Ft"](t, y)
        r = remf(ref, t, y, tp, yp, Ft)
        return y + dt * phi_ref(1, dt * J, F) + (2. / 3.) * dt * phi_ref(2, dt * J, r) + dt * dt * phi_ref(2, dt * J, Ft)
    if method in ("exprb2", "exprb2_pfd", "epi2", "exprb2_dense"):
        return stage(ref, t, y, dt, 1.0, gated)[0]
    if method in ("exprb3", "epi3"):
        y2, v = stage(ref, t, y, dt, 1.0, gated)
        return y2 + 2 * dt * phi_ref(3, dt * J, remf(ref, t, y, t + dt, y2, v))
    if method == "pexprb4":
        y2, v = stage(ref, t, y, dt, 0.5, gated)
        y3, v3 = stage(ref, t, y, dt, 1.0, gated)
        r2, r3 = remf(ref, t, y, t + dt / 2, y2, v), remf(ref, t, y, t + dt, y3, v3)
        return y3 + dt * phi_ref(3, dt * J, 16 * r2 - 2 * r3) + dt * phi_ref(4, dt * J, -48 * r2 + 12 * r3)
    raise KeyError(method)


def steps(rng, case, method, dts, n=N, tol=2e-6, gated=True, nonauto=True, start=None, floor=1e-3, **kw):
    I = need("ode_exp", "ExpRBIntegrator")
    if start is None:
        s, ref = make_sys(rng, n, nonauto=nonauto)
        y = 0.7 * rng.standard_normal(n)
        t = float(rng.uniform(-0.5, 1.5))
    else:
        s, ref, t, y = start
    case.update(method=method, dts=list(dts), t0=t, y0=y, **kw)
    it = I(s, t, jnp.asarray(y), method=method, **kw)
    hist = [(t, y)]
    for dt in dts:
        r = it.step(dt)
        want = formula(method, ref, hist, dt, gated)
        close("time after a %s step" % method, r.t, hist[0][0] + dt, 1e-13, 1e-13)
        inc = max(np.max(np.abs(want - hist[0][1])), floor)
        close("%s step %d of size %g" % (method, len(hist), dt), np.asarray(r.y) - hist[0][1], want - hist[0][1], tol, scale=inc)
        it.accept_step(r)
        hist.insert(0, (float(r.t), np.asarray(r.y)))


def dts(rng, k):
    return [float(d) for d in rng.uniform(0.05, 0.4, k)]


@contract("exprb2 / exprb3 / pexprb4 / epi2 / epi3 steps", quick=2, thorough=12)
def c_methods(rng, case):
    for m in ("exprb2", "exprb3", "pexprb4", "epi2"):
        steps(rng, case, m, dts(rng, 2), tol=3e-5)
    steps(rng, case, "epi3", dts(rng, 4), tol=3e-5)


@contract("dense and partial-fraction steps", quick=2, thorough=12)
def c_dense(rng, case):
    steps(rng, case, "exprb2_dense", dts(rng, 2), tol=3e-5)
    for tab in ("cram_16", "ctbl"):
        try:
            pf = need("matexp_phi_pfd_dict", "pfd_dict")
        except Skip:
            pf = {}
        if tab in pf:
            steps(rng, case, "exprb2_pfd", dts(rng, 2), tol=1e-4, pfd_method=tab)
            steps(rng, case, "exp_pfd", dts(rng, 2), tol=1e-4, pfd_method=tab)


@contract("correction disabled by a negative threshold; autonomous systems", quick=1, thorough=6)
def c_gate(rng, case):
    for m in ("exprb2", "exprb3", "pexprb4", "exprb2_pfd"):
        steps(rng, case, m, dts(rng, 1), tol=1e-4, gated=False, tol_fdt=-1.0)
        steps(rng, case, m, dts(rng, 1), tol=1e-4, nonauto=False)
        steps(rng, case, m, dts(rng, 1), tol=1e-4, tol_fdt=1e-3)
        steps(rng, case, m, dts(rng, 1), tol=1e-4, tol_fdt=0.0)


@contract("steps of any length", quick=1, thorough=6)
def c_long(rng, case):
    for m in ("exprb2", "exprb3", "pexprb4", "epi2", "exprb2_dense"):
        steps(rng, case, m, [float(rng.uniform(1.2, 4))], tol=1e-4)
    steps(rng, case, "epi3", [0.3, float(rng.uniform(1.2, 4))], tol=1e-4)


@contract("backward steps", quick=1, thorough=6)
def c_backward(rng, case):
    for m in ("exprb2", "exprb3", "pexprb4", "epi2", "exprb2_dense"):
        steps(rng, case, m, [-0.6 * d for d in dts(rng, 2)], tol=1e-4)
    steps(rng, case, "epi3", [-0.6 * d for d in dts(rng, 3)], tol=1e-4)


def steady(rng, n):
    """at rest until the forcing sets in smoothly at t = 0"""
    ode = mod("ode_sys")
    A, Bm, C, g = stable_matrix(rng, n), rng.standard_normal((n, n)) / n, rng.standard_normal((n, n)) / n, 3 * rng.standard_normal(n)
    Aj, Bj, Cj, gj = map(jnp.asarray, (A, Bm, C, g))

    class S(ode.OdeSys):
        def _frhs(self, t, u, **kw):
            return Aj @ u + Bj @ jnp.tanh(Cj @ u) + gj * jnp.maximum(t, 0.) ** 3
    return S(), dict(F=lambda t, u: A @ u + Bm @ np.tanh(C @ u) + g * max(t, 0.) ** 3,
                     J=lambda t, u: A + Bm @ np.diag(1 - np.tanh(C @ u) ** 2) @ C, Ft=lambda t, u: 3 * g * max(t, 0.) ** 2)


def shrunk(rng, n, c):
    """the system in units in which everything is small: c F(t, u / c)"""
    s, ref = make_sys(rng, n)
    ode = mod("ode_sys")

    class S(ode.OdeSys):
        def _frhs(self, t, u, **kw):
            return c * s._frhs(t, u / c)
    return S(), dict(F=lambda t, u: c * ref["F"](t, u / c), J=lambda t, u: ref["J"](t, u / c), Ft=lambda t, u: c * ref["Ft"](t, u / c))


@contract("systems at rest until the forcing sets in", quick=1, thorough=6)
def c_steady(rng, case):
    for m in ("epi3", "exprb3", "exprb2", "exprb2_dense", "exprb2_pfd"):
        d = float(rng.uniform(0.3, 0.6))
        s, ref = steady(rng, N)
        steps(rng, case, m, [d, d, 0.8 * d], tol=1e-5, start=(s, ref, -float(rng.uniform(0.1, 0.6)) * d, np.zeros(N)))


@contract("small states with the threshold of the correction at zero", quick=1, thorough=6)
def c_small(rng, case):
    for m, c in (("exprb2_dense", 1e-9), ("exprb2_pfd", 1e-9), ("exprb2", 1e-6), ("exprb3", 1e-6)):
        s, ref = shrunk(rng, N, c)
        steps(rng, case, m, dts(rng, 1), tol=1e-5, tol_fdt=0, floor=1e-3 * c,
              start=(s, ref, float(rng.uniform(-0.5, 1.5)), 0.7 * c * rng.standard_normal(N)))


@contract("configured Krylov dimension and orthogonalisation depth are used", quick=1, thorough=3)
def c_krylov(rng, case):
    # 12 unknowns: with the default settings the steps are exact only if the basis may grow to 12 vectors
    for m in ("exprb2", "exprb3", "epi2", "pexprb4"):
        steps(rng, case, m, [0.9], n=12, tol=3e-5, max_krylov_dim=20, iom=20)


@contract("partial-fraction steps use the configured table in every product", quick=2, thorough=10)
def c_table(rng, case):
    """coarse tables: every phi product is that of the table, which differs visibly from the exact one"""
    I = need("ode_exp", "ExpRBIntegrator")
    pf = need("matexp_phi_pfd_dict", "pfd_dict")
    for tab in ("IE", "3", "pade_0_2"):
        if tab not in pf:
            continue
        ps, cs, c0 = pf[tab]

        def ph(k, Z, b):
            r = c0 * b if k == 0 else 0 * b
            for p_, c_ in zip(ps, cs):
                r = r + np.real(2 * c_ / p_ ** k * np.linalg.solve(Z - p_ * np.eye(len(b)), b))
            return r
        s, ref = make_sys(rng, N)
        y, t, dt = 0.7 * rng.standard_normal(N), float(rng.uniform(-0.5, 1.5)), float(rng.uniform(0.2, 0.5))
        case.update(table=tab, t=t, y=y, dt=dt)
        J, F, Ft = ref["J"](t, y), ref["F"](t, y), ref["Ft"](t, y)
        want = y + dt * ph(1, dt * J, F) + dt * dt * ph(2, dt * J, Ft)
        got = I(s, t, jnp.asarray(y), method="exprb2_pfd", pfd_method=tab).step(dt).y
        close("exprb2_pfd increment with table %s" % tab, np.asarray(got) - y, want - y, 1e-9)
        got = I(s, t, jnp.asarray(y), method="exp_pfd", pfd_method=tab).step(dt).y
        close("exp_pfd with table %s" % tab, got, ph(0, dt * J, y), 1e-9)


@contract("a step depends on the current point only", quick=1, thorough=6)
def c_fresh(rng, case):
    """after a step that was not accepted, a reset to another state at the same time and an accepted result of another
    origin, the formula holds at the current point"""
    I = need("ode_exp", "ExpRBIntegrator")
    SR = need("ode_sys", "StepResult")
    for m in ("exprb2", "exprb3", "pexprb4", "epi2", "exprb2_dense", "exprb2_pfd", "exp_pfd"):
        s, ref = make_sys(rng, N)
        t, dt = float(rng.uniform(-0.5, 1.5)), float(rng.uniform(0.05, 0.4))
        ys = [0.7 * rng.standard_normal(N) for _ in range(3)]
        case.update(method=m, t=t, dt=dt, states=[list(y) for y in ys])
        it = I(s, t, jnp.asarray(ys[0]), method=m)
        it.step(dt)
        it.reset_ic(t, jnp.asarray(ys[1]))
        for j in (1, 2):
            opts = {}
            r = it.step(dt, frhs_kwargs=opts)
            require("%s leaves the caller's options alone" % m, not opts, repr(opts))
            want = formula(m, ref, [(t, ys[j])], dt)
            inc = max(np.max(np.abs(want - ys[j])), 1e-3)
            close("%s step at state %d" % (m, j), np.asarray(r.y) - ys[j], want - ys[j], 1e-4, scale=inc)
            it.accept_step(SR(t, dt, jnp.asarray(ys[2]), -1.0))


@contract("epi3 with previous points of any time", quick=1, thorough=6)
def c_epi3_times(rng, case):
    I = need("ode_exp", "ExpRBIntegrator")
    SR = need("ode_sys", "StepResult")
    for back in (0.3, -0.25, 0.0):
        s, ref = make_sys(rng, N)
        t, dt = float(rng.uniform(-0.5, 1.5)), float(rng.uniform(0.05, 0.4))
        ys = [0.7 * rng.standard_normal(N) for _ in range(2)]
        case.update(t=t, dt=dt, previous=t + back, states=[list(y) for y in ys])
        it = I(s, t + back, jnp.asarray(ys[1]), method="epi3")
        it.accept_step(SR(t, -back, jnp.asarray(ys[0]), -1.0))
        want = formula("epi3", ref, [(t, ys[0]), (t + back, ys[1])], dt)
        close("epi3 increment", np.asarray(it.step(dt).y) - ys[0], want - ys[0], 3e-5, scale=max(np.max(np.abs(want - ys[0])), 1e-3))
