"""C23 on the real code."""
from .common import *

METHODS = ("epi2_leja_re", "epi2_leja_im", "epi3_leja_im")


def want_step(ref, m, t, y, dt, prev):
    J, F, Ft = ref["J"](t, y), ref["F"](t, y), ref["Ft"](t, y)
    b2 = dt ** 2 * Ft
    if m == "epi3_leja_im" and prev is not None:
        tp, yp = prev
        b2 = b2 + dt * 2 / 3 * (ref["F"](tp, yp) - F - J @ (yp - y) - Ft * (tp - t))
    return y + phi_ref(1, dt * J, dt * F) + phi_ref(2, dt * J, b2)


@contract("steps equal the exponential formula", quick=3, thorough=20)
def c_formula(rng, case):
    C = need("ode_exp", "ExpLejaIntegrator")
    n = int(rng.integers(2, 5))
    s, ref = make_sys(rng, n)
    for m in METHODS:
        t, y = float(rng.uniform(-1, 2)), rng.standard_normal(n)
        kw = dict(leja_tol=1e-11, n_leja=int(rng.integers(60, 120)))
        rho = max(abs(np.linalg.eigvals(ref["J"](t, y)))) * 1.3 + 0.5
        if rng.uniform() < 0.6:
            kw["leja_a"] = -rho
            if m != "epi2_leja_re" and rng.uniform() < 0.7:
                kw["leja_c"] = rho
        if rng.uniform() < 0.5:
            kw["leja_n_zeros"] = int(rng.integers(0, 4))
        case.update(method=m, options=kw, t=t, y=y)
        I = C(s, t, jnp.asarray(y), method=m, **kw)
        prev = None
        for dt in (0.21, 0.13, 0.3):
            case.update(dt=dt)
            r = I.step(dt)
            close("%s step" % m, r.y, want_step(ref, m, t, y, dt, prev), 2e-5)
            close("%s time" % m, r.t, t + dt, 1e-13)
            close("%s state untouched before acceptance" % m, I.y_hist[0], y, 0, 0)
            prev = (t, y)
            I.accept_step(r)
            t, y = float(r.t), np.asarray(r.y)


class Scripted:
    def __init__(self, n, plan):
        self.n, self.plan, self.calls = n, plan, []

    def __call__(self, a, tau, v, x, *rest, **kw):
        ok, big = self.plan[len(self.calls)]
        self.calls.append((a, float(tau), np.asarray(v), np.asarray(x), rest, kw))
        return jnp.ones(self.n), 3, ok, big


@contract("learned substep size and loud failures", quick=5, thorough=30)
def c_learn(rng, case):
    ex = mod("ode_exp")
    n = int(rng.integers(2, 5))
    s, ref = make_sys(rng, n)
    for m in METHODS:
        nm = "real_leja_expmv_substep" if m.endswith("re") else "complex_conj_leja_expmv_substep"
        need("ode_exp", nm)
        K = int(rng.integers(3, 16))
        plan = [(bool(rng.uniform() < 0.8), float(rng.uniform(0.01, 1))) for _ in range(K)]
        y0 = rng.standard_normal(n)
        kw = dict(leja_tol=10.0 ** float(rng.uniform(-12, -4)), n_leja=12)
        kind = int(rng.integers(0, 4))
        if kind:
            kw["leja_a"] = -float(rng.uniform(1, 30))
        if kind == 2:
            kw["leja_c"] = float(rng.uniform(1, 10))
        case.update(method=m, plan=plan, options=kw)
        S = Scripted(n, plan)
        old = getattr(ex, nm)
        setattr(ex, nm, S)
        try:
            I = ex.ExpLejaIntegrator(s, 0.1, jnp.asarray(y0), method=m, **kw)
            t, y, size, k, prev = 0.1, y0, 1.0, 0, None
            for j, (ok, big) in enumerate(plan):
                dt = float(rng.uniform(0.05, 0.4)) if rng.uniform() < 0.7 else -0.2
                case.update(step=j, dt=dt)
                try:
                    r = I.step(dt)
                    err = False
                except RuntimeError:
                    err = True
                if len(S.calls) != j + 1:
                    raise Skip("interpolation not called through its module")
                a, tau, v, x, rest, kws = S.calls[j]
                close("starts from 1.1 times the learned size", tau, 1.1 * size, 1e-12)
                J, F, Ft = ref["J"](t, y), ref["F"](t, y), ref["Ft"](t, y)
                b2 = dt ** 2 * Ft
                if m == "epi3_leja_im" and prev is not None:
                    b2 = b2 + dt * 2 / 3 * (ref["F"](*prev) - F - J @ (prev[1] - y) - Ft * (prev[0] - t))
                want = np.zeros((n + 2, n + 2))
                want[:n, :n], want[:n, n], want[:n, n + 1], want[n, n + 1] = dt * J, b2, dt * F, 1.0
                got = np.stack([np.asarray(a.matvec(jnp.asarray(e))) for e in np.eye(n + 2)], 1)
                E, G = scipy.linalg.expm(want), scipy.linalg.expm(got)
                close("exponential of the augmented system applied to the start vector", (G @ v)[:n], E[:n, -1], 1e-6, 1e-6)
                if "leja_a" in kw and m.endswith("re"):
                    nn, sh, sc = (list(rest) + [None] * 3)[:3]
                    sh, sc = kws.get("shift", sh), kws.get("scale", sc)
                    if sh is not None and sc is not None:
                        close("shift from the given bound", sh, dt * kw["leja_a"] / 2, 1e-12)
                        close("scale from the given bound", sc, abs(dt * kw["leja_a"]) / 4, 1e-12)
                require("raises exactly when not converged", err == (not ok), (err, ok))
                close("state untouched", I.y_hist[0], y, 0, 0)
                close("time untouched", I.t, t, 0, 0)
                if ok:
                    k += 1
                    w = min(k, 10)
                    size = big / w + (w - 1) / w * size
                    close("new state", r.y, y + 1.0, 1e-13)
                    close("new time", r.t, t + dt, 1e-13)
                    if rng.uniform() < 0.8:
                        I.accept_step(r)
                        prev = (t, y)
                        t, y = t + dt, y + 1.0
                close("learned substep size", I.leja_substep_size, size, 1e-12)
        finally:
            setattr(ex, nm, old)


@contract("an interpolation that did not converge raises, with and without substeps", quick=2, thorough=6)
def c_loud(rng, case):
    C = need("ode_exp", "ExpLejaIntegrator")
    n = 4
    ode = mod("ode_sys")
    A = stable_matrix(rng, n) * 40
    Aj = jnp.asarray(A)

    class S(ode.OdeSys):
        def _frhs(self, t, u, **kw):
            return Aj @ u + jnp.sin(u)
    ref = dict(F=lambda t, u: A @ u + np.sin(u), J=lambda t, u: A + np.diag(np.cos(u)), Ft=lambda t, u: 0 * u)
    for m in METHODS:
        for sub in (True, False):
            for npts in (4, 90):
                y = rng.standard_normal(n)
                kw = dict(leja_tol=1e-12, n_leja=npts, leja_substep=sub)
                case.update(method=m, options=kw, y=y)
                dt = 0.2 if npts == 4 else 0.01
                I = C(S(), 0.0, jnp.asarray(y), method=m, **kw)
                try:
                    r = I.step(dt)
                except RuntimeError:
                    continue
                close("%s: a step that is returned was converged" % m, r.y, want_step(ref, m, 0.0, y, dt, None), 1e-6, scale=1.0)
