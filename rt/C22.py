"""C22 on the real code."""
from .common import *

P = ("alpha", "beta", "delta", "gamma")


def check(s, t, u, n, lab, rng):
    f = lambda tt, uu: s.frhs(tt, uu)
    op = s.fjac(t, jnp.asarray(u))
    J = np.asarray(jax.jacfwd(f, 1)(t, jnp.asarray(u)))
    ft = np.asarray(jax.jacfwd(f, 0)(t, jnp.asarray(u)))
    v = rng.standard_normal(n)
    close(lab + " Jacobian", op.dense(), J, 1e-10, 1e-12)
    close(lab + " Jacobian product", op.matvec(jnp.asarray(v)), J @ v, 1e-10, 1e-12)
    close(lab + " time derivative", op._fdt(), ft, 1e-10, 1e-12)
    close(lab + " cached value", op._frhs_cached(), f(t, jnp.asarray(u)), 1e-12)
    require(lab + " linear part has the shape of the Jacobian", np.asarray(s.fl(t, jnp.asarray(u)).dense()).shape == (n, n))
    return J


@contract("predator-prey systems", quick=12, thorough=100)
def c_lv(rng, case):
    m = mod("progression.lotka_volterra")
    kw = {k: float(rng.uniform(0.2, 3)) for k in P if rng.uniform() < 0.8}
    p = {k: kw.get(k, 1.0) for k in P}
    t, u = float(rng.uniform(-10, 10)), rng.uniform(-1, 3, 2)
    case.update(params=kw, t=t, u=u)
    x, y = u
    for nm, hunt in (("LotkaVolterra", 0.0), ("LotkaVolterraNonauto", 0.4 * (np.sin(0.2 * t) + 1))):
        s = getattr(m, nm)(**kw)
        close(nm + " equations", s.frhs(t, jnp.asarray(u)),
              [p["alpha"] * x - p["beta"] * x * y, p["delta"] * x * y - p["gamma"] * y - hunt * y], 1e-12)
        check(s, t, u, 2, nm, rng)


@contract("decay systems", quick=6, thorough=40)
def c_decay(rng, case):
    import contextlib
    import io
    bs = mod("progression.bateman_sys")
    n = int(rng.integers(1, 6))
    names = ["s%d" % i for i in range(n)]
    L = {s: ((names[int(rng.integers(0, n))], float(rng.uniform(0.1, 2))), ("none", float(rng.uniform(0.1, 2)))) for s in names}
    with contextlib.redirect_stdout(io.StringIO()):
        s = bs.TestBatemanSysJac(names, L)
    M = np.asarray(bs.gen_bateman_matrix(names, L))
    t, u = float(rng.uniform(-1, 1)), rng.standard_normal(n)
    case.update(lib=repr(L), t=t, u=u)
    close("right-hand side", s.frhs(t, jnp.asarray(u)), M @ u, 1e-12, 1e-14)
    close("Jacobian", check(s, t, u, n, "decay", rng), M, 1e-12, 1e-14)
    close("linear part", s.fl(t, jnp.asarray(u)).dense(), M, 1e-12, 1e-14)


@contract("nonlinear decay system", quick=4, thorough=20)
def c_nonlin(rng, case):
    m = mod("progression.bateman_nonlin_sys")
    n = len(m.keymap)
    flux = float(10 ** rng.uniform(6, 10))
    s = m.NonlinearBateman(n_phi=flux)
    u = rng.uniform(0, 2, n)
    case.update(u=u, flux=flux)
    a, g = m.keymap.index("xe_135_a"), m.keymap.index("xe_135_v")
    src = float(m.mxf_liq_vapor_bubble_ig(u[a], u[g], 100.0, 0.05, k=1e-2))
    w = np.asarray(m.bateman_mat) @ u + flux * (np.asarray(m.transmute_mat) @ u) + flux * np.diag(np.asarray(m.fission_mat))
    w[a] += src
    w[g] -= src
    close("nonlinear decay equations", s.frhs(0.3, jnp.asarray(u)), w, 1e-10)
    check(s, 0.3, u, n, "nonlinear decay", rng)


@contract("wrapper for array back ends", quick=4, thorough=20)
def c_wrap(rng, case):
    ode = mod("ode_sys")
    n = int(rng.integers(1, 5))
    s, ref = make_sys(rng, n)
    w = ode.OdeSysNp(s)
    t, u, v = float(rng.uniform(-1, 1)), rng.standard_normal(n), rng.standard_normal(n)
    case.update(t=t, u=u)
    for x in (u, u.reshape(-1, 1), np.asfortranarray(u.reshape(-1, 1))):
        f = w._frhs(t, jnp.asarray(x))
        require("an array", isinstance(f, np.ndarray))
        close("right-hand side", f, ref["F"](t, u), 1e-10, 1e-12)
        close("Jacobian", w._fjac(t, jnp.asarray(x)).dense(), ref["J"](t, u), 1e-10, 1e-12)
        close("Jacobian product", w._fjac(t, jnp.asarray(x)).matvec(jnp.asarray(v)), ref["J"](t, u) @ v, 1e-10, 1e-12)
