"""C20 on the real code."""
from .common import *
import importlib


def prog(name):
    return importlib.import_module("ormatex_py.progression." + name)


def mesh(rng, periodic, width=5.0):
    import skfem as fem
    w = width
    m = fem.MeshLine1(np.array([[0., w]])).with_boundaries({"left": lambda x: np.isclose(x[0], 0.), "right": lambda x: np.isclose(x[0], w)})
    m = m.refined(int(rng.integers(1, 4)))
    if periodic:
        m = fem.MeshLine1DG.periodic(m, m.boundaries["right"], m.boundaries["left"])
    return m


def nonlin(ua, ug, k, kg=1.0, ka=1.0, ks=1e-12):
    return k * (np.maximum(ug, 1e-16) ** (2 / 3) + ks) * (kg * ug - ka * ua)


def sources(name, m, U, x):
    s = np.zeros_like(U)
    if name == "rad_1d_2s":
        t = nonlin(U[:, 0], U[:, 1], 2.0)
        s[:, 0] += t
        s[:, 1] -= t
    if name == "rad_1d_9s":
        for a, g, k in ((5, 7, 10e3), (6, 8, 0.9e3)):
            t = nonlin(U[:, a], U[:, g], k)
            s[:, a] += t
            s[:, g] -= t
        prof = np.tanh((x - 3.8) * 10) * -np.tanh((x - 4.2) * 10) / 2 + 0.5
        for g in (7, 8):
            s[:, g] -= 0.16 * U[:, g] * prof
        phi = np.where((x >= 0) & (x <= 1), np.cos(np.pi * (x - 0.5)), 0.0)[:, None]
        s += phi * np.asarray(m.fission_mat).sum(1)[None, :] + phi * (U @ np.asarray(m.transmute_mat).T)
    return s


@contract("right-hand side of the reaction-advection-diffusion systems", quick=9, thorough=60)
def c_rhs(rng, case):
    name = ("rad_1d_2s", "rad_1d_3s", "rad_1d_9s")[int(rng.integers(0, 3))]
    m, ad = prog(name), prog("advection_diffusion_1d")
    per, p = bool(rng.integers(0, 2)), int(rng.integers(1, 5))
    params = dict(nu=float(rng.uniform(0, 1e-2)), vel=float(rng.uniform(0.1, 2)), tau=float(rng.choice([0., 1.])))
    sem = ad.AdDiffSEM(mesh(rng, per), p=p, params=params)
    s = m.RAD_SEM(sem)
    A, Ml, b = sem.assemble()
    A, Ml, x = np.asarray(A.todense()), np.asarray(Ml), np.asarray(sem.collocation_points())
    n, N = s.bat_mat.shape[0], len(Ml)
    U = rng.uniform(-0.2, 1.0, (N, n))
    if rng.uniform() < 0.3:
        U *= 1e-10
    u = U.reshape(-1, order="F")
    case.update(system=name, periodic=per, p=p, params=params, u=u)
    got = np.asarray(s.frhs(float(rng.uniform(0, 3)), jnp.asarray(u)))
    require("length of the flat rate", got.shape == u.shape, got.shape)
    want = U @ np.asarray(s.bat_mat).T + sources(name, m, U, x) - (A @ U) / Ml[:, None]
    G = got.reshape((N, n), order="F")
    D = sem.dirichlet_bd
    if D is not None:
        want[D, :] = 0
        require("Dirichlet nodes do not move", bool(np.all(G[D, :] == 0)), G[D, :])
    close("rate of change", G, want, 1e-9, scale=max(1e-300, np.abs(A).max() / Ml.min() * np.abs(U).max() + np.abs(want).max()))
    v = rng.standard_normal(N * n)
    L = s.fl(0.0, jnp.asarray(u))
    want = -(A @ v.reshape((N, n), order="F")) / Ml[:, None]
    close("linear part", np.asarray(L.matvec(jnp.asarray(v))), want.reshape(-1, order="F"), 1e-10)


@contract("phase transfer conserves", quick=4, thorough=30)
def c_transfer(rng, case):
    name, meth, pairs = (("rad_1d_2s", "_source_nonlin_evap", ((0, 1),)), ("rad_1d_2s", "_source_poly", ((0, 1),)),
                         ("rad_1d_9s", "_nonlin_evap", ((5, 7), (6, 8))))[int(rng.integers(0, 3))]
    m, ad = prog(name), prog("advection_diffusion_1d")
    s = m.RAD_SEM(ad.AdDiffSEM(mesh(rng, True), p=2))
    f = getattr(s, meth, None)
    if f is None:
        raise Skip()
    n = s.bat_mat.shape[0]
    U = rng.uniform(-0.2, 1.0, (int(rng.integers(1, 9)), n))
    case.update(system=name, U=U)
    S = np.asarray(f(jnp.asarray(U)))
    scale = 1 + np.abs(S)
    for a, b in pairs:
        require("what leaves species %d enters species %d" % (a, b), bool(np.all(np.abs(S[:, a] + S[:, b]) <= 1e-13 * scale[:, a])), S[:, [a, b]])
    rest = [j for j in range(n) if not any(j in p for p in pairs)]
    require("other species untouched", bool(np.all(S[:, rest] == 0)))


@contract("layout", quick=4, thorough=20)
def c_layout(rng, case):
    for m in (mod("ode_utils"), prog("rad_1d_2s")):
        N, n = int(rng.integers(1, 7)), int(rng.integers(1, 7))
        U = rng.standard_normal((N, n))
        case.update(U=U)
        u = np.asarray(m.flatten_u(jnp.asarray(U)))
        require("species after species", np.array_equal(u, U.T.reshape(-1)))
        require("round trip", np.array_equal(np.asarray(m.stack_u(jnp.asarray(u), n)), U))


@contract("transfer models", quick=6, thorough=60)
def c_models(rng, case):
    m = prog("species_source_sink")
    ua, ug = rng.uniform(0, 2, 3), rng.uniform(0, 2, 3)
    k, kg, ka, a, ks, al, h, T, nb, cvol, ak, P = rng.uniform(0.1, 2, 12)
    al, T, P = al / 3 * float(rng.choice([1.0, 10.0 ** rng.uniform(-4, 0)])), 300 * T, 1e5 * P
    case.update(ua=ua, ug=ug, k=k, kg=kg, ka=ka, a=a, ks=ks, al=al, h=h, T=T, nb=nb, cvol=cvol, ak=ak, P=P)
    R = 8.3145
    J = jnp.asarray
    close("linear", m.mxf_liq_vapor_lin(J(ua), J(ug), k, kg, ka, a), k * a * (kg * ug - ka * ua), 1e-12)
    close("nonlinear", m.mxf_liq_vapor_nonlin(J(ua), J(ug), k, kg, ka, ks), nonlin(ua, ug, k, kg, ka, ks), 1e-12)
    close("nonlinear, empty gas", m.mxf_liq_vapor_nonlin(J(ua), J(-ug), k, kg, ka, ks), nonlin(ua, -ug, k, kg, ka, ks), 1e-12)
    close("sorption", m.mxf_diffusion_sorption(J(ua), J(ug), al, k, a), -k * a * (ua - ug / al), 1e-12)
    close("arrhenius", m.mxf_arrhenius(J(ua), J(ug), 1e3 * h, k, 1.5, 0.5, T), ua ** 1.5 * ug ** 0.5 * k * np.exp(-1e3 * h / (R * T)), 1e-12)
    sgn = rng.choice([-1.0, 1.0], np.shape(ua)), rng.choice([-1.0, 1.0], np.shape(ug))
    close("arrhenius, any sign", m.mxf_arrhenius(J(sgn[0] * ua), J(sgn[1] * ug), 1e3 * h, k), sgn[0] * ua * sgn[1] * ug * k * np.exp(-1e3 * h / (R * 900)), 1e-12)
    close("arrhenius defaults", m.mxf_arrhenius(J(ua), J(ug), 1e3 * h, k), ua * ug * k * np.exp(-1e3 * h / (R * 900)), 1e-12)

    def area(al, nb, ak, T, P):
        v = (cvol * al + ak * (cvol * ug / (P * 1e-6)) * R * T) / nb
        return nb * 4 * np.pi * (0.75 * v / np.pi) ** (2 / 3)
    close("bubble surface", m.bubble_surface_area(J(ug), cvol, alpha_g=al, nb=nb, a_k=ak, T=T, P=P), area(al, nb, ak, T, P), 1e-12)
    close("bubble transfer", m.mxf_liq_vapor_bubble_ig(J(ua), J(ug), cvol, al, k, h, nb, T),
          k * area(al, nb, 0.1, T, 101.3e3) * (ug / al * h * R * T - ua / (1 - al)), 1e-12)


@contract("well-mixed tank", quick=4, thorough=30)
def c_tank(rng, case):
    m = prog("bateman_nonlin_sys")
    vol, phi = float(10.0 ** rng.uniform(-3, 3)), float(rng.choice([0.0, rng.uniform(0, 1e9)]))
    s = m.NonlinearBateman(n_phi=phi, tank_vol=vol)
    u = rng.uniform(0, 1, 9)
    case.update(tank_vol=vol, n_phi=phi, u=u)
    got = np.asarray(s.frhs(0.0, jnp.asarray(u)))
    a, g = m.keymap.index("xe_135_a"), m.keymap.index("xe_135_v")
    v = (vol * 0.05 + 0.1 * (vol * u[g] / (101.3e3 * 1e-6)) * 8.3145 * 900) / 10
    A = 10 * 4 * np.pi * (0.75 * v / np.pi) ** (2 / 3)
    t = 0.01 * A * (u[g] / 0.05 * 1e-4 * 8.3145 * 900 - u[a] / 0.95)
    want = np.asarray(m.bateman_mat) @ u + phi * (np.asarray(m.transmute_mat) @ u) + phi * np.asarray(m.fission_vec)
    want[a] += t
    want[g] -= t
    close("rate of change", got, want, 1e-10)
