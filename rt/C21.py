"""C21 on the real code."""
from .common import *
import importlib


def prog(name):
    return importlib.import_module("ormatex_py.progression." + name)


GLL = {2: [-1, 1], 3: [-1, 0, 1], 4: [-1, -5 ** -0.5, 5 ** -0.5, 1], 5: [-1, -(3 / 7) ** 0.5, 0, (3 / 7) ** 0.5, 1]}


def ref(p):
    """points and weights on [0, 1] in ascending order, Lagrange basis derivatives at the points"""
    x = (1 + np.array(GLL[p + 1], float)) / 2
    V = np.vander(x, p + 1, increasing=True)
    w = np.linalg.solve(V.T, 1 / np.arange(1, p + 2))
    C = np.linalg.inv(V)                       # coefficients of the basis, one column each
    dV = np.zeros_like(V)
    dV[:, 1:] = V[:, :-1] * np.arange(1, p + 1)
    return x, w, dV @ C                        # D[q, j] = l_j'(x_q)


def mesh(rng, periodic):
    import skfem as fem
    n, L = int(rng.integers(2, 6)), float(rng.uniform(0.5, 4))
    pts = np.concatenate([[0], np.sort(rng.uniform(0.1, 0.9, n - 1)), [1]]) if n > 1 else np.array([0, 1.])
    pts = np.unique(np.round(pts, 3)) * L
    m = fem.MeshLine1.init_tensor(pts).with_boundaries({"left": lambda x: np.isclose(x[0], 0.), "right": lambda x: np.isclose(x[0], L)})
    if periodic:
        m = fem.MeshLine1DG.periodic(m, m.boundaries["right"], m.boundaries["left"])
    return m, pts, L


def reference(p, pts, L, periodic, X, a, f, nu, tau):
    """element by element, in the ordering of the degrees of freedom at X"""
    x0, w, D = ref(p)
    N = len(X)

    def dof(x):
        d = np.abs(X - x)
        if periodic:
            d = np.minimum(d % L, L - d % L)
        return int(np.argmin(d))
    A, M, b = np.zeros((N, N)), np.zeros((N, N)), np.zeros(N)
    for l, r in zip(pts[:-1], pts[1:]):
        h = r - l
        x = l + h * x0
        g = [dof(z) for z in x]
        for q in range(p + 1):
            v = a(x[q])
            t = tau * h / (2 * abs(v)) if v != 0 else 0.0
            for i in range(p + 1):
                dvi, vi = D[q, i] / h, float(i == q)
                b[g[i]] += w[q] * h * f(x[q]) * (vi + t * v * dvi)
                for j in range(p + 1):
                    duj, uj = D[q, j] / h, float(j == q)
                    A[g[i], g[j]] += w[q] * h * (nu * duj * dvi - v * uj * dvi + t * v * v * duj * dvi)
                    M[g[i], g[j]] += w[q] * h * (uj * vi + t * v * dvi * uj)
    D0 = []
    if not periodic:
        for z, s in ((0.0, -1), (L, 1)):
            A[dof(z), dof(z)] += s * a(z)
        D0 = [dof(0.0)]
        A[D0] = 0
        A[D0, D0] = 1
        M[D0] = 0
        M[D0, D0] = 1
        b[D0] = 0
    return A, M.sum(1), b, D0


def system(rng, case, custom=False):
    ad = prog("advection_diffusion_1d")
    per, p = bool(rng.integers(0, 2)), int(rng.integers(1, 5))
    m, pts, L = mesh(rng, per)
    vel = float(rng.choice([0.0, 1.0, -1.0, rng.uniform(-2, 2), 1e-3]))
    nu, tau = float(rng.choice([0.0, rng.uniform(0, 0.1)])), float(rng.choice([0.0, 1.0, rng.uniform(0, 2)]))
    case.update(periodic=per, p=p, points=pts, params=dict(nu=nu, vel=vel, tau=tau))
    a, f = (lambda x: vel), (lambda x: 0.0)
    old = {}
    if custom:
        if not (hasattr(ad, "vel_f") and hasattr(ad, "src_f")):
            raise Skip("no velocity / source functions")
        k = 2 * np.pi / L
        a = lambda x: vel * (0.3 + np.sin(k * x))
        f = lambda x: 1.0 + np.cos(k * x)
        old = dict(vel_f=ad.vel_f, src_f=ad.src_f)
        ad.vel_f = lambda x, vel, **kw: vel * (0.3 + np.sin(k * x))
        ad.src_f = lambda x, **kw: 1.0 + np.cos(k * x[0])
        case.update(velocity="vel*(0.3+sin(2 pi x/L))", source="1+cos(2 pi x/L)")
    try:
        s = ad.AdDiffSEM(m, p=p, params=dict(nu=nu, vel=vel, tau=tau))
        out = s.assemble()
        X = np.asarray(s.collocation_points())
    finally:
        for nm, v in old.items():
            setattr(ad, nm, v)
    return ad, s, out, X, reference(p, pts, L, per, X, a, f, nu, tau), per, nu, tau, p, L


def check(case, r):
    ad, s, (A, Ml, b), X, (A0, M0, b0, D0), per, nu, tau, p, L = r
    A, Ml, b = np.asarray(A.todense()), np.asarray(Ml), np.asarray(b)
    sc = max(1.0, np.abs(A0).max())
    close("transport matrix", A, A0, rtol=1e-9, atol=1e-10 * sc)
    close("lumped mass", Ml, M0, rtol=1e-9, atol=1e-11)
    close("load", b, b0, rtol=1e-9, atol=1e-11)
    if per:
        close("nothing gained or lost", A.sum(0), np.zeros(len(A)), atol=1e-10 * sc)
        close("total mass", Ml.sum(), L, rtol=1e-10)


@contract("assembled matrices", quick=14, thorough=120)
def c_assembly(rng, case):
    check(case, system(rng, case))


@contract("assembled matrices, custom velocity and source", quick=10, thorough=120)
def c_custom(rng, case):
    check(case, system(rng, case, custom=True))


@contract("affine systems", quick=6, thorough=60)
def c_affine(rng, case):
    r = system(rng, case)
    ad, s, _, X, (A0, M0, b0, D0), per, nu, tau, p, L = r
    if np.abs(M0).min() < 1e-8:
        return          # the stabilised lumped mass can vanish at an outflow end
    u = rng.standard_normal(len(X))
    t = float(rng.uniform(0, 5))
    case.update(u=u, t=t)
    L0 = -A0 / M0[:, None]
    want = (b0 - A0 @ u) / M0
    want[D0] = 0
    sc = max(1.0, np.abs(L0).max())
    for cls in ("AffineLinearSEM", "NonautonomousSEM"):
        o = getattr(ad, cls)(s)
        w = want.copy()
        if cls == "NonautonomousSEM" and len(D0):
            z = (0.3 + 0.5 * t) % 1.0
            d, sg = (z, 1.0) if z <= 0.5 else (1 - z, -1.0)
            if min(d, 0.5 - d) < 1e-6:
                w[D0] = np.asarray(o.frhs(t, jnp.asarray(u)))[D0]
            else:
                w[D0] = np.exp(-100 * d * d) * (-200 * d) * sg * 0.5
        close(cls + ".frhs", o.frhs(t, jnp.asarray(u)), w, rtol=1e-8, atol=1e-9 * sc)
        close(cls + ".fl", o.fl(t, jnp.asarray(u)).matvec(jnp.asarray(u)), L0 @ u, rtol=1e-8, atol=1e-9 * sc)
        close(cls + ".fl dense", o.fl(t, jnp.asarray(u)).dense(), L0, rtol=1e-8, atol=1e-9 * sc)
        close(cls + ".fm", o.fm(t, jnp.asarray(u)).matvec(jnp.asarray(u)), M0 * u, rtol=1e-8, atol=1e-10)


@contract("field functions", quick=3, thorough=20)
def c_fields(rng, case):
    """registered fields reach the kernels, interpolated at the points of the right basis"""
    ad = prog("advection_diffusion_1d")
    per, p = bool(rng.integers(0, 2)), int(rng.integers(1, 5))
    m, pts, L = mesh(rng, per)
    seen = []
    c = float(rng.uniform(1, 2))

    def kappa(x, **kw):
        seen.append(kw)
        return c + 0.5 * np.asarray(x) / L
    s = ad.AdDiffSEM(m, p=p, params=dict(vel=0.7), field_fns=dict(kappa=kappa))
    case.update(p=p, periodic=per, points=pts)
    w = s.w_ext(s.basis, gain=3.0)
    X = np.asarray(s.collocation_points())
    q = s.basis.mapping.F(s.basis.quadrature[0])[0] if hasattr(s.basis.mapping, "F") else None
    require("fields see parameters and extra arguments", all(k.get("vel") == 0.7 and k.get("gain") == 3.0 for k in seen) and seen, str(seen))
    got = np.asarray(w["kappa"].value if hasattr(w["kappa"], "value") else w["kappa"])
    if not per and q is not None and got.shape == q.shape:
        close("field at the quadrature points", got, c + 0.5 * q / L, rtol=1e-9)
    s.assemble(gain=3.0)
    require("fields see extra arguments in every assembly", all(k.get("gain") == 3.0 for k in seen), str(seen))


@contract("a field registered under the name of a parameter takes its place", quick=3, thorough=15)
def c_field_param(rng, case):
    ad = prog("advection_diffusion_1d")
    per, p = bool(rng.integers(0, 2)), int(rng.integers(1, 4))
    m, pts, L = mesh(rng, per)
    nm = str(rng.choice(["nu", "vel"]))
    base = dict(nu=float(rng.uniform(0.1, 1)), vel=float(rng.uniform(-2, 2)), tau=float(rng.uniform(0, 1)))
    value = float(rng.uniform(0.2, 3))
    case.update(p=p, periodic=per, points=pts, field=nm, value=value, params=base)
    s = ad.AdDiffSEM(m, p=p, params=base, field_fns={nm: lambda x, **kw: 0. * np.asarray(x) + value})
    want = ad.AdDiffSEM(m, p=p, params={**base, nm: value})
    for what, a, b in zip(("system matrix", "lumped mass", "load"), s.assemble(), want.assemble()):
        dense = lambda v: np.asarray(v.todense() if hasattr(v, "todense") else v)
        close(what, dense(a), dense(b), rtol=1e-9, atol=1e-10)


@contract("quadrature and nodal basis", quick=8, thorough=60)
def c_basis(rng, case):
    en = prog("element_line_pp_nodal")
    p = int(rng.integers(1, 5))
    X, W = en.GLL_quad()(p + 1)
    X, W = np.asarray(X), np.asarray(W)
    x0, w0, _ = ref(p)
    o = np.argsort(X[0])
    close("quadrature points", X[0][o], x0, rtol=1e-13, atol=1e-14)
    close("quadrature weights", W[o], w0, rtol=1e-12)
    close("ends first", X[0, :2], np.array([0.0, 1.0]), atol=1e-15)
    import logging
    logging.disable(logging.WARNING)
    try:
        e = en.ElementLinePp_nodal(p)
    finally:
        logging.disable(logging.NOTSET)
    close("degrees of freedom sit at the points", np.asarray(e.doflocs)[:, 0], X[0], rtol=1e-13, atol=1e-14)
    n = int(rng.integers(1, 6))
    sets = [rng.uniform(0, 1, (1, n)) for _ in range(2)] + [rng.uniform(0, 1, (1, n + 1))]
    C = np.linalg.inv(np.vander(X[0], p + 1, increasing=True))
    order = [int(k) for k in rng.integers(0, 3, 6)]
    case.update(p=p, points=sets, order=order)
    for k in order:
        z = sets[k][0]
        V = np.vander(z, p + 1, increasing=True)
        dV = np.zeros_like(V)
        dV[:, 1:] = V[:, :-1] * np.arange(1, p + 1)
        for i in rng.permutation(p + 1)[:2]:
            v, d = e.lbasis(sets[k], int(i))
            close("basis value", v, V @ C[:, i], rtol=1e-9, atol=1e-11)
            close("basis derivative", np.asarray(d).reshape(-1), dV @ C[:, i], rtol=1e-8, atol=1e-9)
    z = sets[0]
    for _ in range(3):                # the same array object with other points in it
        i = int(rng.integers(0, p + 1))
        v, _ = e.lbasis(z, i)
        close("basis value", v, np.vander(z[0], p + 1, increasing=True) @ C[:, i], rtol=1e-9, atol=1e-11)
        z[0] = rng.uniform(0, 1, n)


@contract("distance on the circle", quick=3, thorough=20)
def c_torus(rng, case):
    ad = prog("advection_diffusion_1d")
    x, y = rng.uniform(-3, 3, 20), rng.uniform(-3, 3, 20)
    case.update(x=x, y=y)
    d = np.abs(x % 1 - y % 1)
    close("torus distance", ad.torus_distance(jnp.asarray(x), jnp.asarray(y)), np.minimum(d, 1 - d), rtol=1e-12, atol=1e-13)
