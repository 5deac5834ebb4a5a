"""C09 on the real code."""
from .common import *


def draw(rng, case, kmax=5):
    n, k = int(rng.integers(1, 7)), int(rng.integers(0, kmax + 1))
    Z = stable_matrix(rng, n, float(rng.choice([0.1, 1.0, 3.0])))
    if rng.uniform() < 0.25:
        Z = np.triu(rng.standard_normal((n, n)), 1)
    kind = int(rng.integers(0, 3))
    b = rng.standard_normal(n) if kind == 0 else rng.standard_normal((n, 1 if kind == 1 else int(rng.integers(2, 5))))
    case.update(n=n, k=k, Z=Z, B=b)
    return n, k, Z, b


@contract("extension product", quick=10, thorough=80)
def c_appl(rng, case):
    mp = mod("matexp_phi")
    n, k, Z, b = draw(rng, case)
    got = np.asarray(mp.f_phi_k_appl(jnp.asarray(Z), jnp.asarray(b), k))
    require("shape of B", got.shape == b.shape, got.shape)
    want = phi_ref(k, Z, b)
    th = max(1.0, np.abs(Z).sum(1).max())
    # Taylor polynomial of degree 4 at norm < 1/8 inside the squaring evaluator
    close("phi_%d(Z)B" % k, got, want, 1e-5 * th, scale=np.abs(b).max() * max(1.0, np.linalg.norm(scipy.linalg.expm(Z), 2)))


def formula(ps, cs, c0, Z, b, k):
    n = Z.shape[0]
    out = np.zeros(b.shape) + (np.real(c0) * b if k == 0 else 0)
    for p, c in zip(np.asarray(ps).ravel(), np.asarray(cs).ravel()):
        out = out + np.real(2 * c * p ** (-float(k)) * np.linalg.solve(Z - p * np.eye(n), b + 0j))
    return out


@contract("partial fractions with every named table", quick=24, thorough=200)
def c_pfd(rng, case):
    mp = mod("matexp_phi")
    tables = sorted(mp.pfd_dict, key=str)
    n, k, Z, b = draw(rng, case, 10)
    tab = tables[int(rng.integers(0, len(tables)))]
    case.update(table=tab)
    got = np.asarray(mp.f_phi_k_pfd(jnp.asarray(Z), jnp.asarray(b), k, tab))
    require("shape of B", got.shape == b.shape, got.shape)
    ps, cs, c0 = mp.pfd_dict[tab]
    size = max(1.0, float(np.sum(np.abs(2 * np.asarray(cs) / np.asarray(ps) ** k)))) if np.size(ps) else 1.0
    close("f_phi_k_pfd with table %s" % tab, got, formula(ps, cs, c0, Z, b, k), 1e-10, scale=size * max(1.0, np.abs(b).max()))


@contract("every named table at order zero and one", quick=1, thorough=3)
def c_pfd_all(rng, case):
    mp = mod("matexp_phi")
    n = 3
    Z, b = stable_matrix(rng, n), rng.standard_normal(n)
    for tab in sorted(mp.pfd_dict, key=str):
        ps, cs, c0 = mp.pfd_dict[tab]
        for k in (0, 1):
            case.update(table=tab, k=k)
            got = np.asarray(mp.f_phi_k_pfd(jnp.asarray(Z), jnp.asarray(b), k, tab))
            size = max(1.0, float(np.sum(np.abs(2 * np.asarray(cs) / np.asarray(ps) ** k)))) if np.size(ps) else 1.0
            close("f_phi_k_pfd with table %s, k = %d" % (tab, k), got, formula(ps, cs, c0, Z, b, k), 1e-10, scale=size * max(1.0, np.abs(b).max()))


@contract("the tables approximate the exponential on the negative axis", quick=1, thorough=1)
def c_tables(rng, case):
    """near the origin of the negative axis every table reproduces phi_k to its own order"""
    mp = mod("matexp_phi")
    for tab in ("cram_8", "cram_12", "cram_16", "pade_4_4", "pade_8_8", "pade_3_4", "pade_0_4"):
        if tab not in mp.pfd_dict:
            continue
        for k in (0, 1, 2):
            z = np.array([[-0.3]])
            got = np.asarray(mp.f_phi_k_pfd(jnp.asarray(z), jnp.ones(1), k, tab))
            close("table %s, phi_%d(-0.3)" % (tab, k), got, phi_ref(k, z, np.ones(1)), 5e-3)


@contract("inconsistent arguments are rejected", quick=3, thorough=10)
def c_reject(rng, case):
    mp = mod("matexp_phi")
    n = int(rng.integers(2, 6))
    Z = rng.standard_normal((n, n))
    tab = "cram_8"
    bad = ((rng.standard_normal((n, n + 1)), rng.standard_normal(n), 2), (Z, rng.standard_normal(n), -1),
           (Z, rng.standard_normal(n + 1), 2), (Z, rng.standard_normal((n + 1, 2)), 2), (Z, rng.standard_normal((n, 2, 2)), 1),
           (Z, rng.standard_normal((n - 1, 2)), 0))
    for z, b, k in bad:
        for nm in ("f_phi_k_appl", "f_phi_k_pfd"):
            case.update(shapes=(z.shape, b.shape), k=k, fn=nm)
            try:
                getattr(mp, nm)(jnp.asarray(z), jnp.asarray(b), k, *((tab,) if nm == "f_phi_k_pfd" else ()))
            except Exception:
                continue
            raise Bad("%s accepted Z %s, B %s, k=%d" % (nm, z.shape, b.shape, k))
