"""C10 on the real code: f_phi_k_pfd with every table against the function the table is named after."""
from .common import *
import mpmath as mp
from fractions import Fraction as F

BEST = {2: 7.3587e-3, 4: 8.6523e-5, 6: 1.00846e-6, 8: 1.17226e-8, 10: 1.36112e-10, 12: 1.57945e-12, 14: 1.8321e-14, 16: 2.125e-16}
PHI1 = {"2": 0.0283, "3": 0.0443, "6": 0.00435, "7": 0.01143, "9": 0.00335, "12": 0.00431}
NAMES = (["IE", "CN", "2", "3", "6", "7", "9", "12"] + ["cram_%d" % n for n in range(2, 17, 2)]
         + ["pade_%d_%d" % (q - d, q) for d in (0, 1, 2) for q in range(2, 17, 2)] + ["pade_0_%d" % q for q in range(4, 17, 2)])


def pade_value(a, b, z):
    f = mp.factorial
    with mp.workdps(60):
        z = mp.mpf(z)
        P = sum(f(a + b - j) * f(a) / (f(a + b) * f(j) * f(a - j)) * z ** j for j in range(a + 1))
        Q = sum((-1) ** j * f(a + b - j) * f(b) / (f(a + b) * f(j) * f(b - j)) * z ** j for j in range(b + 1))
        return float(P / Q)


@contract("named tables on the negative axis", quick=2, thorough=12)
def c_tables(rng, case):
    m = mod("matexp_phi")
    zs = -np.concatenate([[0.0], 10.0 ** rng.uniform(-6, 3, 12), rng.uniform(0, 40, 12)])
    for tab in NAMES:
        case.update(table=tab, z=zs)
        require("table %s is shipped" % tab, tab in m.pfd_dict)
        k = 1 if tab in PHI1 else 0
        got = np.asarray(m.f_phi_k_pfd(jnp.diag(jnp.asarray(zs)), jnp.ones(len(zs)), k, tab))
        ps, cs, _ = m.pfd_dict[tab]
        ps, cs = np.atleast_1d(np.asarray(ps, complex)), np.atleast_1d(np.asarray(cs, complex))
        cond = np.array([np.sum(np.abs(2 * cs / ps ** k / (z - ps)) * (1 + (abs(z) + np.abs(ps)) / np.abs(z - ps))) for z in zs])
        if k:
            want, tol = np.array([1.0 if z == 0 else np.expm1(z) / z for z in zs]), PHI1[tab]
        elif tab == "IE":
            want, tol = 1 / (1 - zs), 0.0
        elif tab == "CN":
            want, tol = (1 + zs / 2) / (1 - zs / 2), 0.0
        elif tab.startswith("pade"):
            a, b = map(int, tab.split("_")[1:])
            want, tol = np.array([pade_value(a, b, z) for z in zs]), 1e-8
        else:
            want, tol = np.exp(zs), 1.3 * BEST[int(tab.split("_")[1])] + 1e-13
        bad = np.abs(got - want) > tol + 1e-14 * (1 + cond)
        if not np.all(np.isfinite(got)) or bad.any():
            i = int(np.argmax(np.abs(got - want)))
            raise Bad("table %s, z = %r: f_phi_k_pfd (k=%d) gives %r, expected %r within %.3g" % (tab, zs[i], k, got[i], want[i], tol + 1e-14 * (1 + cond[i])))


@contract("poles", quick=1, thorough=1)
def c_poles(rng, case):
    m = mod("matexp_phi")
    for tab, (ps, cs, c0) in m.pfd_dict.items():
        ps = np.atleast_1d(np.asarray(ps, complex))
        case.update(table=tab)
        require("table %s: no pole zero or on the negative axis" % tab, bool(np.all((ps.imag != 0) | (ps.real > 0))), ps)
