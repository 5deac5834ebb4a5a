"""C19 on the real code."""
from .common import *


def library(rng):
    d = int(rng.integers(1, 7))
    names = ["s%d" % i for i in range(d)]
    rng.shuffle(names)
    L = {}
    for s in names:
        nb = int(rng.integers(1, 5))
        br = [(("none" if rng.uniform() < 0.3 else names[int(rng.integers(0, d))]), float(rng.uniform(0.01, 3))) for _ in range(nb)]
        L[s] = tuple(br) if nb > 1 or rng.uniform() < 0.3 else br[0]
    return names, L


def branches(e):
    return e if isinstance(e[0], tuple) else (e,)


def reference(names, L):
    M = np.zeros((len(names), len(names)))
    for j, s in enumerate(names):
        for c, x in branches(L[s]):
            M[j, j] -= x
            if c != "none":
                M[names.index(c), j] += x
    return M


@contract("decay matrix", quick=40, thorough=400)
def c_decay(rng, case):
    bs = mod("progression.bateman_sys")
    names, L = library(rng)
    # species that are in the library but not in the list play no role
    L2 = dict(L, extra=("none", 7.0))
    case.update(names=names, lib=repr(L))
    M = np.asarray(bs.gen_bateman_matrix(names, L2))
    close("gen_bateman_matrix", M, reference(names, L), 1e-13, 1e-14)
    leave = np.array([sum(x for c, x in branches(L[s]) if c == "none") for s in names])
    close("what leaves a parent is gained by its daughters or leaves the system", -M.sum(0), leave, 1e-12, 1e-12)
    # whole numbers given as integers are numbers like any other
    whole = lambda e: tuple((c, int(np.ceil(x)) if rng.uniform() < 0.6 else x) for c, x in e) if isinstance(e[0], tuple) else (e[0], int(np.ceil(e[1])) if rng.uniform() < 0.6 else e[1])
    LI = {k: whole(e) for k, e in L.items()}
    case.update(lib=repr(LI))
    close("gen_bateman_matrix, integers among the constants", bs.gen_bateman_matrix(names, LI), reference(names, LI), 1e-13, 1e-14)
    case.update(lib=repr(L))
    phi = float(rng.uniform(-3, 3))
    close("gen_transmute_matrix", bs.gen_transmute_matrix(names, L, phi), -phi * reference(names, L), 1e-13, 1e-14)
    close("gen_transmute_matrix, default flux", bs.gen_transmute_matrix(names, L), -reference(names, L), 1e-13, 1e-14)


@contract("shipped libraries", quick=1, thorough=1)
def c_shipped(rng, case):
    bs = mod("progression.bateman_sys")
    for nm in ("decay_lib_0", "decay_lib_test", "decay_lib_1"):
        L = getattr(bs, nm, None)
        if L is None:
            continue
        names = list(L)
        case.update(lib=nm)
        close(nm, bs.gen_bateman_matrix(names, L), reference(names, L), 1e-12)


@contract("analytic decay chain", quick=20, thorough=200)
def c_chain(rng, case):
    bs = mod("progression.bateman_sys")
    ns = int(rng.integers(1, 7))
    l = np.cumsum(rng.uniform(0.3, 1.0, ns)) * float(rng.choice([0.1, 1.0, 5.0]))
    rng.shuffle(l)
    names = ["s%d" % i for i in range(ns)]
    L = {names[i]: (names[i + 1] if i + 1 < ns else "none", float(l[i])) for i in range(ns)}
    # times in any order, with or without the initial time
    t = rng.permutation(np.concatenate([[0.0], rng.uniform(0, 3 / l.min(), 3)]))[:int(rng.integers(1, 5))]
    n0 = float(rng.uniform(0.1, 5))
    case.update(lam=l, t=t, n0=n0)
    M = reference(names, L)
    N = np.asarray(bs.analytic_bateman_single_parent(t, bs.gen_bateman_matrix(names, L), n0))
    want = np.array([scipy.linalg.expm(M * ti)[:, 0] * n0 for ti in t])
    cond = max(1.0, max(np.prod([l[j] for j in range(ns)]) / abs(np.prod([l[j] - l[i] for j in range(ns) if j != i])) for i in range(ns)) / l.min())
    close("analytic_bateman_single_parent", N, want, 1e-13 * cond + 1e-10, scale=n0)


@contract("matrices that are not a chain are rejected", quick=6, thorough=30)
def c_reject(rng, case):
    bs = mod("progression.bateman_sys")
    ns = int(rng.integers(2, 6))
    l = np.cumsum(rng.uniform(0.3, 1.0, ns))
    M = -np.diag(l) + np.diag(l[:-1], -1)
    k = int(rng.integers(0, ns - 1))
    bad = [M[:, :-1], M.copy(), M.copy()]
    bad[1][k + 1, k] *= 0.5
    bad[2][k + 1, k] *= -1
    # small constants: half of what the parent loses arrives
    bad.append(1e-4 * bad[1])
    # the right gains in the wrong places
    e = np.roll(l[:-1], 1)
    if ns > 2:
        bad.append(-np.diag(l) + np.diag(e, -1))
    for m in bad:
        case.update(M=m)
        try:
            bs.analytic_bateman_single_parent(np.array([0.5]), m, 1.0)
        except Exception:
            continue
        raise Bad("a matrix that is not a chain was accepted: %s" % (m.tolist(),))


@contract("long decay chain against the equations", quick=1, thorough=4)
def c_eq(rng, case):
    bs = mod("progression.bateman_sys")
    ns = 5
    l = np.array([0.7, 1.9, 0.2, 3.1, 1.2])
    M = -np.diag(l) + np.diag(l[:-1], -1)
    t = float(rng.uniform(0.2, 2.0))
    h = 1e-4
    N = np.asarray(bs.analytic_bateman_single_parent(np.array([t - h, t, t + h]), M, 1.0))
    close("decay equations", (N[2] - N[0]) / (2 * h), M @ N[1], 1e-6)


@contract("results of earlier calls stay", quick=3, thorough=20)
def c_stay(rng, case):
    bs = mod("progression.bateman_sys")
    keep = []
    for j in range(3):
        names, L = library(rng)
        names = sorted(names)
        for nm, f in (("gen_bateman_matrix", lambda: bs.gen_bateman_matrix(names, L)), ("gen_transmute_matrix", lambda: bs.gen_transmute_matrix(names, L, 1.5))):
            r = f()
            keep.append((nm, r, np.array(r, copy=True)))
        l = np.cumsum(rng.uniform(0.3, 1.0, 3))
        r = bs.analytic_bateman_single_parent(np.array([0.0, 0.4, 1.1]), -np.diag(l) + np.diag(l[:-1], -1), 1.0 + j)
        keep.append(("analytic_bateman_single_parent", r, np.array(r, copy=True)))
        # same species, other constants
        L2 = {k: (v if len(v) < 2 or not isinstance(v[1], float) else (v[0], 2 * v[1])) for k, v in L.items()}
        r = bs.gen_bateman_matrix(names, L2)
        close("decay matrix of another library with the same species", r, reference(names, L2), 1e-13, 1e-300)
        for nm, r, c in keep:
            close("earlier result of " + nm, r, c, 0, 0)
