"""Runtime contracts on the real code (replay of refuted obligations, conformance of the
library contracts, bounded stand-ins).  Runs under the repository's own interpreter."""
import os
import sys
import json
import time
import traceback
import warnings

REPO = os.environ.get("OVC_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
import numpy as np
import scipy.linalg
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp

REG = []


class Bad(Exception):
    """contract violated on the real code"""


class Skip(Exception):
    """the contract cannot be evaluated on this tree (renamed helper, ...)"""


class Contract:
    def __init__(self, name, f, quick, thorough, search, minq):
        self.name, self.f = name, f
        self.quick, self.thorough, self.search, self.minq = quick, thorough, search, minq


def contract(name, quick=3, thorough=20, search=None, minq=1):
    def deco(f):
        REG.append(Contract(name, f, quick, thorough, search or max(thorough, 3 * quick), minq))
        return f
    return deco


def mod(name):
    import importlib
    return importlib.import_module("ormatex_py." + name if name else "ormatex_py")


def need(modname, attr):
    try:
        m = mod(modname)
    except ImportError as e:
        raise Skip("module %s: %s" % (modname, e))
    if not hasattr(m, attr):
        raise Skip("%s has no %s" % (modname, attr))
    return getattr(m, attr)


def close(what, got, want, rtol=1e-9, atol=0.0, scale=None):
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        if g.size == w.size:
            g = g.reshape(w.shape)
        else:
            raise Bad("%s: shape %s, expected %s" % (what, g.shape, w.shape))
    if g.size == 0:
        return
    s = scale if scale is not None else max(1e-300, float(np.max(np.abs(w))))
    if not np.all(np.isfinite(g) | ~np.isfinite(w)):
        raise Bad("%s: not finite: %s, expected %s" % (what, short(g), short(w)))
    err = float(np.max(np.abs(g - w)))
    if not err <= rtol * s + atol:
        raise Bad("%s: got %s, expected %s (error %.3g, allowed %.3g)" % (what, short(g), short(w), err, rtol * s + atol))


def require(what, cond, detail=""):
    if not bool(cond):
        raise Bad("%s: does not hold %s" % (what, detail))


def short(a):
    a = np.asarray(a)
    return np.array2string(a.ravel()[:6], precision=9) + ("..." if a.size > 6 else "")


# ------------------------------------------------------------------ references
def phi_ref(k, Z, B=None):
    """phi_k(Z) (B) through scipy's exponential of the augmented matrix"""
    Z = np.asarray(Z)
    n = Z.shape[0]
    if k == 0:
        E = scipy.linalg.expm(Z)
    else:
        M = np.zeros(((k + 1) * n, (k + 1) * n), dtype=Z.dtype)
        M[:n, :n] = Z
        for i in range(k):
            M[i * n:(i + 1) * n, (i + 1) * n:(i + 2) * n] = np.eye(n)
        E = scipy.linalg.expm(M)[:n, -n:]
    return E if B is None else E @ np.asarray(B)


def stable_matrix(rng, n, scale=1.0):
    """random matrix with spectrum shifted to the left half plane, moderate norm"""
    A = rng.standard_normal((n, n)) / np.sqrt(n)
    return scale * (A - 0.8 * np.eye(n))


def make_sys(rng, n, split=False, nonauto=True, record=None, varying=False):
    """a random smooth nonlinear nonautonomous system with analytic derivatives"""
    ode = mod("ode_sys")
    A = stable_matrix(rng, n)
    Bm = 0.7 * rng.standard_normal((n, n)) / np.sqrt(n)
    C = rng.standard_normal((n, n)) / np.sqrt(n)
    g = rng.standard_normal(n) if nonauto else np.zeros(n)
    L = A + 0.3 * rng.standard_normal((n, n)) / np.sqrt(n)
    w = 1.3
    Aj, Bj, Cj, gj, Lj = map(jnp.asarray, (A, Bm, C, g, L))
    base = ode.OdeSplitSys if split else ode.OdeSys

    class S(base):
        def _frhs(self, t, u, **kw):
            return Aj @ u + Bj @ jnp.tanh(Cj @ u) + gj * jnp.sin(w * t) + 0.5 * gj * t * jnp.cos(u)

        def _fl(self, t, u, **kw):
            return ode.MatrixLinOp(Lj * (1 + 0.5 * t + 0.2 * jnp.tanh(u[0])) if varying else Lj)
    s = S()
    ref = dict(
        F=lambda t, u: A @ u + Bm @ np.tanh(C @ u) + g * np.sin(w * t) + 0.5 * g * t * np.cos(u),
        J=lambda t, u: A + Bm @ np.diag(1 - np.tanh(C @ u) ** 2) @ C - np.diag(0.5 * g * t * np.sin(u)),
        Ft=lambda t, u: g * w * np.cos(w * t) + 0.5 * g * np.cos(u), L=L)
    return s, ref


# -------------------------------------------------------------------- driver
def in_repo(tb):
    fr = traceback.extract_tb(tb)
    return any(f.filename.startswith(REPO + "/ormatex_py") for f in fr)


def run_case(c, seed):
    rng = np.random.default_rng(seed)
    case = {}
    try:
        c.f(rng, case)
        return "ok", "", case
    except Skip as e:
        return "skip", str(e), case
    except Bad as e:
        return "bad", str(e), case
    except Exception as e:
        tb = e.__traceback__
        txt = "%s: %s" % (type(e).__name__, str(e)[:600])
        if in_repo(tb):
            fr = [f for f in traceback.extract_tb(tb) if f.filename.startswith(REPO)][-1]
            return "bad", "unexpected exception from the code: %s (at %s:%d in %s)" % (txt, fr.filename, fr.lineno, fr.name), case
        return "skip", "harness: " + txt + " " + traceback.format_exc()[-700:], case


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.ndarray, jnp.ndarray)):
        a = np.asarray(x)
        if a.size > 64:
            return "array%s" % (a.shape,)
        return jsonable(a.tolist())
    if isinstance(x, complex):
        return str(x)
    if isinstance(x, (np.floating, np.integer)):
        return x.item()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return str(x)
