"""C10: partial-fraction tables.

The callee contract of f_phi_k_pfd (C09) says what a table stands for: r_k(z) = sum Re(2 w_i p_i^-k / (z - p_i)) (+ c0 if
k = 0).  The obligations here are statements about r for every z <= 0, decided on the values the module really holds."""
from .common import *
from .C09 import pfd as c09_pfd
from ovc import enclose
import json
import os
import subprocess
import time

REPO = os.environ.get("OVC_REPO", "/repo")
NAMES = (["IE", "CN", "2", "3", "6", "7", "9", "12"] + ["cram_%d" % n for n in range(2, 17, 2)]
         + ["pade_%d_%d" % (q - d, q) for d in (0, 1, 2) for q in range(2, 17, 2)] + ["pade_0_%d" % q for q in range(4, 17, 2)])
# error of the best uniform rational approximation of type (n, n) of the exponential on (-oo, 0]
BEST = {2: 7.3587e-3, 4: 8.6523e-5, 6: 1.00846e-6, 8: 1.17226e-8, 10: 1.36112e-10, 12: 1.57945e-12, 14: 1.8321e-14, 16: 2.125e-16}
# for phi_1 .. phi_3 and for the real-pole tables: accuracy of the shipped digits
PHI = {"2": (0.0283,), "3": (0.0443,), "6": (0.00435,), "7": (0.01143,), "9": (0.00335,), "12": (0.00431,),
       "cram_2": (0.14722, 0.49278, 0.64956), "cram_4": (0.0031284, 0.019012, 0.047356), "cram_6": (5.2552e-05, 4.5835e-4, 1.6191e-3),
       "cram_8": (7.9814e-07, 9.0791e-06, 4.1616e-05), "cram_10": (1.1443e-08, 1.6059e-07, 9.0583e-07),
       "cram_12": (1.5803e-10, 2.6385e-09, 1.7680e-08), "cram_14": (2.13e-12, 4.12e-11, 3.20e-10), "cram_16": (1e-13, 1e-12, 1e-11)}
ROUNDING = 1e-13

_cache = []


def tables():
    if not _cache:
        src = ("import sys, json; sys.path.insert(0, %r)\n"
               "from ormatex_py.matexp_phi_pfd_dict import pfd_dict\n"
               "h = lambda x: (complex(x).real.hex(), complex(x).imag.hex())\n"
               "import numpy as np\n"
               "print(json.dumps({str(k): ([h(x) for x in np.ravel(p)], [h(x) for x in np.ravel(w)], h(c)) for k, (p, w, c) in pfd_dict.items()}))\n") % REPO
        env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run(["/opt/venv/bin/python", "-c", src], capture_output=True, text=True, timeout=200, env=env, cwd="/")
        if r.returncode:
            raise Unsupported("the table module cannot be read: " + r.stderr[-300:])
        _cache.append(json.loads(r.stdout.splitlines()[-1]))
    return _cache[0]


def get(name):
    t = tables()
    if name not in t:
        CTX.prove("the table %s is shipped" % name, B.of(False))
        return None
    c = lambda h: complex(float.fromhex(h[0]), float.fromhex(h[1]))
    p, w, c0 = t[name]
    if len(p) != len(w):
        CTX.prove("as many weights as poles", B.of(False))
        return None
    return enclose.Table([c(x) for x in p], [c(x) for x in w], c(c0))


def decided(name, ok, how, detail=""):
    """record an obligation decided by exact or validated arithmetic"""
    CTX._rec(name, "proved" if ok is True else "refuted" if ok is False else "unknown", how, time.time(), detail if ok is not True else "")


def poles(name):
    def fn():
        t = get(name)
        if t is None:
            return
        bad = t.poles_off_axis()
        decided("no pole is zero or on the negative real axis", not bad, "exact-rational", "poles %s" % [(float(a), float(b)) for a, b in bad])
        CTX.cover("table")
    return fn


def quotient(name, P, Q, order, eps):
    """r = P/Q within eps for all z <= 0, and Taylor coefficients of exp at 0 up to the order"""
    def fn():
        t = get(name)
        if t is None:
            return
        if t.poles_off_axis():
            return
        decided("within %s of its rational function for every z <= 0" % eps, enclose.within_of_quotient(t, P, Q, eps),
                "exact-polynomial-sign", "table %s" % name)
        import math
        from fractions import Fraction as F
        c = t.taylor(order)
        for j, x in enumerate(c):
            e = abs(x - F(1, math.factorial(j)))
            decided("Taylor coefficient %d at the origin is 1/%d!" % (j, j), e <= F(eps), "exact-rational", "off by %.3g" % float(e))
        CTX.cover("table")
    return fn


def sup(name, k, bound, split):
    def fn():
        t = get(name)
        if t is None:
            return
        if t.poles_off_axis():
            return
        hi, lo, n = enclose.sup_error(t, k, split=split)
        ok = True if hi <= bound else False if lo > bound else None
        decided("phi_%d within %.4g for every z <= 0" % (k, bound), ok, "interval-taylor", "enclosed error between %.6g and %.6g" % (lo, hi))
        CTX.cover("table")
        CTX.note("%s phi_%d: proved |error| <= %.4g on %d intervals" % (name, k, hi, n))
    return fn


def meaning(k):
    """what a table stands for (contract of f_phi_k_pfd, here for one complex and one real pole)"""
    def fn():
        c09_pfd(k, "vector", 1)()
    return fn


def tasks():
    T = []
    mods = ["matexp_phi_pfd_dict.pfd_dict"]
    for nm in NAMES:
        T.append(Task("poles-" + nm, poles(nm), mods, covers=["table"]))
        if nm == "IE":
            T.append(Task("quotient-IE", quotient(nm, [1], [1, -1], 1, "0"), mods, covers=["table"]))
        elif nm == "CN":
            P, Q = enclose.pade(1, 1)
            T.append(Task("quotient-CN", quotient(nm, P, Q, 2, "0"), mods, covers=["table"]))
        elif nm.startswith("pade"):
            a, b = map(int, nm.split("_")[1:])
            P, Q = enclose.pade(a, b)
            T.append(Task("quotient-" + nm, quotient(nm, P, Q, a + b, "1/100000000"), mods, covers=["table"], weight=3 if b == 16 else 1))
        elif nm.startswith("cram"):
            n = int(nm.split("_")[1])
            T.append(Task("exp-" + nm, sup(nm, 0, 1.25 * BEST[n] + ROUNDING, 24), mods, covers=["table"], weight=2))
            for k in (1, 2, 3):
                T.append(Task("phi%d-%s" % (k, nm), sup(nm, k, PHI[nm][k - 1], 8), mods, covers=["table"], weight=2))
        else:
            T.append(Task("phi1-" + nm, sup(nm, 1, PHI[nm][0], 8), mods, covers=["table"], weight=3))
    for k in (0, 1, 2, 3):
        T.append(Task("meaning-%d" % k, meaning(k), ["matexp_phi.f_phi_k_pfd"], covers=["table"], bounded="one pole (any number of poles: C09)"))
    return T
