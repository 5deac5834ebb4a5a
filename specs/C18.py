"""C18: power iteration and the spectral estimate derived from it."""
from .common import *
from ovc.terms import abs_


def iterate(d, j):
    """normalised iterate j (iterate 0: the start vector as given)"""
    return vec_app("iterate", d["n"], Sc.of(j))


def rayleigh(d, b):
    return (b @ (d["M"] @ b)) / (b @ b)


def nxt(d, b):
    y = d["M"] @ b
    return y / lin.norm(y)


def est(j):
    return Sc.app("estimate", Sc.of(j))


def setup():
    W = make_world()
    ml, ode = W.load("ormatex_py.matexp_leja"), W.load("ormatex_py.ode_sys")
    n = integer("n", 1)
    d = dict(W=W, ml=ml, n=n, M=Arr.mat("A", n), b0=Arr.vec("b0", n), limit=integer("limit", 1), tol=pos("tol"))
    CTX.assume(cmp_("<=", d["tol"], 10 ** 6), "tolerance of the power iteration below 1e6 (sentinel of the first comparison)")
    d["lop"] = ode.MatrixLinOp(d["M"])
    return d


class Roles:
    """components of the loop state, recognised by what one pass does to them"""

    def __init__(self, d, init, body):
        out = body(init)
        b1, e1 = nxt(d, d["b0"]), rayleigh(d, d["b0"])
        self.r = []
        for k, (x, y) in enumerate(zip(init, out)):
            if isinstance(y, Arr) and lin.compare(CTX, x, d["b0"])[0] == "proved" and lin.compare(CTX, y, b1)[0] == "proved":
                self.r.append("b")
            elif terms._scalarish(y) and not isinstance(y, (B, bool)) and terms.is_zero(Sc.of(y) - e1):
                self.r.append("new")
            elif terms._scalarish(y) and not isinstance(y, (B, bool)) and terms.is_zero(Sc.of(y) - Sc.of(x) - 1) and terms.is_zero(Sc.of(x)):
                self.r.append("i")
            else:
                self.r.append(None)
        if "new" in self.r:
            for k, r in enumerate(self.r):
                if r is None and terms._scalarish(out[k]) and terms.is_zero(Sc.of(out[k]) - Sc.of(init[self.r.index("new")])):
                    self.r[k] = "old"
        if sorted(map(str, self.r)) != ["b", "i", "new", "old"]:
            raise Unsupported("loop state of the power iteration not recognised: %s" % (self.r,))
        self.first = dict(zip(self.r, init))

    def make(self, kind, **v):
        st = [v[r] for r in self.r]
        return st if kind is list else tuple(st)


def power():
    d = setup()
    seen = []

    def hook(kind, a):
        if kind != "while":
            return NotImplemented
        if seen:
            raise Unsupported("second loop")
        seen.append(1)
        init, cond, body = a["init"], a["cond"], a["body"]
        R = Roles(d, init, body)
        ty = type(init)
        f = R.first
        # the estimates of the first two passes must not be taken for converged before they exist
        CTX.prove("first pass always runs", B.of(cond(init)))
        CTX.prove_eq("iterations start at zero", f["i"], Sc.of(0))
        if CTX.choose("pass"):
            i = integer(terms.fresh_name("passes"), 0)
            if bool(cmp_("==", i, 0)):
                st, b = init, d["b0"]
                old = f["new"]
            else:
                b, old = iterate(d, i), est(i)
                prev = f["new"] if bool(cmp_("==", i, 1)) else est(i - 1)
                st = R.make(ty, i=i, b=b, new=old, old=prev)
            CTX.assume(B.of(cond(st)))
            o = dict(zip(R.r, body(st)))
            CTX.prove_eq("pass: counted", o["i"], i + 1)
            CTX.prove_eq("pass: normalised next iterate", o["b"], nxt(d, b))
            CTX.prove_eq("pass: Rayleigh quotient", o["new"], rayleigh(d, b))
            CTX.prove_eq("pass: previous estimate kept", o["old"], old)
            CTX.prove("pass: limit respected", cmp_("<=", o["i"], d["limit"]))
            CTX.cover("pass")
            raise PathEnd()
        i = integer(terms.fresh_name("passes"), 1)
        prev = f["new"] if bool(cmp_("==", i, 1)) else est(i - 1)
        CTX.assume(cmp_("<=", i, d["limit"]))          # proved for every pass
        st = R.make(ty, i=i, b=iterate(d, i), new=est(i), old=prev)
        CTX.assume(~cmp_("==", i, 1) | cmp_("<=", abs_(est(i)), Sc.of(10) ** 15), "eigenvalue estimates below 1e15 (sentinel of the first comparison)")
        CTX.assume(~B.of(cond(st)))
        d["exit"] = (i, est(i), prev)
        return st
    lib.LOOPS[:] = [hook]
    try:
        lam, b, it = call("power_iter", d["ml"].power_iter, d["lop"], d["b0"], d["limit"], d["tol"])
    finally:
        lib.LOOPS[:] = []
    if "exit" not in d:
        raise Unsupported("power iteration loop not recognised")
    i, e, prev = d["exit"]
    CTX.prove_eq("number of applications", it, i)
    CTX.prove("at least one application, at most the limit", cmp_("<=", 1, it) & cmp_("<=", it, d["limit"]))
    CTX.prove_eq("Rayleigh quotient of the last-but-one iterate", lam, e)
    CTX.prove_eq("last iterate", b, iterate(d, i))
    CTX.prove("stops at the limit or when successive estimates agree", cmp_("==", i, d["limit"]) | (cmp_("<=", 2, i) & cmp_("<=", abs_(e - prev), d["tol"])))
    CTX.cover("returned")


def unit():
    d = setup()
    y = nxt(d, d["b0"])
    CTX.prove_eq("normalised iterates have unit length", lin.norm(y), Sc.of(1))
    CTX.cover("unit")


def spectral(kind):
    def fn():
        d = setup()
        lam, itn, bl = real("quotient"), integer("count", 1), Arr.vec("last", d["n"])
        lim = integer("maxit", 1)
        fac = real("factor")
        seen = []
        start = Arr.vec("start", d["n"])

        def c_power(op, b0, it, tol=Sc.of(1) / 20):
            CTX.prove("operator", B.of(op is d["lop"]))
            CTX.prove_eq("limit", it, lim)
            seen.append(b0)
            return lam, bl, itn
        d["W"].replace(d["ml"].power_iter, c_power)
        kw = {}
        if kind == "given":
            kw["b0"] = start
        if kind == "wrong":
            m = integer("m", 1)
            CTX.assume(~cmp_("==", m, d["n"]))
            try:
                d["ml"].leja_shift_scale(d["lop"], d["n"], lim, b0=Arr.vec("start", m), scale_factor=fac)
            except Unsupported:
                raise
            except Exception:
                CTX.prove("start vector of the wrong length rejected", B.of(True))
                CTX.cover("spectral")
                return
            CTX.prove("start vector of the wrong length rejected", B.of(False))
            return
        if kind != "nofactor":
            kw["scale_factor"] = fac
        sh, sc, mx, b, it = call("leja_shift_scale", d["ml"].leja_shift_scale, d["lop"], d["n"], lim, **kw)
        if len(seen) != 1:
            raise Unsupported("power iteration not called")
        est_ = lam * (fac if kind != "nofactor" else 1)
        CTX.prove_eq("estimate: quotient times safety factor", mx, est_)
        CTX.prove_eq("shift: half the estimate", sh * 2, est_)
        CTX.prove_eq("scale: quarter of the absolute estimate", Sc.of(sc) * 4, abs_(est_))
        CTX.prove_eq("eigenvector passed on", b, bl)
        CTX.prove_eq("count passed on", it, itn)
        if kind == "given":
            CTX.prove_eq("given start vector used", seen[0], start)
        else:
            CTX.prove_eq("start vector has the requested dimension", seen[0].shape[0], d["n"])
            d["ml"].leja_shift_scale(d["lop"], d["n"], lim)
            CTX.prove_eq("start vector is the same every time", seen[1], seen[0])
        CTX.cover("spectral")
    return fn


def tasks():
    T = [Task("power", power, ["matexp_leja.power_iter"], covers=["pass", "returned"]), Task("unit", unit, [], covers=["unit"])]
    for k in ("given", "default", "nofactor", "wrong"):
        T.append(Task("spectral-" + k, spectral(k), ["matexp_leja.leja_shift_scale"], covers=["spectral"]))
    return T
