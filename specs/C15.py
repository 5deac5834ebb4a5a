"""C15: interpolation of exp(dt A)u at Leja points."""
from .common import *
from ovc.terms import exp_, log_, abs_

NAMES = ("V", "S", "E")


def setup():
    W = make_world()
    ml = W.load("ormatex_py.matexp_leja")
    ode = W.load("ormatex_py.ode_sys")
    n = integer("n", 1)
    M, u = Arr.mat("A", n), Arr.vec("u", n)
    d = dict(ml=ml, W=W, n=n, M=M, u=u, lop=ode.MatrixLinOp(M), dt=real("dt"), shift=real("shift"), scale=step_size("scale"),
             tol=pos("tol"), N=integer("points", 1))
    return d


def in_range(i, N, what):
    CTX.prove("%s index within the sequence" % what, cmp_("<=", 0, i) & cmp_("<", i, N))


def seq(name, N, what, cplx):
    """sequence with index checks; cplx(i): imaginary part of element i"""
    def f(i):
        i = Sc.of(i)
        in_range(i, N, what)
        return elem(name, i, cplx)
    return PArr(N, f, name)


def elem(name, i, cplx):
    r = Sc.app(name + "_re", Sc.of(i))
    return r + terms.I_ * cplx(Sc.of(i)) if cplx else r


def mean(new, old):
    """running average of the error estimates: geometric mean of the new and the old one"""
    return exp_(log_(new) / 2 + log_(old) / 2)


class Carry:
    """state of the interpolation loop: roles of the components are recognised by their values on entry"""

    def __init__(self, d, init, i0, V0, S0, E0, conv=True):
        self.d = d
        self.roles = []
        self.list = isinstance(init, list)
        for x in init:
            self.roles.append(self.role(x, i0, V0, S0, E0))
        for r in ("i", "V", "S", "E") + (("conv",) if conv else ()):
            if self.roles.count(r) != 1:
                raise Unsupported("loop state not recognised: %s" % (self.roles,))

    def role(self, x, i0, V0, S0, E0):
        if isinstance(x, B) or isinstance(x, bool):
            return "conv"
        if isinstance(x, Arr):
            for r, w in (("S", S0), ("V", V0)):
                if lin.compare(CTX, x, w)[0] == "proved":
                    return r
            return "scratch"
        if terms._scalarish(x):
            if terms.is_zero(Sc.of(x) - i0):
                return "i"
            if E0 is None or terms.is_zero(Sc.of(x) - E0):
                return "E"
            return "scratch scalar"
        raise Unsupported("loop state of another kind")

    def make(self, **v):
        out = []
        for r in self.roles:
            if r == "scratch":
                out.append(Arr.vec(terms.fresh_name("scratch"), self.d["n"]))
            elif r == "scratch scalar":
                out.append(Sc.fresh("scratch"))
            else:
                out.append(v[r])
        return out if self.list else tuple(out)

    def get(self, st):
        return {r: x for r, x in zip(self.roles, st) if not r.startswith("scratch")}


def V(d, j):
    return vec_app("V", d["n"], Sc.of(j))


def S(d, i):
    return vec_app("S", d["n"], Sc.of(i))


def E(i):
    return Sc.app("E", Sc.of(i), nonneg=True)


def newton(d, v, x):
    """next Newton factor: (dt A - (shift + scale x))/scale v"""
    y = (d["M"] @ v) * d["dt"] - v * (d["shift"] + d["scale"] * x)
    return y * (Sc.of(1) / d["scale"])


def below(d, e):
    return cmp_("<", e, d["tol"] * lin.norm(d["u"]))


def loop_contract(d, i0, V0, S0, E0, step, abort, stride=1):
    """invariant: component V is the Newton term i-1, S the sum of the first i terms, E the running estimate,
    and (after the first pass) conv says whether E is below tolerance"""
    def hook(kind, a):
        if kind != "while":
            return NotImplemented
        if d.get("loop"):
            raise Unsupported("second loop")
        d["loop"] = True
        c = Carry(d, a["init"], i0, V0, S0, E0)
        e = c.get(a["init"])
        CTX.prove("entry: converged only for a zero vector", ~B.of(e["conv"]) | cmp_("==", lin.norm(d["u"]), 0))
        which = "zero passes" if CTX.choose("no pass") else "some"
        if which == "zero passes":
            CTX.assume(~B.of(a["cond"](a["init"])))
            d["exit"] = (i0, S0, E0, True)
            return a["init"]
        if CTX.choose("pass"):
            if CTX.choose("first pass"):
                i, v, s, en, cv = i0, V0, S0, E0, B.of(e["conv"])
            else:
                m = integer(terms.fresh_name("passes"), 1)
                i = i0 + stride * m
                v, s, en = V(d, i - 1), S(d, i), E(i)
                cv = below(d, en)
            st = c.make(i=i, V=v, S=s, E=en, conv=cv)
            CTX.assume(B.of(a["cond"](st)))
            out = c.get(a["body"](st))
            w = step(i, v, s, en)
            CTX.prove_eq("pass: counter", out["i"], i + stride)
            CTX.prove_eq("pass: Newton term", out["V"], w["V"])
            CTX.prove_eq("pass: sum", out["S"], w["S"])
            CTX.prove_eq("pass: error estimate", out["E"], w["E"])
            CTX.prove("pass: reports convergence only below tolerance", ~B.of(out["conv"]) | below(d, w["E"]))
            CTX.prove("pass: convergence is noticed", B.of(out["conv"]) | ~below(d, w["E"]))
            CTX.cover("pass")
            raise PathEnd()
        m = integer(terms.fresh_name("passes"), 1)
        i = i0 + stride * m
        # the last pass was allowed: its indices were within the sequence
        CTX.assume(cmp_("<=", i, d["N"]))
        st = c.make(i=i, V=V(d, i - 1), S=S(d, i), E=E(i), conv=below(d, E(i)))
        CTX.assume(~B.of(a["cond"](st)))
        d["exit"] = (i, S(d, i), E(i), False)
        CTX.cover("exit")
        return st
    return hook


def run(d, hook, f):
    lib.LOOPS[:] = [hook]
    try:
        return f()
    finally:
        lib.LOOPS[:] = []
        load.LOOP_CONTRACTS[:] = []


class Leading:
    """static loop over the leading real points: at the top, Newton term i-1, the sum of the first i terms and the estimate"""
    names = ()

    def __init__(self, kind, d, R, v, s, e, c):
        self.d, self.R, self.v0, self.s0, self.e0, self.c = d, R, v, s, e, c
        self.roles = None
        self.counted = kind == "for"      # a for loop counts its passes itself
        if self.counted:
            self.span = (1, R + 1)

    def find(self, loc):
        out = {}
        for k in self.names:
            x = loc.get(k)
            if isinstance(x, Arr):
                for r, w in (("S", self.s0), ("V", self.v0)):
                    if lin.compare(CTX, x, w)[0] == "proved":
                        out.setdefault(r, []).append(k)
                        break
            elif terms._scalarish(x) and not isinstance(x, (B, bool)):
                for r, w in (("i", Sc.of(1)), ("E", self.e0)):
                    if terms.is_zero(Sc.of(x) - w):
                        out.setdefault(r, []).append(k)
        if self.counted:
            out.pop("i", None)
        if any(len(out.get(r, ())) != 1 for r in ("V", "S", "E") + (() if self.counted else ("i",))):
            raise Unsupported("loop over the leading points not recognised")
        return {r: l[0] for r, l in out.items()}

    def check(self, loc, i, lab):
        d = self.d
        if lab == "entry":
            if not self.counted:
                self.roles = self.find(loc)
            return
        r, i = self.roles, self.i
        w = newton(d, self.v, elem("x", i - 1, None))
        ci = terms.real_(self.c(i))
        if not self.counted:
            CTX.prove_eq("leading points: counter", loc[r["i"]], i + 1)
        CTX.prove_eq("leading points: Newton term", loc[r["V"]], w)
        CTX.prove_eq("leading points: sum", loc[r["S"]], self.s + w * ci)
        CTX.prove_eq("leading points: error estimate", loc[r["E"]], mean(abs_(ci) * lin.norm(w), self.e))

    def havoc(self, loc, k):
        d = self.d
        if self.counted:
            self.roles = self.roles or self.find(loc)
            k = Sc.of(k)
            which = bool(cmp_("==", k, 1))
        else:
            which = CTX.choose("first leading point")
        if which:
            self.i, self.v, self.s, self.e = Sc.of(1), self.v0, self.s0, self.e0
        else:
            if self.counted:
                self.i = k
            else:
                self.i = integer(terms.fresh_name("leading"), 2)
                CTX.assume(cmp_("<=", self.i, self.R + 1))
            if bool(cmp_("==", self.i, self.R + 1)):
                self.i = self.R + 1
            self.v, self.s, self.e = V(d, self.i - 1), S(d, self.i), E(self.i)
        r = self.roles
        out = {r["V"]: self.v, r["S"]: self.s, r["E"]: self.e}
        if not self.counted:
            out[r["i"]] = self.i
        return out


def report(d, got, abort):
    """what the caller is told"""
    pm, i, conv = got
    if "exit" not in d:
        raise Unsupported("interpolation loop not recognised")
    ie, s, e, none = d["exit"]
    nu = lin.norm(d["u"])
    CTX.prove_eq("reported count", i, ie)
    CTX.prove_eq("sum of the first i terms of the Newton polynomial", pm, s)
    CTX.prove("count within the sequence", cmp_("<=", i, d["N"]))
    zero = cmp_("==", nu, 0)
    CTX.prove("reports convergence only below tolerance (or for a zero vector)", ~B.of(conv) | zero | below(d, e))
    CTX.prove("stops for a reason: convergence, abort level or points exhausted",
              B.of(conv) | cmp_("<", abort * nu, e) | cmp_("<=", d["N"], Sc.of(i) + 2))
    CTX.cover("returned")


def real_points(with_abort):
    def fn():
        d = setup()
        ml = d["ml"]
        xs, cs = seq("x", d["N"], "point", None), seq("c", d["N"], "coefficient", None)
        c = lambda i: elem("c", i, None)
        abort = pos("abort") if with_abort else Sc.of(10) ** 10

        def step(i, v, s, e):
            w = newton(d, v, elem("x", i - 1, None))
            return dict(V=w, S=s + w * c(i), E=mean(abs_(c(i)) * lin.norm(w), e))
        u = d["u"]
        hook = loop_contract(d, Sc.of(1), u, u * c(0), lin.norm(u) * 2, step, abort)
        got = run(d, hook, lambda: call("real_leja_expmv", ml.real_leja_expmv, d["lop"], d["dt"], u, d["shift"], d["scale"], xs, cs, d["tol"],
                                        *((abort,) if with_abort else ())))
        report(d, got, abort)
    return fn


def conj_points(r, with_abort):
    """r real points, then conjugate pairs (a, b) at (r, r+1), (r+2, r+3), ..."""
    def fn():
        d = setup()
        ml = d["ml"]
        N = d["N"]
        if r is not None:
            CTX.assume(cmp_("<", r, N))
        abort = pos("abort") if with_abort else Sc.of(10) ** 10

        # imaginary parts: zero for the leading points (they enter the contract through their real part)
        xim = lambda i: Sc.app("x_im", i)
        cim = lambda i: Sc.app("c_im", i)
        xs, cs = seq("x", N, "point", xim), seq("c", N, "coefficient", cim)
        c = lambda i: elem("c", i, cim)
        u = d["u"]

        def step(i, v, s, e):
            x = elem("x", i - 1, xim)             # first point of the pair; the second is its conjugate
            xb = terms.conj_(x)
            w1 = newton(d, v, x)                  # complex Newton term i
            w2 = newton(d, w1, xb)                # Newton term i + 1 (real)
            ci = terms.real_(c(i))                # divided difference over a set closed under conjugation: real
            CTX.prove_eq("the Newton term after a conjugate pair is real", w2, lin.real_arr(w2))
            re1 = lin.real_arr(w1 * ci)
            re2 = lin.real_arr(w2)
            cj = terms.real_(c(i + 1))
            e1 = mean(abs_(ci) * lin.norm(lin.real_arr(w1)), e)
            return dict(V=re2, S=s + re1 + re2 * cj, E=mean(abs_(cj) * lin.norm(re2), e1))
        v, s, e = u, u * terms.real_(c(0)), lin.norm(u) * 2
        if r is None:
            # any number of leading real points: contract of the static loop over them
            R = integer("real_points", 1)
            CTX.assume(cmp_("<", R, N))
            load.LOOP_CONTRACTS[:] = [lambda key, kind, it, loc, v=v, s=s, e=e: Leading(kind, d, R, v, s, e, c)]
            v, s, e = V(d, R), S(d, R + 1), E(R + 1)
        else:
            R = Sc.of(r)
            for j in range(1, r + 1):
                v = newton(d, v, elem("x", Sc.of(j - 1), None))
                s = s + v * terms.real_(c(j))
                e = mean(abs_(terms.real_(c(j))) * lin.norm(v), e)
        hook = loop_contract(d, R + 1, v, s, e, step, abort, 2)
        got = run(d, hook, lambda: call("complex_conj_leja_expmv", ml.complex_conj_leja_expmv, d["lop"], d["dt"], u, d["shift"], d["scale"], xs, R if r is None else r, cs, d["tol"],
                                        *((abort,) if with_abort else ())))
        CTX.note("divided differences of exp over a conjugation-closed set of points are real")
        report(d, got, abort)
    return fn


def all_real(with_abort):
    """only real points: same result as the real interpolation, whatever it returns"""
    def fn():
        d = setup()
        ml = d["ml"]
        N = d["N"]
        xs, cs = PArr.sym("x", N), PArr.sym("c", N)
        abort = pos("abort")
        res = (Arr.vec("result", d["n"]), integer("count"), Sc.sym("flag"))
        seen = []

        def c_real(a_lo, dt, u, shift, scale, leja_x, coeffs, tol, abort_tol=Sc.of(10) ** 10):
            CTX.prove("operator", B.of(a_lo is d["lop"]))
            for nm, g, w in (("step", dt, d["dt"]), ("vector", u, d["u"]), ("shift", shift, d["shift"]), ("scale", scale, d["scale"]),
                             ("tolerance", tol, d["tol"]), ("abort level", abort_tol, abort if with_abort else Sc.of(10) ** 10)):
                CTX.prove_eq("real interpolation gets the %s" % nm, g, w)
            j = integer("j", 0)
            CTX.prove_eq("real interpolation gets the points", leja_x[j], xs[j])
            CTX.prove_eq("real interpolation gets the coefficients", coeffs[j], cs[j])
            seen.append(1)
            return res
        d["W"].replace(ml.real_leja_expmv, c_real)
        got = call("complex_conj_leja_expmv", ml.complex_conj_leja_expmv, d["lop"], d["dt"], d["u"], d["shift"], d["scale"], xs, N, cs, d["tol"],
                   *((abort,) if with_abort else ()))
        if not seen:
            raise Unsupported("real interpolation not called")
        CTX.prove_eq("result", got[0], res[0])
        CTX.prove_eq("count", got[1], res[1])
        CTX.prove_eq("flag", got[2], res[2])
        CTX.cover("delegated")
    return fn


def imaginary_points():
    """points 0, then conjugate pairs (x_1, x_2), (x_3, x_4), ... on the imaginary axis; pass m adds the terms i-1 and i, i = 2m"""
    def fn():
        d = setup()
        ml, N, u = d["ml"], d["N"], d["u"]
        xim, cim = (lambda i: Sc.app("x_im", i)), (lambda i: Sc.app("c_im", i))
        now = [None]

        def real_index(i):
            # divided differences over a set closed under conjugation (an odd number of points) are real
            i = Sc.of(i)
            return i.is_const() and i.const() % 2 == 0 or now[0] is not None and terms.is_zero(i - now[0])

        def cf(i):
            in_range(i, N, "coefficient")
            return elem("c", i, None if real_index(i) else cim)

        def xf(i):
            i = Sc.of(i)
            in_range(i, N, "point")
            return Sc.of(0) if i.is_const() and not i.const() else terms.I_ * xim(i)
        xs, cs = PArr(N, xf, "x"), PArr(N, cf, "c")
        re = lambda i: elem("c", i, None)
        beta = lin.norm(u)
        v0, s0 = newton(d, u, Sc.of(0)), u * re(Sc.of(0))
        enough = lambda e: cmp_("<=", e, d["tol"] * beta)

        def hook(kind, a):
            if kind != "while":
                return NotImplemented
            if d.get("loop"):
                raise Unsupported("second loop")
            d["loop"] = True
            c = Carry(d, a["init"], Sc.of(2), v0, s0, None, False)
            e0 = Sc.of(c.get(a["init"])["E"])
            if CTX.choose("no pass"):
                CTX.assume(~B.of(a["cond"](a["init"])))
                d["exit"] = (Sc.of(2), s0, None)
                return a["init"]
            if CTX.choose("pass"):
                if CTX.choose("first pass"):
                    i, v, s, e = Sc.of(2), v0, s0, e0
                else:
                    i = 2 + 2 * integer(terms.fresh_name("passes"), 1)
                    v, s, e = V(d, i - 1), S(d, i - 1), E(i)
                now[0] = i
                st = c.make(i=i, V=v, S=s, E=e)
                CTX.assume(B.of(a["cond"](st)))
                out = c.get(a["body"](st))
                x = terms.I_ * xim(i - 1)
                w1 = newton(d, v, x)
                w2 = newton(d, w1, terms.conj_(x))
                q = lin.real_arr(w1)
                CTX.prove_eq("the Newton term after a conjugate pair is real", w2, lin.real_arr(w2))
                CTX.prove_eq("pass: counter", out["i"], i + 2)
                CTX.prove_eq("pass: Newton term", out["V"], lin.real_arr(w2))
                CTX.prove_eq("pass: sum", out["S"], s + v * re(i - 1) + q * re(i))
                CTX.prove_eq("pass: estimate = size of the terms of this pass", out["E"], abs_(re(i - 1)) * lin.norm(v) + abs_(re(i)) * lin.norm(q))
                CTX.cover("pass")
                raise PathEnd()
            i = 2 + 2 * integer(terms.fresh_name("passes"), 1)
            CTX.assume(cmp_("<=", i, N + 1))        # the last pass was allowed: its indices were within the sequence
            st = c.make(i=i, V=V(d, i - 1), S=S(d, i - 1), E=E(i))
            CTX.assume(~B.of(a["cond"](st)))
            d["exit"] = (i, S(d, i - 1), E(i))
            CTX.cover("exit")
            return st
        pm, i, conv = run(d, hook, lambda: call("complex_conj_imag_leja_expmv", ml.complex_conj_imag_leja_expmv, d["lop"], d["dt"], u,
                                                d["shift"], d["scale"], xs, cs, d["tol"]))
        if "exit" not in d:
            raise Unsupported("interpolation loop not recognised")
        ie, s, e = d["exit"]
        CTX.note("divided differences of exp over a conjugation-closed set of points are real")
        CTX.prove_eq("reported count", i, ie)
        CTX.prove_eq("sum of the terms before the reported count", pm, s)
        CTX.prove("reports convergence only below tolerance",
                  ~B.of(conv) | (cmp_("<=", 1, d["tol"]) | cmp_("==", beta, 0) if e is None else enough(e)))
        if e is not None:
            CTX.prove("stops for a reason: tolerance, growth or points exhausted", enough(e) | cmp_("<=", beta * 1000, e) | cmp_("<=", N, i))
        CTX.cover("returned")
    return fn


def average():
    W = make_world()
    ml = W.load("ormatex_py.matexp_leja")
    a, b, g = pos("a"), pos("b"), real("g")
    CTX.prove_eq("decay_fun: weighted geometric mean", call("decay_fun", ml.decay_fun, a, b, g), exp_(log_(a) * g + log_(b) * (1 - g)))
    CTX.cover("mean")


def tasks():
    T = [Task("average", average, ["matexp_leja.decay_fun"], covers=["mean"])]
    for ab in (False, True):
        sfx = "-abort" if ab else ""
        T.append(Task("real" + sfx, real_points(ab), ["matexp_leja.real_leja_expmv", "matexp_leja.decay_fun"], covers=["pass", "exit", "returned"]))
        T.append(Task("all-real" + sfx, all_real(ab), ["matexp_leja.complex_conj_leja_expmv"], covers=["delegated"]))
        for r in (None, 0, 1, 2):
            T.append(Task("conjugate-%s%s" % ("any" if r is None else r, sfx), conj_points(r, ab), ["matexp_leja.complex_conj_leja_expmv", "matexp_leja.decay_fun"], covers=["pass", "exit", "returned"]))
    T.append(Task("imaginary", imaginary_points(), ["matexp_leja.complex_conj_imag_leja_expmv"], covers=["pass", "exit", "returned"]))
    return T
