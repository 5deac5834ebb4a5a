"""C14: divided differences of the exponential (recursive, Pade and Taylor routines)."""
from .common import *
from ovc.lin import W
from ovc.terms import exp_, log_, Atom


# ------------------------------------------------------- spec function: divided differences
def setup_dd(cplx=False):
    n = integer("points", 1)
    s = "C" if cplx else "R"
    return dict(n=n, x=PArr.sym("x", n, sort=s), y=PArr.sym("y", n, sort=s), s=s)


def dd(d, l, j):
    """f[x_0, ..., x_{l-1}, x_j]"""
    l, j = Sc.of(l), Sc.of(j)
    if lin.entails(cmp_("==", l, 0)):
        return d["y"][j]
    return Sc.app("dd", l, j, sort=d["s"])


def unfold(d, l, j):
    """definition: f[x_0..x_{l-1},x_j] = (f[x_0..x_{l-2},x_j] - f[x_0..x_{l-2},x_{l-1}]) / (x_j - x_{l-1}) for l >= 1"""
    x = d["x"]
    return (dd(d, l - 1, j) - dd(d, l - 1, l - 1)) / (x[j] - x[l - 1])


class Newton:
    """the loop over the orders: which local is the array of coefficients is found by its value on entry"""
    names = None

    def __init__(self, d):
        self.d = d
        self.span = (1, d["n"])

    def check(self, loc, k, what):
        d = self.d
        k = Sc.of(k)
        if what == "entry":
            CTX.prove_eq("first order handled", k, Sc.of(1))
            self.role = [v for v, a in loc.items() if isinstance(a, PArr) and a is not d["x"] and a is not d["y"] and self.is_y(a)]
            if not self.role:
                self.role = [v for v, a in loc.items() if isinstance(a, PArr) and self.is_y(a)]
            self.role = self.role[-1:]
            if not self.role:
                raise Unsupported("no local holds the coefficients")
            return
        a = loc[self.role[0]]
        j = integer(terms.fresh_name("j"), 0)
        CTX.assume(cmp_("<", j, d["n"]))
        if bool(cmp_("==", j, k - 1)):
            j = k - 1
        got = a[j]
        if bool(cmp_("<", j, k - 1)):
            CTX.prove_eq("finished coefficients are kept", got, dd(d, j, j))
        else:
            CTX.prove_eq("order %s of the table" % "k", got, unfold(d, k - 1, j))

    def is_y(self, a):
        j = integer(terms.fresh_name("j"), 0)
        CTX.add(cmp_("<", j, self.d["n"]))
        return lin.entails(cmp_("==", a[j], self.d["y"][j]))

    def havoc(self, loc, k):
        d = self.d
        k = Sc.of(k)

        def f(j):
            return dd(d, j, j) if bool(cmp_("<=", j, k - 1)) else dd(d, k - 1, j)
        return {self.role[0]: PArr(d["n"], f)}


def newton(cplx):
    def fn():
        W_ = make_world()
        mp = W_.load("ormatex_py.matexp_poly")
        d = setup_dd(cplx)
        load.LOOP_CONTRACTS[:] = [lambda key, kind, it, loc: Newton(d)]
        try:
            a = call("newton_poly_div_diff", mp.newton_poly_div_diff, d["x"], d["y"])
        finally:
            load.LOOP_CONTRACTS[:] = []
        CTX.prove_eq("as many coefficients as points", a.shape[0], d["n"])
        j = integer("j", 0)
        CTX.assume(cmp_("<", j, d["n"]))
        if bool(cmp_("==", j, 0)):
            CTX.prove_eq("first coefficient is the first datum", a[0], d["y"][0])
            return
        if bool(cmp_("==", j, d["n"] - 1)):
            j = d["n"] - 1
        got = a[j]
        CTX.prove_eq("coefficient j is the divided difference over the first j+1 points", got, dd(d, j, j))
        CTX.cover("returned")
    return fn


def newton_small(n):
    """closed table for n points, any order of evaluation (bounded)"""
    def fn():
        W_ = make_world()
        mp = W_.load("ormatex_py.matexp_poly")
        x = lin.evec("x", n)
        y = lin.evec("y", n)
        for i in range(n):
            for j in range(i):
                CTX.assume(~cmp_("==", x[i], x[j]))
        a = call("newton_poly_div_diff", mp.newton_poly_div_diff, x, y)
        t = [Sc.of(v) for v in y]
        for k in range(n):
            CTX.prove_eq("coefficient %d" % k, Sc.of(a[k]), t[0])
            t = [(t[i + 1] - t[i]) / (x[i + k + 1] - x[i]) for i in range(len(t) - 1)]
        CTX.cover("returned")
    return fn


def exp_dd(default_h):
    def fn():
        W_ = make_world()
        mp = W_.load("ormatex_py.matexp_poly")
        d = setup_dd()
        a, b, h = real("shift"), real("scale"), (Sc.of(1) if default_h else real("h"))
        seen = []

        def contract(x, y):
            used("newton_poly_div_diff")
            seen.append((x, y))
            return PArr.sym("coeffs", d["n"])
        W_.replace(mp.newton_poly_div_diff, contract)
        args = (d["x"], a, b) + (() if default_h else (h,))
        c = call("leja_coeffs_exp_dd", mp.leja_coeffs_exp_dd, *args)
        if len(seen) != 1:
            raise Unsupported("divided difference routine not used once")
        x, y = seen[0]
        j = integer("j", 0)
        CTX.assume(cmp_("<", j, d["n"]))
        CTX.prove_eq("all points", x.shape[0], d["n"])
        CTX.prove_eq("points", x[j], d["x"][j])
        CTX.prove_eq("data are the exponential of the shifted and scaled points", y[j], exp_(h * (a + b * d["x"][j])))
        CTX.prove_eq("returns their divided differences", c[j], PArr.sym("coeffs", d["n"])[j])
        CTX.cover("returned")
    return fn


# ------------------------------------------------------------ matrix routines
def bidiag(n, x):
    """x on the diagonal, ones below it"""
    return lib.diag(x) + lib.diag(lib.ones((n - 1,)), -1)


def matrix_setup():
    W_ = make_world()
    mp = W_.load("ormatex_py.matexp_poly")
    n = integer("points", 2)
    return W_, mp, n, Arr.vec("x", n), real("shift"), real("scale")


def target(n, x, a, b, h):
    return phik(0, (Arr.eye(n) * a + bidiag(n, x) * b) * h)[:, 0]


def pade(default_h):
    def fn():
        W_, mp, n, x, a, b = matrix_setup()
        h = Sc.of(1) if default_h else real("h")
        c = call("leja_coeffs_exp", mp.leja_coeffs_exp, x, a, b, *(() if default_h else (h,)))
        CTX.prove_eq("first column of the exponential of the bidiagonal matrix", c, target(n, x, a, b, h))
        CTX.cover("returned")
    return fn


def exp_rules(w):
    """exp(X + c I) = e^c exp(X);  exp(X) exp(sX) = exp((1+s) X)"""
    for i, o in enumerate(w):
        a = Op.by_id[o]
        if a.kind == "phi" and a.args[0] == 0:
            t = a.args[1].t
            if () in t:
                r = {k: v for k, v in t.items() if k}
                p = (lin.phi_op(0, LT(r), a.rows).id,) if r else ()
                return {w[:i] + p + w[i + 1:]: exp_(t[()])}
            if i + 1 < len(w):
                b = Op.by_id[w[i + 1]]
                if b.kind == "phi" and b.args[0] == 0 and () not in b.args[1].t:
                    u = b.args[1].t
                    if proportional(t, u):
                        s = lin.t_lin(dict(t), u, Sc.of(1))
                        return {w[:i] + ((lin.phi_op(0, LT(s), a.rows).id,) if s else ()) + w[i + 2:]: Sc.of(1)}
        if a.kind in ("cols", "rows") and a.args[0].kind == "phi" and a.args[0].args[0] == 0:
            o, off, k = a.args
            t = o.args[1].t
            if () in t and len(t) > 1:
                q = lin.phi_op(0, LT({k: v for k, v in t.items() if k}), o.rows)
                nm = ("%r[:,%r:+%r]" if a.kind == "cols" else "%r[%r:+%r]") % (q, off, k)
                b = Op.get(a.kind, nm, a.rows, a.cols, (q, off, k))
                return {w[:i] + (b.id,) + w[i + 1:]: exp_(t[()])}
    return None


def proportional(t, u):
    if set(t) != set(u):
        return False
    k = min(t)
    return all(terms.is_zero(t[q] * u[k] - u[q] * t[k]) for q in t)


def taylor(default_h):
    def fn():
        W_, mp, n, x, a, b = matrix_setup()
        h = Sc.of(1) if default_h else real("h")
        d = dict(calls=[], loops=[])

        def ts(A, shift, scale, p=20):
            """contract of expm_taylor: exp(shift) exp(A) up to the Taylor remainder of order p"""
            used("expm_taylor")
            CTX.prove_eq("expm_taylor-pre: unit scale", Sc.of(scale), Sc.of(1))
            CTX.prove("expm_taylor-pre: enough terms", cmp_("<=", 18, Sc.of(p)))
            d["calls"].append(A)
            return phik(0, A) * exp_(shift)

        def hook(kind, q):
            if kind != "fori":
                return NotImplemented
            lo, hi, body, F0 = q["lower"], Sc.of(q["upper"]), q["body"], q["init"]
            A = d["calls"][-1] if d["calls"] else None
            if A is None or lin.compare(CTX, lin.renormalise(F0), lin.renormalise(phik(0, A)))[0] != "proved":
                raise Unsupported("squaring does not start from the expansion")
            cnt = hi - lo
            i = integer(terms.fresh_name("squarings"), 0)
            Fi = phik(0, A * Sc.of(2) ** i)
            if CTX.choose("squaring"):
                CTX.prove_eq("each pass squares", lin.renormalise(body(Sc.of(lo) + i, Fi)), lin.renormalise(phik(0, A * (Sc.of(2) ** i * 2))))
                CTX.cover("squaring")
                raise PathEnd()
            d["loops"].append(cnt)
            CTX.prove("at least one squaring or none", cmp_("<=", 0, cnt))
            return phik(0, A * Sc.of(2) ** cnt)
        W_.replace(mp.expm_taylor, ts)
        lib.LOOPS[:] = [hook]
        lin.REWRITES.append(exp_rules)
        try:
            c = call("dd_exp_taylor", mp.dd_exp_taylor, x, a, b, *(() if default_h else (h,)))
            CTX.prove_eq("first column of the exponential of the bidiagonal matrix", lin.renormalise(c), lin.renormalise(target(n, x, a, b, h)))
            if len(d["calls"]) != 1 or len(d["loops"]) != 1:
                raise Unsupported("one expansion and one squaring loop expected")
            halvings(d["calls"][0], d["loops"][0], h)
        finally:
            lin.REWRITES.remove(exp_rules)
            lib.LOOPS[:] = []
        CTX.cover("returned")
    return fn


def halvings(A, s, h):
    """every entry of the argument of the expansion is at most h in magnitude"""
    CTX.prove("at least one halving", cmp_("<=", 1, s))
    ids = set(Sc.of(s).atoms()) | set(CTX.ids)
    M = [t for t in (Atom.by_id[i] for i in ids) if t.name == "amax"]
    if not M:
        raise Unsupported("the number of halvings does not depend on the largest entry")
    m = M[0]
    z = m.args[0].a if isinstance(m.args[0], KA) else None
    if z is None:
        raise Unsupported("largest entry of what?")
    inner = z
    if z.is_lin():
        t = z.lt()
        if len(t.t) == 1:
            (w, c), = t.t.items()
            o = Op.by_id[w[0]] if len(w) == 1 else None
            if o is not None and o.name == "absv" and terms.is_zero(c - 1):
                inner = o.args[0].a
                two = Sc.of(2) ** s
                CTX.prove_eq("argument of the expansion is the halved matrix", A * two, inner * h)
                CTX.prove("halved at least as often as the largest entry asks for", cmp_("<=", log_(Sc({((m.id, 1),): Q(1)})), s * log_(Sc.of(2))))
                return
    raise Unsupported("largest entry of an unrecognised matrix")


def expansion(p):
    """the truncated series for an abstract matrix"""
    def fn():
        W_ = make_world()
        mp = W_.load("ormatex_py.matexp_poly")
        n = integer("n", 1)
        A, sh = Arr.mat("A", n), real("shift")
        F = call("expm_taylor", mp.expm_taylor, A, sh, Sc.of(1), *(() if p is None else (p,)))
        P = 20 if p is None else p
        want, pw = Arr.eye(n), Arr.eye(n)
        for k in range(1, P + 1):
            pw = pw @ A
            want = want + pw * (Sc.of(1) / math.factorial(k))
        CTX.prove_eq("Taylor polynomial of degree %d" % P, F, want * exp_(sh))
        CTX.cover("returned")
    return fn


def expansion_any():
    """every order: before iteration i the loop holds A^(i+1) and the terms of the series up to A^i/i!"""
    W_ = make_world()
    mp = W_.load("ormatex_py.matexp_poly")
    n, p = integer("n", 1), integer("p", 1)
    A, sh = Arr.mat("A", n), real("shift")
    at = lambda what, i: Arr.mat("%s[%r]" % (what, Sc.of(i)), n)
    start = lambda i: lin.entails(cmp_("==", Sc.of(i), 0))
    power = lambda i: A if start(i) else at("Power", i)                   # A^(i+1)
    total = lambda i: Arr.eye(n) if start(i) else at("Sum", i)            # terms 0 .. i
    qs = (load.Quantity(power, lambda i: A @ power(i)),
          load.Quantity(total, lambda i: total(i) + power(i) / terms.factorial_(Sc.of(i) + 1)))

    def rule(key, kind, it, loc):
        if kind == "while" or isinstance(it, load.SymRange):
            CTX.cover("terms")
            return load.Tracked((Sc.of(0), p), *qs)
        return None
    old = load.LOOP_CONTRACTS[:]
    load.LOOP_CONTRACTS[:] = [rule]
    terms._lenient_div[0] = True
    try:
        F = call("expm_taylor", mp.expm_taylor, A, sh, Sc.of(1), p)
    finally:
        load.LOOP_CONTRACTS[:] = old
        terms._lenient_div[0] = False
    CTX.prove_eq("the series of order p", F, total(p) * exp_(sh))
    CTX.cover("returned")


def tasks():
    N = ["matexp_poly.newton_poly_div_diff"]
    T = [Task("newton", newton(False), N, covers=["returned", "loop-body"]),
         Task("newton-complex", newton(True), N, covers=["returned", "loop-body"])]
    for n in (1, 2, 3, 4):
        T.append(Task("newton-%d" % n, newton_small(n), N, covers=["returned"], bounded="1..4 points (symmetric definition of the divided difference)"))
    for dflt in (False, True):
        s = "-unit" if dflt else ""
        T.append(Task("recursive%s" % s, exp_dd(dflt), ["matexp_poly.leja_coeffs_exp_dd"], covers=["returned"]))
        T.append(Task("pade%s" % s, pade(dflt), ["matexp_poly.leja_coeffs_exp"], covers=["returned"]))
        T.append(Task("taylor%s" % s, taylor(dflt), ["matexp_poly.dd_exp_taylor"], covers=["squaring", "returned"]))
    T.append(Task("expansion-any-order", expansion_any, ["matexp_poly.expm_taylor"], covers=["returned", "terms"]))
    T.append(Task("expansion-default", expansion(None), ["matexp_poly.expm_taylor"], covers=["returned"]))
    for p in (1, 2, 5, 10, 20, 25):
        T.append(Task("expansion-%d" % p, expansion(p), ["matexp_poly.expm_taylor"], covers=["returned"], bounded="orders 1, 2, 5, 10, 20, 25 (every order: expansion-any-order)"))
    return T
