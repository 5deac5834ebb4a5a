"""C08: dense phi-function evaluators agree with the definition."""
from .common import *


def setup(replace=()):
    W = make_world()
    mp = W.load("ormatex_py.matexp_phi")
    for nm, c in replace:
        f = getattr(mp, nm, None)
        if f is not None:
            W.replace(f, c)
    n = integer("n", 1)
    return W, mp, n, Arr.mat("Z", n)


def eye(n):
    return Arr.eye(n)


def taylor(Z, j, d):
    """sum_{i=0}^{d} Z^i/(i+j)!"""
    n = Z.shape[0]
    r = eye(n) / math.factorial(j)
    P = eye(n)
    for i in range(1, d + 1):
        P = P @ Z
        r = r + P / math.factorial(i + j)
    return r


def parts(x):
    return x.parts if isinstance(x, Stack3) else list(x)


# --------------------------------------------------------------- extension form
def ext(k):
    def fn():
        W, mp, n, Z = setup()
        CTX.prove_eq("phi_k(Z)", call("f_phi_k_ext", mp.f_phi_k_ext, Z, k), phik(k, Z))
        CTX.prove_eq("phi_k(0)", call("f_phi_k_ext", mp.f_phi_k_ext, Arr.zeros((n, n)), k), phik(k, Arr.zeros((n, n))))
        CTX.cover("phi_k")
    return fn


def ext_all(k):
    def fn():
        W, mp, n, Z = setup()
        got = parts(call("f_phi_k_ext", mp.f_phi_k_ext, Z, k, True))
        CTX.prove("phi_0 .. phi_k are returned", B.of(len(got) == k + 1))
        for j in range(k + 1):
            CTX.prove_eq("phi_%d(Z) of all" % j, got[j], phik(j, Z))
        CTX.cover("all")
    return fn


# ------------------------------------------------------------------ inverse form
def inverse(k):
    def fn():
        W, mp, n, Z = setup()
        eps = pos("eps")
        got, err = call("f_phi_k_inv", mp.f_phi_k_inv, Z, k, eps)
        CTX.note("Z nonsingular (precondition of the inverse-based evaluator)")
        CTX.prove_eq("phi_k(Z)", got, phik(k, Z))
        if k:
            q, r = lib.qr(Z)
            rmin = lib_min(r)
            CTX.prove_eq("error estimate = eps / min|r_ii|^k", Sc.of(err), eps / rmin ** k)
        else:
            CTX.prove_eq("error estimate = eps", Sc.of(err), eps)
        CTX.cover("inverse")
    return fn


def ext_any(every):
    """every order k >= 2 (k = 0, 1: ext, ext_all)"""
    def fn():
        W, mp, n, Z = setup()
        k = integer("k", 2)
        if not every:
            CTX.prove_eq("phi_k(Z)", call("f_phi_k_ext", mp.f_phi_k_ext, Z, k), phik(k, Z))
            CTX.prove_eq("phi_k(0)", call("f_phi_k_ext", mp.f_phi_k_ext, Arr.zeros((n, n)), k), phik(k, Arr.zeros((n, n))))
            CTX.cover("phi_k")
            return
        got = call("f_phi_k_ext", mp.f_phi_k_ext, Z, k, True)
        for g, w in zip(got.shape, (k + 1, n, n)):
            CTX.prove_eq("phi_0 .. phi_k are returned", Sc.of(g), Sc.of(w))
        j = integer("j", 0)
        CTX.assume(cmp_("<=", j, k))
        CTX.prove_eq("phi_j(Z) of all", got[j], phik(j, Z))
        CTX.cover("all")
    return fn


def inverse_any():
    """every order k >= 1 (k = 0: inverse); phi_i(Z) = Z^-1 (phi_{i-1}(Z) - I/(i-1)!) defines phi_i of a nonsingular matrix"""
    W, mp, n, Z = setup()
    eps, k = pos("eps"), integer("k", 1)
    rmin = lib_min(lib.qr(Z)[1])
    I1 = lambda i: phik(i - 1, Z)
    fact = lambda i: Sc.of(1) / terms.factorial_(i - 1)
    qs = (load.Quantity(I1, lambda i: lin.solve(Z, I1(i) - eye(n) * fact(i))),
          load.Quantity(lambda i: eps / rmin ** (i - 1), lambda i: eps / rmin ** (i - 1) / rmin),
          load.Quantity(fact, lambda i: fact(i) / i))

    def rule(key, kind, it, loc):
        if key.endswith("f_phi_k_inv") and (kind == "while" or isinstance(it, load.SymRange)):
            CTX.cover("orders")
            return load.Tracked((1, k + 1), *qs)
        return None
    load.LOOP_CONTRACTS[:] = [rule]
    try:
        got, err = call("f_phi_k_inv", mp.f_phi_k_inv, Z, k, eps)
    finally:
        load.LOOP_CONTRACTS[:] = []
    CTX.note("Z nonsingular (precondition of the inverse-based evaluator)")
    CTX.prove_eq("phi_k(Z)", got, phik(k, Z))
    CTX.prove_eq("error estimate = eps / min|r_ii|^k", Sc.of(err), eps / rmin ** k)
    CTX.cover("inverse")


def lib_min(r):
    return lib.amin(lib.abs_any(lib.diag(r)))


def warned(k=None):
    def fn():
        k = integer("k", 0)
        calls = []
        W, mp, n, Z = setup()
        err = pos("err")

        def c_inv(z, k, eps):
            used("f_phi_k_inv")
            CTX.prove_eq("f_phi_k_inv evaluates the given matrix", z, Z)
            CTX.prove_eq("the error estimate starts from the machine epsilon", Sc.of(eps), lib.finfo().eps)
            return phik(order(k), z), err
        W.replace(mp.f_phi_k_inv, c_inv)
        old = lib.WARN[0]
        lib.WARN[0] = lambda *a, **k: calls.append(a)
        try:
            got = call("f_phi_k", mp.f_phi_k, Z, k)
        finally:
            lib.WARN[0] = old
        CTX.prove_eq("phi_k(Z)", got, phik(k, Z))
        big = cmp_("<", terms.sqrt_(lib.finfo().eps), err)
        CTX.prove("a warning is issued exactly when the estimate exceeds sqrt(eps)", big if calls else ~big)
        CTX.cover("warned" if calls else "silent")
    return fn


# --------------------------------------------------------------- Taylor + squaring
def poly(k, deg):
    def fn():
        W, mp, n, Z = setup()
        terms._lenient_div[0] = True
        try:
            got = parts(call("f_phi_k_poly_all", mp.f_phi_k_poly_all, Z, k, deg))
        finally:
            terms._lenient_div[0] = False
        CTX.prove("phi_0 .. phi_k are returned", B.of(len(got) == k + 1))
        for j in range(k + 1):
            CTX.prove_eq("Taylor polynomial of phi_%d" % j, got[j], taylor(Z, j, deg - j))
        CTX.cover("taylor")
    return fn


def poly_any(k):
    """every degree above k: the loop adds the terms Z^(j-k)/j! one by one"""
    def fn():
        W, mp, n, Z = setup()
        deg = integer("deg", k + 1)
        f = math.factorial
        name = lambda what, j: Arr.mat("%s[%r]" % (what, Sc.of(j)), n)
        first = lambda j: lin.entails(cmp_("==", Sc.of(j), k + 1))
        term = lambda j: Z * (Sc.of(1) / f(k + 1)) if first(j) else name("Term", j)
        total = lambda j: eye(n) * (Sc.of(1) / f(k)) + term(k + 1) if first(j) else name("Sum", j)
        nxt = lambda j: Z @ term(j) * (Sc.of(1) / (Sc.of(j) + 1))
        # the loop variable j runs k+2 .. deg; before iteration j the terms up to j-1 are in the sum
        qs = (load.Quantity(lambda j: term(j - 1), lambda j: nxt(j - 1)), load.Quantity(lambda j: total(j - 1), lambda j: total(j - 1) + nxt(j - 1)))

        def rule(key, kind, it, loc):
            if kind == "while" or isinstance(it, load.SymRange):
                CTX.cover("degrees")
                return load.Tracked((Sc.of(k + 2), deg + 1), *qs)
            return None
        old = load.LOOP_CONTRACTS[:]
        load.LOOP_CONTRACTS[:] = [rule]
        terms._lenient_div[0] = True
        try:
            got = parts(call("f_phi_k_poly_all", mp.f_phi_k_poly_all, Z, k, deg))
        finally:
            load.LOOP_CONTRACTS[:] = old
            terms._lenient_div[0] = False
        CTX.prove("phi_0 .. phi_k are returned", B.of(len(got) == k + 1))
        want = total(deg)
        for j in range(k, -1, -1):
            CTX.prove_eq("Taylor polynomial of phi_%d of degree deg - %d" % (j, j), got[j], want)
            want = eye(n) * (Sc.of(1) / f(max(j - 1, 0))) + Z @ want
        CTX.cover("taylor")
    return fn


def doubled(j, P):
    """phi_j(2V) from P = [phi_0(V), .., phi_j(V)]"""
    r = P[0] @ P[j]
    for l in range(1, j + 1):
        r = r + P[l] / math.factorial(j - l)
    return r / 2 ** j


def degree(a):
    return max((len(w) for t in a.bl.values() for w in t), default=0)


def squaring(k, wrapper=None):
    def fn():
        W, mp, n, Z = setup()
        terms._lenient_div[0] = True
        theta = lib.norm(Z, float("inf"))
        seen = []

        def loop(kind, a):
            if kind != "fori":
                return NotImplemented
            init = a["init"]
            if not (isinstance(init, list) and len(init) == k + 1 and all(isinstance(x, Arr) for x in init)):
                return NotImplemented
            seen.append(1)
            N = Sc.of(a["upper"]) - Sc.of(a["lower"])
            CTX.prove("the number of squarings is nonnegative", cmp_("<=", 0, N))
            # entry: Taylor polynomials of Z/2^N
            Y = Z / Sc.of(2) ** N
            d = degree(init[0])
            CTX.prove("Taylor degree at least 4", B.of(d >= 4))
            for j in range(k + 1):
                CTX.prove_eq("entry: Taylor polynomial %d of Z/2^N, N the number of squarings" % j, init[j], taylor(Y, j, d - j))
            # |Z|/2^N < 1/8, stated for logarithms: log2|Z| + 3 < N
            if terms.is_zero(theta):
                raise Unsupported("zero matrix")
            CTX.prove("infinity norm of Z/2^N below 1/8", cmp_("<", lib.log2_(theta) + 3, N))
            # preservation: one step takes phi_j(V) to phi_j(2V)
            V = Arr.mat("V", n)
            P = [phik(j, V) for j in range(k + 1)]
            i = integer("i", 0)
            out = a["body"](Sc.of(a["lower"]) + i, list(P))
            for j in range(k + 1):
                CTX.prove_eq("step: exact doubling relation for phi_%d" % j, out[j], doubled(j, P))
            CTX.note("lemma phi-doubling: phi_j(2V) = (phi_0(V) phi_j(V) + sum_{l=1..j} phi_l(V)/(j-l)!)/2^j")
            CTX.note("Taylor truncation: the polynomials of degree d-j, d >= 4, at norm < 1/8 stand for phi_j (truncation error below (1/8)^(d+1-j)/(d+1)! before squaring)")
            return [phik(j, Z) for j in range(k + 1)]
        lib.LOOPS[:] = [loop]
        try:
            if wrapper is None:
                got = parts(call("f_phi_k_sq_all", mp.f_phi_k_sq_all, Z, k))
            elif wrapper:
                got = parts(call("f_phi_k_sq", mp.f_phi_k_sq, Z, k, return_all=True))
            else:
                got = [phik(j, Z) for j in range(k)] + [call("f_phi_k_sq", mp.f_phi_k_sq, Z, k)]
        finally:
            lib.LOOPS[:] = []
            terms._lenient_div[0] = False
        CTX.prove("phi_0 .. phi_k are returned", B.of(len(got) == k + 1))
        for j in range(k + 1):
            CTX.prove_eq("phi_%d(Z)" % j, got[j], phik(j, Z))
        if seen:
            CTX.cover("loop")
    return fn


def rejects():
    W, mp, n, Z = setup()
    R = Arr.mat("R", n, n + 1)
    for nm in ("f_phi_k_ext", "f_phi_k_inv", "f_phi_k_sq_all", "f_phi_k_poly_all"):
        f = getattr(mp, nm)
        for a, what in (((R, 2), "a matrix that is not square"), ((Z, -1), "a negative order")):
            if nm == "f_phi_k_inv":
                a = a + (pos("eps"),)
            try:
                f(*a)
                CTX.prove("%s rejects %s" % (nm, what), B.of(False))
            except (AssertionError, ValueError, TypeError, lin.ShapeError):
                CTX.prove("%s rejects %s" % (nm, what), B.of(True))
    CTX.cover("rejected")


def tasks():
    T = [Task("rejects", rejects, [], covers=["rejected"]),
         Task("warn-any-order", warned(), ["matexp_phi.f_phi_k"], covers=["warned", "silent"]),
         Task("ext-any-order", ext_any(False), ["matexp_phi.f_phi_k_ext"], covers=["phi_k"]),
         Task("ext-all-any-order", ext_any(True), ["matexp_phi.f_phi_k_ext"], covers=["all"]),
         Task("inv-any-order", inverse_any, ["matexp_phi.f_phi_k_inv"], covers=["inverse", "orders"])]
    for k in range(0, 6):
        b = "this order k only (k >= 2: the any-order tasks)" if k > 1 else None
        T.append(Task("ext-%d" % k, ext(k), ["matexp_phi.f_phi_k_ext"], covers=["phi_k"], bounded=b))
        T.append(Task("ext-all-%d" % k, ext_all(k), ["matexp_phi.f_phi_k_ext"], covers=["all"], bounded=b))
        T.append(Task("inv-%d" % k, inverse(k), ["matexp_phi.f_phi_k_inv"], covers=["inverse"], bounded="this order k only (k >= 1: inv-any-order)" if k else None))
    for k in range(0, 7):
        T.append(Task("poly-%d-any-degree" % k, poly_any(k), ["matexp_phi.f_phi_k_poly_all"], covers=["taylor", "degrees"], bounded="orders 0..6 (any degree)"))
    for k in range(0, 4):
        for deg in (4, 5, 8):
            T.append(Task("poly-%d-%d" % (k, deg), poly(k, deg), ["matexp_phi.f_phi_k_poly_all"], covers=["taylor"], bounded="this order k and degree only"))
        f = ["matexp_phi.f_phi_k_sq_all", "matexp_phi.f_phi_k_poly_all"]
        T.append(Task("squaring-%d" % k, squaring(k), f, covers=["loop"], weight=2))
        T.append(Task("squaring-wrapper-all-%d" % k, squaring(k, True), f + ["matexp_phi.f_phi_k_sq"], covers=["loop"], weight=2))
        T.append(Task("squaring-wrapper-%d" % k, squaring(k, False), f + ["matexp_phi.f_phi_k_sq"], covers=["loop"], weight=2))
    for k, deg in ((4, 5), (4, 7), (5, 6), (5, 9), (6, 7), (7, 12)):
        T.append(Task("poly-%d-%d" % (k, deg), poly(k, deg), ["matexp_phi.f_phi_k_poly_all"], covers=["taylor"], bounded="this order k and degree only"))
    return T
