"""C09: products phi_k(Z)B of dense matrices."""
from .common import *


def setup(replace=()):
    W = make_world()
    mp = W.load("ormatex_py.matexp_phi")
    for nm, c in replace:
        f = getattr(mp, nm, None)
        if f is not None:
            W.replace(f, c)
    n = integer("n", 1)
    return W, mp, n, Arr.mat("Z", n)


def rhs(n, kind):
    if kind == "vector":
        return Arr.vec("b", n)
    if kind == "column":
        return Arr.mat("B", n, 1)
    M = integer("M", 2)
    return Arr.mat("B", n, M)


def same_shape(got, b):
    CTX.prove("result has the shape of B", B.of(got.ndim == b.ndim))
    for g, w in zip(got.shape, b.shape):
        CTX.prove_eq("result has the shape of B", Sc.of(g), Sc.of(w))


def appl(k, kind):
    def fn():
        W, mp, n, Z = setup((("f_phi_k_sq", c_sq), ("f_phi_k_sq_all", c_sq_all), ("f_phi_k_ext", c_ext)))
        b = rhs(n, kind)
        got = call("f_phi_k_appl", mp.f_phi_k_appl, Z, b, k)
        same_shape(got, b)
        CTX.prove_eq("phi_k(Z) B", got, phik(k, Z) @ b)
        CTX.cover("product")
    return fn


def any_order(k0=2):
    return integer("k", k0)


def appl_any(kind):
    """every order k >= 2 (k = 0, 1: appl)"""
    def fn():
        W, mp, n, Z = setup((("f_phi_k_sq", c_sq), ("f_phi_k_sq_all", c_sq_all), ("f_phi_k_ext", c_ext)))
        b, k = rhs(n, kind), any_order()
        got = call("f_phi_k_appl", mp.f_phi_k_appl, Z, b, k)
        same_shape(got, b)
        CTX.prove_eq("phi_k(Z) B", got, phik(k, Z) @ b)
        CTX.cover("product")
    return fn


def pfd(k, kind, npoles, real_table=False):
    def fn():
        W, mp, n, Z = setup()
        b = rhs(n, kind)
        ps, cs = [], []
        for i in range(npoles):
            p, c = real("p%dr" % i), real("c%dr" % i)
            if not real_table:
                p, c = p + terms.I_ * real("p%di" % i), c + terms.I_ * real("c%di" % i)
            ps.append(p)
            cs.append(c)
        c0 = real("c0")
        mp.pfd_dict["any table"] = (ps, cs, c0)
        # another table, to make sure that the named one is used
        mp.pfd_dict["other"] = ([real("q")], [real("d")], real("d0"))
        got = call("f_phi_k_pfd", mp.f_phi_k_pfd, Z, b, k, "any table")
        same_shape(got, b)
        want = b * (c0 if k == 0 else 0)
        for p, c in zip(ps, cs):
            x = lin.solve(Z - Arr.eye(n) * p, b) * (Sc.of(2) * c / p ** k)
            want = want + lin.real_arr(x)
        CTX.prove_eq("sum of Re(2 c_i p_i^-k (Z - p_i)^-1 B), plus c0 B when k = 0", got, want)
        CTX.cover("table")
    return fn


def pfd_any(kind, real_table):
    """every order and every number of poles: induction over the partial sums"""
    def fn():
        W, mp, n, Z = setup()
        b, k, m = rhs(n, kind), integer("k", 0), integer("poles", 0)
        I_ = lambda nm, i: Sc.app(nm, i) + (0 if real_table else terms.I_ * Sc.app(nm + "_im", i))
        ps, cs, c0 = load.AbsSeq(m, lambda i: I_("p", i)), load.AbsSeq(m, lambda i: I_("c", i)), real("c0")
        mp.pfd_dict["any table"] = (ps, cs, c0)
        mp.pfd_dict["other"] = ([real("q")], [real("d")], real("d0"))
        Bm = b[:, None] if b.ndim == 1 else b
        M = Bm.shape[1]

        def S(i):
            base = Bm * (c0 if bool(cmp_("==", k, 0)) else 0)
            if lin.entails(cmp_("==", i, 0)):
                return base
            return Arr.from_op(Op.get("sym", "partial_sum", Sc.of(n), Sc.of(M), (Sc.of(i),)), 2)

        def nxt(i):
            x = lin.solve(Z - Arr.eye(n) * ps.item(i), Bm) * (Sc.of(2) * cs.item(i) / ps.item(i) ** k)
            return S(i) + lin.real_arr(x)

        def rule(key, kind, it, loc):
            if key.endswith("f_phi_k_pfd") and (kind == "while" or isinstance(it, (load.SymRange, load.AbsSeq))):
                CTX.cover("poles")
                return load.Tracked((0, m), load.Quantity(S, nxt))
            return None
        load.LOOP_CONTRACTS[:] = [rule]
        try:
            got = call("f_phi_k_pfd", mp.f_phi_k_pfd, Z, b, k, "any table")
        finally:
            load.LOOP_CONTRACTS[:] = []
        same_shape(got, b)
        want = S(m)
        want = Arr(1, want.rp, want.cp, want.bl) if b.ndim == 1 else want
        CTX.prove_eq("the sum over all poles, plus c0 B when k = 0", got, want)
        CTX.cover("table")
    return fn


def every_name(k):
    """the meaning does not depend on the name: every shipped name, with the contents of its table replaced by symbols"""
    def fn():
        W, mp, n, Z = setup()
        b = Arr.vec("b", n)
        p, c, c0 = real("pr") + terms.I_ * real("pi"), real("cr") + terms.I_ * real("ci"), real("c0")
        x = lin.solve(Z - Arr.eye(n) * p, b) * (Sc.of(2) * c / p ** k)
        want = lin.real_arr(x) + b * (c0 if k == 0 else 0)
        for nm in sorted(mp.pfd_dict.keys()):
            old = mp.pfd_dict[nm]
            mp.pfd_dict[nm] = ([p], [c], c0)
            got = call("f_phi_k_pfd", mp.f_phi_k_pfd, Z, b, k, nm)
            mp.pfd_dict[nm] = old
            CTX.prove_eq("the named table is evaluated as written: " + nm, got, want)
        CTX.cover("table")
    return fn


def rejects():
    W, mp, n, Z = setup((("f_phi_k_sq", c_sq), ("f_phi_k_sq_all", c_sq_all)))
    mp.pfd_dict["any table"] = ([real("p")], [real("c")], real("c0"))
    R, b = Arr.mat("R", n, n + 1), Arr.vec("b", n)
    bad = ((R, b, 2, "a matrix that is not square"), (Z, b, -1, "a negative order"),
           (Z, Arr.vec("d", n + 1), 2, "a vector of another length"), (Z, Arr.mat("D", n + 1, 2), 2, "a block of another height"),
           (Z, Arr.mat("D", n + 1, 2), 0, "a block of another height (k = 0)"))
    for nm in ("f_phi_k_appl", "f_phi_k_pfd"):
        f = getattr(mp, nm)
        for a in bad:
            try:
                f(*(a[:3] + (("any table",) if nm == "f_phi_k_pfd" else ())))
                CTX.prove("%s rejects %s" % (nm, a[3]), B.of(False))
            except (AssertionError, ValueError, TypeError, lin.ShapeError):
                CTX.prove("%s rejects %s" % (nm, a[3]), B.of(True))
    CTX.cover("rejected")


def tasks():
    T = [Task("rejects", rejects, [], covers=["rejected"])]
    for k in range(0, 4):
        T.append(Task("pfd-every-name-%d" % k, every_name(k), ["matexp_phi.f_phi_k_pfd"], covers=["table"], bounded="this order k, one pole"))
    for kind in ("vector", "column", "block"):
        for rt in (False, True):
            T.append(Task("pfd-%s-any-table%s" % (kind, "-real" if rt else ""), pfd_any(kind, rt), ["matexp_phi.f_phi_k_pfd"], covers=["table", "poles"]))
        T.append(Task("appl-%s-any-order" % kind, appl_any(kind), ["matexp_phi.f_phi_k_appl"], covers=["product"]))
        for k in range(0, 6):
            T.append(Task("appl-%s-%d" % (kind, k), appl(k, kind), ["matexp_phi.f_phi_k_appl"], covers=["product"],
                          bounded="this order k only (k >= 2: appl-%s-any-order)" % kind if k > 1 else None))
            for m in (0, 1, 3):
                T.append(Task("pfd-%s-%d-%d-poles" % (kind, k, m), pfd(k, kind, m), ["matexp_phi.f_phi_k_pfd"], covers=["table"], bounded="this order k and number of poles only"))
            T.append(Task("pfd-%s-%d-real" % (kind, k), pfd(k, kind, 2, True), ["matexp_phi.f_phi_k_pfd"], covers=["table"], bounded="this order k and number of poles only"))
    return T
