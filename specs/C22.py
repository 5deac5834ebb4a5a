"""C22: hand-written Jacobians and right-hand sides of the shipped systems."""
from .common import *
from ovc.terms import diff

P = ("alpha", "beta", "delta", "gamma")


def state(n):
    return [real("u%d" % i) for i in range(n)]


def shape2(m):
    return tuple(int(Sc.of(x).const()) for x in m.shape)


def jac_of(s, t, u, kw, lab):
    """J, dF/dt and F of the system's operator against the derivatives of its right-hand side"""
    U = lib.array(u)
    n = len(u)
    f = call("frhs", s.frhs, t, U, **kw)
    op = call("fjac", s.fjac, t, U, **kw)
    D, ft = call("dense", op.dense), call("_fdt", op._fdt)
    CTX.prove("Jacobian is square", B.of(shape2(D) == (n, n)))
    v = [real("v%d" % i) for i in range(n)]
    mv = call("matvec", op.matvec, lib.array(v))
    fc = call("_frhs_cached", op._frhs_cached)
    for i in range(n):
        w = Sc.of(0)
        for j in range(n):
            d = diff(f[i], u[j])
            w = w + d * v[j]
            CTX.prove_eq("%s entry (%d, %d) is the derivative" % (lab, i, j), D[i, j], d)
        CTX.prove_eq("%s product, component %d" % (lab, i), mv[i], w)
        CTX.prove_eq("%s time derivative, component %d" % (lab, i), ft[i], diff(f[i], t))
        CTX.prove_eq("%s cached value, component %d" % (lab, i), fc[i], f[i])
    return f


def lv(cls, given):
    def fn():
        W = make_world()
        m = W.load("ormatex_py.progression.lotka_volterra")
        kw = {k: real(k) for k in P if k in given}
        s = call("constructor", getattr(m, cls), **kw)
        a, b, d, g = (kw.get(k, Sc.of(1)) for k in P)
        t, u = real("t"), state(2)
        f = jac_of(s, t, u, {}, cls)
        x, y = u
        hunt = Sc.of(0) if cls == "LotkaVolterra" else Sc.lit("0.4") * (lib.sin(t * Sc.lit("0.2")) + 1)
        CTX.prove_eq("prey equation", f[0], a * x - b * x * y)
        CTX.prove_eq("predator equation", f[1], d * x * y - g * y - hunt * y)
        L = call("fl", s.fl, t, lib.array(u)).dense()
        CTX.prove("linear part has the shape of the Jacobian", B.of(shape2(L) == (2, 2)))
        CTX.cover("system")
    return fn


def bateman(n):
    def fn():
        W = make_world()
        bs = W.load("ormatex_py.progression.bateman_sys")
        names = ["s%d" % i for i in range(n)]
        L = {names[i]: ((names[(i + 1) % n], real("a%d" % i)), ("none", real("b%d" % i))) if i else (names[1 % n], real("a0")) for i in range(n)}
        M = bs.gen_bateman_matrix(names, L)
        s = call("constructor", bs.TestBatemanSysJac, names, L)
        t, u = real("t"), state(n)
        f = jac_of(s, t, u, {}, "decay")
        for i in range(n):
            CTX.prove_eq("decay equation %d" % i, f[i], sum((M[i, j] * u[j] for j in range(n)), Sc.of(0)))
        D = call("fl", s.fl, t, lib.array(u)).dense()
        for i in range(n):
            for j in range(n):
                CTX.prove_eq("linear part", D[i, j], M[i, j])
        CTX.cover("system")
    return fn


def bateman_abstract():
    """any number of species: the system is linear in the decay matrix"""
    W = make_world()
    bs = W.load("ormatex_py.progression.bateman_sys")
    n = integer("n", 1)
    M = Arr.mat("M", n)
    W.replace(bs.gen_bateman_matrix, lambda k, l: M)
    s = call("constructor", bs.TestBatemanSysJac, None, None)
    t, u, v = real("t"), Arr.vec("u", n), Arr.vec("v", n)
    CTX.prove_eq("right-hand side", call("frhs", s.frhs, t, u), M @ u)
    op = call("fjac", s.fjac, t, u)
    CTX.prove_eq("Jacobian", call("dense", op.dense), M)
    CTX.prove_eq("Jacobian product", call("matvec", op.matvec, v), M @ v)
    CTX.prove_eq("time derivative", call("_fdt", op._fdt), Arr.zeros((n,)))
    CTX.prove_eq("cached value", call("_frhs_cached", op._frhs_cached), M @ u)
    CTX.prove_eq("linear part", call("fl", s.fl, t, u).dense(), M)
    CTX.cover("system")


def nonlinear():
    """decay, transmutation, fission and phase transfer of the nine-species system"""
    W = make_world()
    m = W.load("ormatex_py.progression.bateman_nonlin_sys")
    n = len(m.keymap)
    phi = real("flux")
    s = call("constructor", m.NonlinearBateman, n_phi=phi)
    t = real("t")
    a, g = m.keymap.index("xe_135_a"), m.keymap.index("xe_135_v")
    u = [pos("u%d" % i) for i in range(n)]
    f = call("frhs", s.frhs, t, lib.array(u))
    src = m.mxf_liq_vapor_bubble_ig(u[a], u[g], Sc.of(100), Sc.lit("0.05"), k=Sc.lit("1e-2"))
    for i in range(n):
        w = Sc.of(0)
        for j in range(n):
            w = w + (m.bateman_mat[i, j] + phi * m.transmute_mat[i, j]) * u[j]
        w = w + phi * m.fission_mat[i, i] + (src if i == a else -src if i == g else 0)
        CTX.prove_eq("equation of %s" % m.keymap[i], f[i], w)
    L = call("fl", s.fl, t, lib.array(u)).dense()
    CTX.prove("linear part has the shape of the Jacobian", B.of(shape2(L) == (n, n)))
    d = s_default = m.NonlinearBateman()
    fd = s_default.frhs(t, lib.array(u))
    i = a
    w = Sc.of(0)
    for j in range(n):
        w = w + (m.bateman_mat[i, j] + Sc.lit("1e9") * m.transmute_mat[i, j]) * u[j]
    CTX.prove_eq("default flux", fd[i], w + Sc.lit("1e9") * m.fission_mat[i, i] + src)
    CTX.cover("system")


def wrapper(column):
    def fn():
        W = make_world()
        ode = W.load("ormatex_py.ode_sys")
        n = integer("n", 1)
        s = abstract_system(W, n)
        w = call("constructor", ode.OdeSysNp, s)
        t, u, v = real("t"), Arr.vec("u", n), Arr.vec("v", n)
        x = u.reshape(n, 1) if column else u
        CTX.prove_eq("right-hand side of the inner system", call("frhs", w._frhs, t, x), s.frhs(t, u))
        J = call("fjac", w._fjac, t, x)
        CTX.prove_eq("Jacobian of the inner system", call("matvec", J.matvec, v), s.fjac(t, u).matvec(v))
        CTX.prove_eq("dense Jacobian of the inner system", call("dense", J.dense), s.fjac(t, u).dense())
        CTX.prove_eq("time derivative of the inner system", call("_fdt", J._fdt), s.fjac(t, u)._fdt())
        CTX.cover("wrapper")
    return fn


def tasks():
    T = []
    for cls in ("LotkaVolterra", "LotkaVolterraNonauto"):
        for given in (P, (), ("beta",), ("gamma", "delta")):
            T.append(Task("%s-%s" % (cls, "+".join(given) or "defaults"), lv(cls, given),
                          ["lotka_volterra.%s._frhs" % cls, "lotka_volterra.%s._fjac" % cls, "lotka_volterra.%s._fl" % cls], covers=["system"]))
    fb = ["bateman_sys.TestBatemanSysJac." + x for x in ("_frhs", "_fjac", "_fl")]
    for n in (1, 2, 4):
        T.append(Task("decay-%d" % n, bateman(n), fb, covers=["system"], bounded="chains of this length only"))
    T.append(Task("decay-any-size", bateman_abstract, fb, covers=["system"]))
    T.append(Task("nonlinear-decay", nonlinear, ["bateman_nonlin_sys.NonlinearBateman._frhs", "bateman_nonlin_sys.srcf_xe_av"], covers=["system"]))
    for c in (False, True):
        T.append(Task("wrapper-" + ("column" if c else "vector"), wrapper(c), ["ode_sys.OdeSysNp._frhs", "ode_sys.OdeSysNp._fjac"], covers=["wrapper"]))
    return T
