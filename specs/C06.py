"""C06: Jacobian operators represent the derivative of the right-hand side."""
from .common import *

EPS = Sc.lit("0.5e-8")


def system(W, n, split=False):
    """an arbitrary differentiable F(t, u; p) with uninterpreted value and derivatives"""
    ode = W.load("ormatex_py.ode_sys")
    arg = lambda kw: [kw.get("p", Sc.sym("p_default"))]

    def F(t, u, p=None):
        return vec_app("F", n, t, u, Sc.sym("p_default") if p is None else p)

    def J(t, u, p=None):
        return mat_app("dFdu", n, t, u, Sc.sym("p_default") if p is None else p)

    def Ft(t, u, p=None):
        return vec_app("dFdt", n, t, u, Sc.sym("p_default") if p is None else p)

    base = ode.OdeSplitSys if split else ode.OdeSys

    class S(base):
        def __init__(self):
            super().__init__()

        def _frhs(self, t, u, **kw):
            if set(kw) - {"p"}:
                raise Unsupported("unexpected keyword arguments %s" % sorted(kw))
            return F(t, u, *arg(kw))

        def _fl(self, t, u, **kw):
            raise Unsupported("linear part")

        def __linearize__(self, t, u, **kw):
            used("jax.linearize")
            CTX.note("jax.linearize returns F and its directional derivative")
            a = arg(kw)
            f, j, ft = F(t, u, *a), J(t, u, *a), Ft(t, u, *a)
            return f, lambda tau, v: j @ v + ft * tau
    return ode, S(), F, J, Ft


def setup(split=False):
    W = make_world()
    n = integer("n", 1)
    ode, s, F, J, Ft = system(W, n, split)
    return W, ode, s, F, J, Ft, n, real("t"), Arr.vec("u", n), Arr.vec("v", n)


def same_matrix(lab, op, v, M, n):
    for nm in ("matvec", "__call__", "matvec_npcompat"):
        CTX.prove_eq(lab + nm + " = dF/du v", call(nm, getattr(op, nm), v), M @ v)
    w = Arr.vec("w", n)
    CTX.prove_eq(lab + "second product", call("matvec", op.matvec, w), M @ w)


def autodiff(via, kw):
    def fn():
        W, ode, s, F, J, Ft, n, t, u, v = setup(split=(via == "split"))
        a = {"p": real("p")} if kw else {}
        if via == "direct":
            op = call("constructor", ode.AdJacLinOp, t, u, s.frhs, frhs_kwargs=dict(a))
        else:
            op = call("fjac", s.fjac, t, u, **a)
        p = list(a.values())
        same_matrix("", op, v, J(t, u, *p), n)
        CTX.prove_eq("dense = dF/du", call("dense", op.dense), J(t, u, *p))
        CTX.prove_eq("time derivative = dF/dt", call("_fdt", op._fdt), Ft(t, u, *p))
        CTX.prove_eq("cached value = F", call("_frhs_cached", op._frhs_cached), F(t, u, *p))
        CTX.cover("op")
    return fn


def system_interface():
    W, ode, s, F, J, Ft, n, t, u, v = setup()
    p = real("p")
    CTX.prove_eq("frhs", call("frhs", s.frhs, t, u), F(t, u))
    CTX.prove_eq("frhs with keyword arguments", call("frhs", s.frhs, t, u, p=p), F(t, u, p))
    CTX.prove_eq("call", call("__call__", s, t, u), F(t, u))
    CTX.prove_eq("call with the diffrax argument", call("__call__", s, t, u, None), F(t, u))
    m = call("fm", s.fm, t, u)
    CTX.prove_eq("default mass operator is the identity", call("matvec", m.matvec, v), v)
    CTX.prove_eq("default mass matrix is the identity", call("dense", m.dense), Arr.eye(n))
    M = Arr.mat("mass", n)

    class Mass(ode.OdeSys):
        def _frhs(self, t, u, **kw):
            return u

        def _fm(self, t, u, q=Sc.of(1), **kw):
            return ode.MatrixLinOp(M * q * t)
    ms = Mass()
    CTX.prove_eq("own mass operator", call("matvec", call("fm", ms.fm, t, u).matvec, v), (M * t) @ v)
    CTX.prove_eq("own mass operator with keyword arguments", call("matvec", call("fm", ms.fm, t, u, q=p).matvec, v), (M * p * t) @ v)
    CTX.cover("op")


def custom(given_dt, kw, eps):
    def fn():
        W, ode, s, F, J, Ft, n, t, u, v = setup()
        a = {"p": real("p")} if kw else {}
        D = Arr.mat("given_jacobian", n)
        k = {}
        if kw:
            k["frhs_kwargs"] = dict(a)
        e = EPS
        if eps:
            e = pos("eps")
            k["eps"] = e
        d = Arr.vec("given_time_derivative", n)
        if given_dt:
            op = call("constructor", ode.CustomJacLinOp, t, u, s.frhs, D, d, **k)
        else:
            op = call("constructor", ode.CustomJacLinOp, t, u, s.frhs, D, **k)
        p = list(a.values())
        same_matrix("", op, v, D, n)
        CTX.prove_eq("dense is the given array", call("dense", op.dense), D)
        want = d if given_dt else (F(t + e, u, *p) - F(t, u, *p)) / e
        CTX.prove_eq("time derivative", call("_fdt", op._fdt), want)
        CTX.prove_eq("cached value = F", call("_frhs_cached", op._frhs_cached), F(t, u, *p))
        CTX.cover("op")
    return fn


def finite_difference(kw, opts):
    def fn():
        CTX.strict_div = True           # a vanishing divisor refutes an obligation
        W, ode, s, F, J, Ft, n, t, u, v = setup()
        a = {"p": real("p")} if kw else {}
        k = {}
        if kw:
            k["frhs_kwargs"] = dict(a)
        e, scale, gamma = EPS, Sc.of(1), Sc.of(0)
        if opts:
            e, scale, gamma = pos("eps"), real("scale"), real("gamma")
            k.update(eps=e, scale=scale, gamma=gamma)
        op = call("constructor", ode.FdJacLinOp, t, u, s.frhs, **k)
        p = list(a.values())
        f0 = F(t, u, *p)
        size = lin.norm(u, 1)
        got = call("matvec", op.matvec, v)
        if bool(cmp_("<", 0, size)):
            h = e * size
            CTX.cover("nonzero state")
        else:
            h = e
            CTX.cover("zero state")
        want = (F(t, u + v * h, *p) - f0) * (scale / h) + v * gamma
        CTX.prove_eq("product = scaled forward difference + shift", got, want)
        CTX.prove_eq("call = matvec", call("__call__", op, v), want)
        CTX.prove_eq("time derivative = forward difference", call("_fdt", op._fdt), (F(t + e, u, *p) - f0) / e)
        CTX.prove_eq("cached value = F", call("_frhs_cached", op._frhs_cached), f0)
        sh = call("shape", lambda: op.shape)
        CTX.prove_eq("shape", tuple(Sc.of(x) for x in sh), (n, n))
        CTX.cover("op")
    return fn


def tasks():
    o = "ode_sys."
    ad = [o + "AdJacLinOp." + x for x in ("__init__", "_matvec", "_fdt", "_frhs_cached", "_dense")] + [o + "OdeSys._fjac", o + "OdeSys.fjac"]
    cj = [o + "CustomJacLinOp." + x for x in ("__init__", "_matvec", "_fdt", "_frhs_cached", "_dense")]
    fd = [o + "FdJacLinOp." + x for x in ("__init__", "_matvec", "_fdt", "_frhs_cached", "shape")]
    T = [Task("system-interface", system_interface, [o + "OdeSys.frhs", o + "OdeSys.__call__", o + "OdeSys.fm"], covers=["op"])]
    for via in ("direct", "fjac", "split"):
        for kw in (False, True):
            T.append(Task("autodiff-%s%s" % (via, "-kwargs" if kw else ""), autodiff(via, kw), ad, covers=["op"]))
    for g in (False, True):
        for kw in (False, True):
            for e in (False, True):
                T.append(Task("custom%s%s%s" % ("-dt" if g else "", "-kwargs" if kw else "", "-eps" if e else ""), custom(g, kw, e), cj, covers=["op"]))
    for kw in (False, True):
        for e in (False, True):
            T.append(Task("finite-difference%s%s" % ("-kwargs" if kw else "", "-options" if e else ""), finite_difference(kw, e), fd,
                          covers=["op", "nonzero state", "zero state"]))
    return T
