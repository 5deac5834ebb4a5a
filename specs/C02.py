"""C02: exponential splitting steps equal their published formulas; cached phi matrices are never stale."""
from .common import *


def setup(method):
    W = make_world()
    install_phi_contracts(W)
    ex = W.load("ormatex_py.ode_exp")
    n = integer("n", 1)
    t, y = real("t"), Arr.vec("y", n)
    s = abstract_system(W, n, split=True)
    KrylovCfg.m, KrylovCfg.iom = integer("mdim", 1), integer("iom", 1)
    I = call("constructor", ex.ExpSplitIntegrator, s, t, y, method=method, max_krylov_dim=KrylovCfg.m, iom=KrylovCfg.iom)
    return W, s, I, n, t, y


def formula(method, s, t, y, dt, L):
    F = s.F(t, y)
    p = lambda k, c, v: phik(k, L * (dt * c)) @ v
    m = method.replace("_dense", "")

    def rem(c, yr):
        return s.F(t + dt * c, yr) - F - L @ (yr - y)
    if m == "exp1":
        return y + p(1, 1, F) * dt
    if m == "exp2":
        c2 = Sc.of(1) if method == "exp2" else Sc.of(Q(2, 3))
        r2 = rem(c2, y + p(1, c2, F) * (dt * c2))
        return y + p(1, 1, F) * dt + p(2, 1, r2) * (dt / c2)
    c2 = c3 = Sc.of(Q(2, 3))
    r2 = rem(c2, y + p(1, c2, F) * (dt * c2))
    r3 = rem(c3, y + p(1, c3, F) * (dt * c3) + p(2, c3, r2) * (dt * Q(4, 9) / c2))
    return y + p(1, 1, F) * dt + p(2, 1, r3) * (dt * Q(3, 2))


def check(I, res, s, method, t, y, dt, L, lab):
    CTX.prove_eq(lab + "new-time", res.t, t + dt)
    CTX.prove_eq(lab + "step-size", res.dt, dt)
    CTX.prove_eq(lab + "new-state = published formula", res.y, formula(method, s, t, y, dt, L))
    CTX.prove_eq(lab + "frame: state", I.y_hist[0], y)
    CTX.prove_eq(lab + "frame: time", I.t, t)
    CTX.cover("step")


def krylov(method):
    def fn():
        W, s, I, n, t, y = setup(method)
        dt = step_size("dt")
        res = call("step", I.step, dt)
        check(I, res, s, method, t, y, dt, s.L(t, y), "")
        # the operator follows the state
        call("accept", I.accept_step, res)
        d2 = step_size("dt2")
        r2 = call("step", I.step, d2)
        check(I, r2, s, method, res.t, res.y, d2, s.L(res.t, res.y), "second ")
    return fn


def dense(method, reset):
    """three steps of arbitrary sizes, the initial condition reset before step `reset`"""
    def fn():
        W, s, I, n, t, y = setup(method)
        built = None                # (size, operator) of the matrices allowed in this step
        SR = W.load("ormatex_py.ode_sys").StepResult
        for i in (1, 2, 3):
            if i == reset:
                t, y = real("tr"), Arr.vec("yr", n)
                call("reset", I.reset_ic, t, y)
                t = Sc.of(t)
                built = None
            dt = step_size("dt%d" % i)
            res = call("step", I.step, dt)
            if built is None or not bool(cmp_("==", built[0], dt)):
                built = (dt, s.L(t, y))
            check(I, res, s, method, t, y, dt, built[1], "step %d " % i)
            # accept an arbitrary result, as after a correction by the caller
            t, y = real("ta%d" % i), Arr.vec("ya%d" % i, n)
            call("accept", I.accept_step, SR(t, dt, y, Sc.of(-1)))
    return fn


def tasks():
    S = "ode_exp.ExpSplitIntegrator."
    T = []
    for m in ("exp1", "exp2", "exp3"):
        T.append(Task(m, krylov(m), [S + "_step_" + m, S + "_remf", S + "step"], covers=["step"]))
        for r in (0, 2, 3):
            T.append(Task(m + "_dense" + ("-reset-before-%d" % r if r else ""), dense(m + "_dense", r),
                          [S + "_step_%s_dense" % m, S + "_step_%s_jit" % m, S + "_update_dense_phiLs", S + "reset_ic", S + "accept_step"], covers=["step"]))
    return T
