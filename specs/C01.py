"""C01: exponential Rosenbrock / EPI steps equal their published formulas."""
from .common import *

N = None


def setup(method, **kw):
    W = make_world()
    install_phi_contracts(W)
    ex = W.load("ormatex_py.ode_exp")
    n = integer("n", 1)
    t, dt = real("t"), step_size("dt")
    y = Arr.vec("y", n)
    s = abstract_system(W, n)
    KrylovCfg.m, KrylovCfg.iom = integer("mdim", 1), integer("iom", 1)
    PfdCfg.method = "ctbl"
    tol = real("tol_fdt")
    args = dict(max_krylov_dim=KrylovCfg.m, iom=KrylovCfg.iom, tol_fdt=tol, pfd_method="ctbl")
    args.update(kw)
    I = call("constructor", ex.ExpRBIntegrator, s, t, y, method=method, **args)
    return W, ex, s, I, n, t, dt, y, tol


def gate(tol, ft):
    """the time-derivative correction is required exactly when it is enabled and exceeds the tolerance"""
    return bool(cmp_("<=", 0, tol)) and bool(cmp_("<", tol, lin.norm(ft, "inf")))


def rosenbrock_stage(s, t, y, dt, c, tol, gated=True):
    """y + c dt phi1(c dt J) F + (c dt)^2 phi2(c dt J) F_t ; returns (stage, v)"""
    J, F, Ft = s.J(t, y), s.F(t, y), s.Ft(t, y)
    h = dt * c
    st = y + (phik(1, J * h) @ F) * h
    if not gated or gate(tol, Ft):
        return st + (phik(2, J * h) @ Ft) * (h * h), Ft
    return st, None


def remainder(s, t, y, tr, yr, v):
    r = s.F(tr, yr) - s.F(t, y) - s.J(t, y) @ (yr - y)
    return r if v is None else r - v * (tr - t)


def f_exprb2(s, t, y, dt, tol, gated=True):
    return rosenbrock_stage(s, t, y, dt, 1, tol, gated)[0]


def ungated(s, t, y, dt, tol):
    return f_exprb2(s, t, y, dt, tol, False)


def f_exprb3(s, t, y, dt, tol):
    J = s.J(t, y)
    y2, v = rosenbrock_stage(s, t, y, dt, 1, tol)
    r2 = remainder(s, t, y, t + dt, y2, v)
    return y2 + (phik(3, J * dt) @ r2) * (dt * 2)


def f_pexprb4(s, t, y, dt, tol):
    J = s.J(t, y)
    h = Q(1, 2)
    y2, v = rosenbrock_stage(s, t, y, dt, h, tol)
    y3, v3 = rosenbrock_stage(s, t, y, dt, 1, tol)
    r2 = remainder(s, t, y, t + dt * h, y2, v)
    r3 = remainder(s, t, y, t + dt, y3, v3)
    p3, p4 = phik(3, J * dt), phik(4, J * dt)
    return y3 + (p3 @ r2) * (16 * dt) - (p4 @ r2) * (48 * dt) - (p3 @ r3) * (2 * dt) + (p4 @ r3) * (12 * dt)


def f_epi3(s, t, y, tp, yp, dt):
    J, F, Ft = s.J(t, y), s.F(t, y), s.Ft(t, y)
    r = remainder(s, t, y, tp, yp, Ft)
    return y + (phik(1, J * dt) @ F) * dt + (phik(2, J * dt) @ r) * (dt * Q(2, 3)) + (phik(2, J * dt) @ Ft) * (dt * dt)


def finish(res, I, y, t, dt, want):
    CTX.prove_eq("new-time", res.t, t + dt)
    CTX.prove_eq("step-size", res.dt, dt)
    CTX.prove_eq("new-state = published formula", res.y, want)
    CTX.prove_eq("frame: stepping leaves the current state alone", I.y_hist[0], y)
    CTX.prove_eq("frame: stepping leaves the current time alone", I.t, t)
    CTX.cover("step")


def one_step(method, formula):
    def fn():
        lib.THREADS[0] = True
        W, ex, s, I, n, t, dt, y, tol = setup(method)
        kw = {}
        res = call("step", I.step, dt, frhs_kwargs=kw)
        CTX.prove("frame: stepping leaves the caller's options alone", B.of(kw == {}))
        finish(res, I, y, t, dt, formula(s, t, y, dt, tol))
    return fn


def later_steps(method, formula):
    """the formula is evaluated at the current point whatever happened before: a step that was
    not accepted, an accepted (arbitrary) result, a reset"""
    def fn():
        lib.THREADS[0] = False
        W, ex, s, I, n, t, dt, y, tol = setup(method)
        t1, y1, tr, yr = real("t1"), Arr.vec("y1", n), real("tr"), Arr.vec("yr", n)
        if method in GATED:
            # the correction is on at every point visited (the tasks of one step are about the threshold)
            CTX.assume(cmp_("<=", 0, tol))
            for a, b in ((t, y), (t1, y1), (tr, yr)):
                CTX.assume(cmp_("<", tol, lin.norm(s.Ft(a, b), "inf")))
        SR = W.load("ormatex_py.ode_sys").StepResult
        call("step", I.step, dt)                       # not accepted
        d1 = step_size("d1")
        finish(call("step", I.step, d1), I, y, t, d1, formula(s, t, y, d1, tol))
        call("accept", I.accept_step, SR(t1, d1, y1, Sc.of(-1)))
        if method != "epi3":
            finish(call("step", I.step, d1), I, y1, t1, d1, formula(s, t1, y1, d1, tol))
        call("reset", I.reset_ic, tr, yr)
        finish(call("step", I.step, d1), I, yr, tr, d1, formula(s, tr, yr, d1, tol))
    return fn


GATED = ("exprb2", "exprb3", "pexprb4", "exprb2_pfd", "epi3")


def exp_pfd():
    W, ex, s, I, n, t, dt, y, tol = setup("exp_pfd")
    res = call("step", I.step, dt)
    finish(res, I, y, t, dt, phik(0, s.J(t, y) * dt) @ y)


def epi3():
    W, ex, s, I, n, t, dt, y, tol = setup("epi3")
    # one accepted step of arbitrary size and result
    t1, y1 = real("t1"), Arr.vec("y1", n)
    SR = W.load("ormatex_py.ode_sys").StepResult
    call("accept", I.accept_step, SR(t1, t1 - t, y1, Sc.of(-1)))
    res = call("step", I.step, dt)
    finish(res, I, y1, t1, dt, f_epi3(s, t1, y1, t, y, dt))


def epi3_long():
    """after three accepted steps the two most recent states are the ones used"""
    W, ex, s, I, n, t, dt, y, tol = setup("epi3")
    SR = W.load("ormatex_py.ode_sys").StepResult
    ts, ys = [t], [y]
    for i in (1, 2, 3):
        ti, yi = real("t%d" % i), Arr.vec("y%d" % i, n)
        call("accept", I.accept_step, SR(ti, ti - ts[-1], yi, Sc.of(-1)))
        ts.append(ti)
        ys.append(yi)
    res = call("step", I.step, dt)
    finish(res, I, ys[3], ts[3], dt, f_epi3(s, ts[3], ys[3], ts[2], ys[2], dt))


def epi3_start():
    W, ex, s, I, n, t, dt, y, tol = setup("epi3")
    res = call("step", I.step, dt)
    finish(res, I, y, t, dt, f_exprb3(s, t, y, dt, tol))


def defaults():
    """the correction is enabled unless it was switched off, with threshold 1e-8"""
    W, ex, s, I, n, t, dt, y, tol = setup("exprb2", tol_fdt=Sc.lit("1e-8"))
    W2 = make_world()
    install_phi_contracts(W2)
    J = W2.load("ormatex_py.ode_exp").ExpRBIntegrator(s, t, y, method="exprb2")
    CTX.prove("default-threshold-detects-nonautonomous", cmp_("<=", 0, J.tol_fdt) & cmp_("<=", J.tol_fdt, Sc.lit("1e-6")))
    CTX.cover("step")


def tasks():
    F = "ode_exp.ExpRBIntegrator."
    rem = "ode_sys.IntegrateSys._remf"
    T = []
    T.append(Task("exprb2", one_step("exprb2", f_exprb2), [F + "_step_exprb2", F + "_phi2v_nonauto", F + "step"], covers=["step"]))
    T.append(Task("exprb3", one_step("exprb3", f_exprb3), [F + "_step_exprb3", rem], covers=["step"]))
    T.append(Task("pexprb4", one_step("pexprb4", f_pexprb4), [F + "_step_pexprb4"], covers=["step"]))
    T.append(Task("epi2", one_step("epi2", lambda s, t, y, dt, tol: f_exprb2(s, t, y, dt, tol, False)), [F + "_step_epi2"], covers=["step"]))
    T.append(Task("epi3", epi3, [F + "_step_epi3", F + "accept_step"], covers=["step"]))
    T.append(Task("epi3-after-many-steps", epi3_long, [F + "_step_epi3"], covers=["step"]))
    T.append(Task("epi3-start", epi3_start, [F + "step"], covers=["step"]))
    T.append(Task("exprb2_dense", one_step("exprb2_dense", lambda s, t, y, dt, tol: f_exprb2(s, t, y, dt, tol, False)),
                  [F + "_step_exprb2_dense", F + "_step_exprb2_jit"], covers=["step"]))
    T.append(Task("exprb2_pfd", one_step("exprb2_pfd", f_exprb2), [F + "_step_exprb2_pfd"], covers=["step"]))
    T.append(Task("exp_pfd", exp_pfd, [F + "_step_exp_pfd"], covers=["step"]))
    for m, f in (("exprb2", f_exprb2), ("exprb3", f_exprb3), ("pexprb4", f_pexprb4), ("exprb2_pfd", f_exprb2), ("epi3", f_exprb3),
                 ("epi2", ungated), ("exprb2_dense", ungated), ("exp_pfd", lambda s, t, y, dt, tol: phik(0, s.J(t, y) * dt) @ y)):
        T.append(Task("later-" + m, later_steps(m, f), [F + "step", F + "accept_step", F + "reset_ic"], covers=["step"]))
    T.append(Task("defaults", defaults, [F + "__init__"], covers=["step"]))
    return T
