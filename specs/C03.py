"""C03: the explicit Runge-Kutta step is the classical fourth-order formula."""
from .common import *


def rk4():
    W = make_world()
    m = W.load("ormatex_py.ode_explicit")
    n = integer("n", 1)
    t, dt, y = real("t"), step_size("dt"), Arr.vec("y", n)
    s = abstract_system(W, n)
    I = call("constructor", m.RKIntegrator, s, t, y, method="rk4")
    for i in (1, 2, 3, 4):
        if i > 1:
            call("step", I.step, step_size("drej%d" % i))      # not accepted: leaves no trace
        if i == 4:
            t, y = Sc.of(real("tr")), Arr.vec("yr", n)
            call("reset", I.reset_ic, t, y)
        res = call("step", I.step, dt)
        h = dt / 2
        k1 = s.F(t, y)
        k2 = s.F(t + h, y + k1 * h)
        k3 = s.F(t + h, y + k2 * h)
        k4 = s.F(t + dt, y + k3 * dt)
        CTX.prove_eq("new-time", res.t, t + dt)
        CTX.prove_eq("step-size", res.dt, dt)
        CTX.prove_eq("new-state = classical RK4", res.y, y + (k1 + k2 * 2 + k3 * 2 + k4) * (dt / 6))
        CTX.prove_eq("frame: state", I.y_hist[0], y)
        call("accept", I.accept_step, res)
        CTX.prove_eq("accepted time", I.t, t + dt)
        CTX.prove_eq("accepted state", I.y_hist[0], res.y)
        t, y, dt = res.t, res.y, step_size("dt%d" % i)
        CTX.cover("step")


def invalid():
    W = make_world()
    m = W.load("ormatex_py.ode_explicit")
    n = integer("n", 1)
    try:
        m.RKIntegrator(abstract_system(W, n), real("t"), Arr.vec("y", n), method="rk5")
        ok = False
    except AttributeError:
        ok = True
    CTX.prove("unknown method name is rejected", B.of(ok))
    CTX.cover("step")


def tasks():
    R = "ode_explicit.RKIntegrator."
    return [Task("rk4", rk4, [R + "__init__", R + "step", R + "_step_rk4", R + "_step_rk4_jit", R + "accept_step"], covers=["step"]),
            Task("invalid-method", invalid, [R + "__init__"], covers=["step"])]
