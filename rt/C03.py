"""C03 on the real code."""
from .common import *


@contract("rk4 steps", quick=4, thorough=20)
def c_rk4(rng, case):
    C = need("ode_explicit", "RKIntegrator")
    n = int(rng.integers(1, 6))
    s, ref = make_sys(rng, n)
    t, y = float(rng.uniform(-1, 1)), rng.standard_normal(n)
    case.update(n=n, t=t, y=y)
    I = C(s, t, jnp.asarray(y), method="rk4")
    F = ref["F"]
    for k, dt in enumerate(rng.uniform(-0.5, 0.8, 5)):
        dt = float(dt)
        if k in (1, 3):
            I.step(0.5 * dt)                 # not accepted
        if k >= 3:
            if k == 4:
                t = float(rng.uniform(-1, 1))
            else:                            # the same time and step size as before from another state
                I.step(dt)
            y = rng.standard_normal(n)
            I.reset_ic(t, jnp.asarray(y))
        r = I.step(dt)
        k1 = F(t, y)
        k2 = F(t + dt / 2, y + dt / 2 * k1)
        k3 = F(t + dt / 2, y + dt / 2 * k2)
        k4 = F(t + dt, y + dt * k3)
        close("rk4 step %g" % dt, r.y, y + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4), 1e-11, 1e-12)
        close("rk4 time", r.t, t + dt, 1e-14, 1e-14)
        I.accept_step(r)
        close("accepted time", I.t, r.t, 0, 0)
        t, y = float(r.t), np.asarray(r.y)


@contract("unknown method rejected", quick=1, thorough=1)
def c_bad(rng, case):
    C = need("ode_explicit", "RKIntegrator")
    s, _ = make_sys(rng, 2)
    try:
        C(s, 0.0, jnp.ones(2), method="rk5")
    except AttributeError:
        return
    raise Bad("RKIntegrator accepts method rk5")
