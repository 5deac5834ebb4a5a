"""C04 on the real code: random accept / reject / reset histories."""
from .common import *

CL = {"ode_exp.ExpRBIntegrator": ["exprb2", "exprb3", "pexprb4", "epi2", "epi3", "exprb2_dense", "exprb2_pfd", "exp_pfd"],
      "ode_exp.ExpSplitIntegrator": ["exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense"],
      "ode_exp.ExpLejaIntegrator": ["epi2_leja_re", "epi2_leja_im", "epi3_leja_im"],
      "ode_explicit.RKIntegrator": ["rk4"]}
ORDER = {"epi3": 2, "epi3_leja_im": 2}


def compare(I, want, what):
    close(what + ": current time", I.t, want[0][0], 0, 0)
    close(what + ": time property", I.time, want[0][0], 0, 0)
    if I.state is None:
        raise Bad(what + ": the state property returns nothing")
    close(what + ": state property", I.state, want[0][1], 0, 0)
    m = I.y_hist.maxlen
    if m is not None:
        want = want[:m]
    require(what + ": history lengths", len(I.t_hist) == len(I.y_hist) == len(want), (len(I.t_hist), len(I.y_hist), len(want)))
    for (t, y), a, b in zip(want, I.t_hist, I.y_hist):
        close(what + ": time history", a, t, 0, 0)
        close(what + ": state history", b, y, 0, 0)


@contract("histories after accepts and resets", quick=3, thorough=30)
def c_hist(rng, case):
    ode = mod("ode_sys")
    s, _ = make_sys(rng, 3, split=True)
    for path, ms in CL.items():
        C = need(*path.split("."))
        for m in ms:
            t, y = float(rng.uniform()), rng.standard_normal(3)
            I = C(s, t, jnp.asarray(y), method=m)
            require("%s keeps the states its formula needs" % m, I.y_hist.maxlen is None or I.y_hist.maxlen >= ORDER.get(m, 1))
            want = [(t, y)]
            case.update(method=m)
            for k in range(int(rng.integers(2, 9))):
                if rng.uniform() < 0.2:
                    t, y = t if rng.uniform() < 0.4 else float(rng.uniform()), rng.standard_normal(3)
                    I.reset_ic(t, jnp.asarray(y))
                    want = [(t, y)]
                else:
                    # forwards, backwards, or back to a time that is still in the history
                    back = rng.uniform() < 0.3
                    t = want[int(rng.integers(0, min(len(want), 3)))][0] if back else t + float(rng.uniform(-0.4, 1))
                    y = rng.standard_normal(3)
                    I.accept_step(ode.StepResult(t, 0.1, jnp.asarray(y), -1.0))
                    want.insert(0, (t, y))
                compare(I, want, m)
            # a new start at the current time, after accepted steps
            for _ in range(2):
                y = rng.standard_normal(3)
                I.accept_step(ode.StepResult(t, 0.1, jnp.asarray(y), -1.0))
                want.insert(0, (t, y))
                compare(I, want, m + ", same time")
            if rng.uniform() < 0.5:
                I.reset_ic(I.t_hist[0], I.y_hist[0])
                compare(I, [(t, y)], m + ", reset to the current point")
            y = rng.standard_normal(3)
            I.reset_ic(t, jnp.asarray(y))
            compare(I, [(t, y)], m)


@contract("inherited history", quick=2, thorough=10)
def c_own(rng, case):
    """an integrator of the user's own, which relies on the accept_step it inherits"""
    ode = mod("ode_sys")

    class Own(ode.IntegrateSys):
        def step(self, dt):
            return ode.StepResult(self.t + dt, dt, self.state + dt * self.sys.frhs(self.t, self.state), -1.0)
    s, ref = make_sys(rng, 3)
    for order in (1, 2, 3, 4):
        t, y = float(rng.uniform()), rng.standard_normal(3)
        I = Own(s, t, jnp.asarray(y), order, "own")
        want = [(t, y)]
        compare(I, want, "own integrator")
        for k in range(6):
            d = 0.0 if rng.uniform() < 0.2 else float(rng.uniform(-0.2, 0.4))
            r = I.step(d)
            if rng.uniform() < 0.3:
                compare(I, want, "own integrator after a rejected step")
                continue
            I.accept_step(r)
            want.insert(0, (float(r.t), np.asarray(r.y)))
            compare(I, want, "own integrator")
        I.reset_ic(0.3, I.y_hist[0])
        compare(I, [(0.3, want[0][1])], "own integrator after reset")


@contract("reset and rejected steps leave no trace", quick=1, thorough=8)
def c_reset(rng, case):
    ode = mod("ode_sys")
    s, _ = make_sys(rng, 3, split=True, varying=True)
    for path, m in (("ode_exp.ExpRBIntegrator", "epi3"), ("ode_exp.ExpRBIntegrator", "exprb3"), ("ode_exp.ExpRBIntegrator", "exprb2_dense"),
                    ("ode_exp.ExpSplitIntegrator", "exp1_dense"), ("ode_exp.ExpSplitIntegrator", "exp2_dense"),
                    ("ode_exp.ExpSplitIntegrator", "exp3_dense"), ("ode_exp.ExpSplitIntegrator", "exp3"), ("ode_explicit.RKIntegrator", "rk4"),
                    ("ode_exp.ExpRBIntegrator", "exp_pfd"), ("ode_exp.ExpRBIntegrator", "epi2"), ("ode_exp.ExpRBIntegrator", "pexprb4")):
        C = need(*path.split("."))
        y0 = rng.standard_normal(3)
        case.update(method=m, y0=y0)
        I = C(s, 0.0, jnp.asarray(y0), method=m)
        hist = [(0.0, y0)]
        for dt, no in ((0.2, 0.17), (-0.12, 0.17), (0.3, -0.1), (0.3, 0.17)):
            I.step(no)              # rejected
            compare(I, hist, "%s after a rejected step of size %g" % (m, no))
            r = I.step(dt)
            compare(I, hist, "%s after a step of size %g that is not accepted yet" % (m, dt))
            K = C(s, hist[-1][0], jnp.asarray(hist[-1][1]), method=m)
            for t, y in reversed(hist[:-1]):
                K.accept_step(ode.StepResult(t, 0.1, jnp.asarray(y), -1.0))
            q = K.step(dt)
            if not m.endswith("_dense") or m.startswith("exprb"):
                close("%s after a rejected step" % m, r.y, q.y, 1e-10)
            I.accept_step(r)
            hist.insert(0, (float(r.t), np.asarray(r.y)))
        y1 = rng.standard_normal(3)
        I.reset_ic(0.6, jnp.asarray(y1))
        K = C(s, 0.6, jnp.asarray(y1), method=m)
        for dt in (0.3, 0.2, 0.2):
            a, b = I.step(dt), K.step(dt)
            close("%s step after reset" % m, a.y, b.y, 1e-10)
            close("%s time after reset" % m, a.t, b.t, 1e-13)
            I.accept_step(a)
            K.accept_step(b)
