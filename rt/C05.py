"""C05 on the real code: the driver against stepping by hand."""
from .common import *

CL = {"ode_exp.ExpRBIntegrator": ["exprb2", "exprb3", "pexprb4", "epi2", "epi3", "exprb2_dense", "exprb2_pfd", "exp_pfd"],
      "ode_exp.ExpSplitIntegrator": ["exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense"],
      "ode_explicit.RKIntegrator": ["rk4"]}


@contract("driver equals stepping by hand", quick=1, thorough=6)
def c_drive(rng, case):
    integrate = need("integrate_wrapper", "integrate")
    s, _ = make_sys(rng, 3, split=True)
    t0, dt = float(rng.uniform(0.2, 2)), float(rng.uniform(0.05, 0.2)) * (1 if rng.uniform() < 0.5 else -1)
    y0 = jnp.asarray(rng.standard_normal(3))
    for path, ms in CL.items():
        C = need(*path.split("."))
        for m in ms:
            ns = int(rng.integers(0, 5))
            case.update(method=m, t0=t0, dt=dt, nsteps=ns)
            log = []
            kw = {}
            if rng.uniform() < 0.7:
                kw["callback_before_step"] = lambda sy, t, y: (log.append(("b", float(t), np.asarray(y))), {})[1]
            if rng.uniform() < 0.7:
                kw["callback_after_step_accept"] = lambda sy, t, y: (log.append(("a", float(t), np.asarray(y))), len(log))[1]
            r = integrate(s, y0, t0, dt, ns, m, **kw)
            I = C(s, t0, y0, method=m)
            ts, ys = [t0], [np.asarray(y0)]
            for _ in range(ns):
                q = I.step(dt)
                I.accept_step(q)
                ts.append(float(q.t))
                ys.append(np.asarray(q.y))
            require("%s: nsteps+1 times and states" % m, len(r.t_res) == len(r.y_res) == ns + 1, (len(r.t_res), len(r.y_res), ns))
            close("%s times" % m, np.array([float(t) for t in r.t_res]), np.array(ts), 1e-13)
            close("%s states" % m, np.array([np.asarray(y) for y in r.y_res]), np.array(ys), 1e-10)
            close("%s final time" % m, r.t_res[-1], t0 + ns * dt, 1e-12)
            b = [x for x in log if x[0] == "b"]
            a = [x for x in log if x[0] == "a"]
            if "callback_before_step" in kw:
                require("one before-step callback per step", len(b) == ns and len(r.cb["callback_before_step"]) == ns, (len(b), ns))
                for i, x in enumerate(b):
                    close("before-step callback time", x[1], ts[i], 1e-13)
                    close("before-step callback state", x[2], ys[i], 1e-10)
            if "callback_after_step_accept" in kw:
                require("one after-accept callback per step", len(a) == ns and len(r.cb["callback_after_step_accept"]) == ns, (len(a), ns))
                for i, x in enumerate(a):
                    close("after-accept callback time", x[1], ts[i + 1], 1e-13)
                    close("after-accept callback state", x[2], ys[i + 1], 1e-10)


@contract("callback order, arguments and hand-over", quick=6, thorough=6)
def c_cb(rng, case):
    drive = need("integrate_wrapper", "integrate_ormatex")
    SR = need("ode_sys", "StepResult")
    ev = []

    class I:
        sys = "the system"
        t = 1.0
        y = np.zeros(2)

        def step(self, dt, **kw):
            ev.append(("step", dt, kw))
            return SR(self.t + dt, dt, self.y + 1, -1.0)

        def accept_step(self, s):
            ev.append(("accept", s.t))
            self.t, self.y = s.t, s.y
    ns = int(rng.integers(1, 5))
    case.update(nsteps=ns)
    it = I()
    h = float(rng.choice([0.5, -0.5, 0.25]))
    case.update(dt=h)
    out = drive(it, np.zeros(2), 1.0, h, ns, callback_before_step=lambda s, t, y: (ev.append(("before", s, t, y[0])), {"k": len(ev)})[1],
                callback_after_step_accept=lambda s, t, y: (ev.append(("after", s, t, y[0])), len(ev))[1])
    require("event order", [e[0] for e in ev] == ["before", "step", "accept", "after"] * ns, [e[0] for e in ev])
    t, y, cb = out
    require("event count", len(ev) == 4 * ns, len(ev))
    close("times", t, [1.0 + h * i for i in range(ns + 1)], 1e-14)
    for i in range(ns):
        b, st, ac, af = ev[4 * i:4 * i + 4]
        require("before-step arguments", b[1:] == ("the system", 1.0 + h * i, float(i)), b)
        require("callback result handed to the step", st[2].get("frhs_kwargs") is cb["callback_before_step"][i], st)
        require("after-accept arguments", af[1:] == ("the system", 1.0 + h * (i + 1), float(i + 1)), af)
        require("after-accept results", cb["callback_after_step_accept"][i] == 4 * i + 4, cb)


@contract("diffrax methods end at t0 + nsteps dt", quick=1, thorough=4)
def c_diffrax(rng, case):
    integrate = need("integrate_wrapper", "integrate")
    ode = mod("ode_sys")
    lam = -0.7

    class S(ode.OdeSys):
        def _frhs(self, t, u, **kw):
            return lam * u
    s = S()
    t0, dt, ns = float(rng.uniform(0.3, 1.5)), 0.1 * float(rng.choice([-1, 1])), int(rng.integers(2, 6))
    # nsteps*dt added to the start rounds up for some of these
    for a, b, k in ((0.3, 0.1, 3), (t0, dt, ns), (1.2144906330453729, 0.1, 4), (-2.7, 0.3, 9)):
        case.update(method="heun", t0=a, dt=b, nsteps=k)
        r = integrate(s, jnp.ones(1), a, b, k, "heun")
        close("heun times", np.asarray(r.t_res), a + b * np.arange(k + 1), 1e-12)
        close("heun states", np.asarray(r.y_res)[:, 0], (1 + lam * b + (lam * b) ** 2 / 2) ** np.arange(k + 1), 1e-9)
    case.update(dt=dt)
    z = lam * dt
    amp = {"euler": 1 + z, "heun": 1 + z + z * z / 2, "midpoint": 1 + z + z * z / 2, "implicit_euler": 1 / (1 - z),
           "bosh3": 1 + z + z ** 2 / 2 + z ** 3 / 6, "dopri5": np.exp(z), "implicit_esdirk3": np.exp(z), "implicit_esdirk4": np.exp(z)}
    for m, g in amp.items():
        case.update(method=m, t0=t0, nsteps=ns)
        r = integrate(s, jnp.ones(1), t0, dt, ns, m)
        close("%s times" % m, np.asarray(r.t_res), t0 + dt * np.arange(ns + 1), 1e-9)
        close("%s states" % m, np.asarray(r.y_res)[:, 0], g ** np.arange(ns + 1), 2e-5 if m in ("implicit_esdirk3", "implicit_esdirk4") else 1e-6)


@contract("unknown method raises AttributeError", quick=1, thorough=1)
def c_bad(rng, case):
    integrate = need("integrate_wrapper", "integrate")
    s, _ = make_sys(rng, 2)
    for m in ("nope", "exprb9", "", "rk4 ", " rk4", "RK4", "Exprb2", "exprb2\n", "epi", "euler ", "Euler", "exprb2_pfd_x", "exp", "_rs"):
        try:
            integrate(s, jnp.ones(2), 0.0, 0.1, 1, m)
        except AttributeError:
            continue
        raise Bad("method %r accepted" % m)


@contract("callbacks that return nothing to hand over", quick=4, thorough=12)
def c_empty(rng, case):
    drive, SR = need("integrate_wrapper", "integrate_ormatex"), need("ode_sys", "StepResult")
    got = []

    class I:
        sys, t, y = None, 0.0, np.zeros(1)

        def step(self, dt, **kw):
            got.append(kw.get("frhs_kwargs", "nothing"))
            return SR(self.t + dt, dt, self.y, -1.0)

        def accept_step(self, s):
            self.t = s.t
    ns = int(rng.integers(2, 7))
    given = [{} if rng.uniform() < 0.5 else {"a": i} for i in range(ns)]
    if rng.uniform() < 0.5:
        given[0] = {"a": 0}
    it, todo = I(), list(given)
    case.update(given=given)
    drive(it, np.zeros(1), 0.0, 0.1, ns, callback_before_step=lambda s, t, y: todo.pop(0))
    require("every step gets the callback's result of that step", got == given, got)


@contract("one integrator, several runs", quick=2, thorough=8)
def c_runs(rng, case):
    drive, SR = need("integrate_wrapper", "integrate_ormatex"), need("ode_sys", "StepResult")

    class I:
        sys, t, y = None, 0.0, np.zeros(1)

        def step(self, dt, **kw):
            return SR(self.t + dt, dt, self.y + dt, -1.0)

        def accept_step(self, s):
            self.t, self.y = s.t, s.y
    it, keep = I(), []
    for r in range(3):
        ns, h = int(rng.integers(0, 12)), float(rng.choice([-0.5, 0.25]))
        t0, y0 = it.t, it.y
        case.update(run=r, nsteps=ns, dt=h)
        t, y, cb = drive(it, y0, t0, h, ns)
        keep.append((t, y, t0 + h * np.arange(ns + 1), y0 + h * np.arange(ns + 1)[:, None]))
        for a, b, wt, wy in keep:
            require("as many times and states as steps plus one", len(a) == len(b) == len(wt), (len(a), len(b), len(wt)))
            close("times", np.array(a), wt, 1e-13)
            close("states", np.array([np.asarray(v) for v in b]), wy, 1e-13)
