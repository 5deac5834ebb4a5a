"""C05: the integrate driver."""
from .common import *

Tf = lambda i: Sc.app("T", Sc.of(i))


class Ghost:
    """abstract integrator: step i (from the state after i accepted steps) returns (T(i+1), Y(i+1))"""

    def __init__(self, n, sysobj, t0, y0, dt, before):
        self.sys, self.n, self.dt = sysobj, n, dt
        self.t0, self.y0 = t0, y0
        self.i = Sc.of(0)
        self.pending = None
        self.before = before
        self.cb_before = Sc.of(0)
        self.cb_after = Sc.of(0)

    def T(self, i):
        i = Sc.of(i)
        return Sc.of(self.t0) if bool(cmp_("==", i, 0)) else Tf(i)

    def Y(self, i):
        i = Sc.of(i)
        return self.y0 if bool(cmp_("==", i, 0)) else vec_app("Y", self.n, i)

    def step(self, dt, **kw):
        CTX.prove_eq("step is asked for the given step size", dt, self.dt)
        if self.before:
            CTX.prove("the result of the before-step callback is handed to the step", B.of(set(kw) == {"frhs_kwargs"} and isinstance(kw["frhs_kwargs"], Tok) and kw["frhs_kwargs"].kind == "before"))
            if isinstance(kw.get("frhs_kwargs"), Tok):
                CTX.prove_eq("the handed callback result is this step's", kw["frhs_kwargs"].i, self.i)
        CTX.prove("no step while one is pending", B.of(self.pending is None))
        self.pending = SRc[0](Tf(self.i + 1), dt, vec_app("Y", self.n, self.i + 1), Sc.of(-1))
        CTX.cover("step")
        return self.pending

    def accept_step(self, s):
        CTX.prove("the accepted step is the one just computed", B.of(s is self.pending or (self.pending is not None and getattr(s, "y", None) is self.pending.y and getattr(s, "t", None) is self.pending.t)))
        self.pending = None
        self.i = self.i + 1


SRc = [None]


class Tok:
    def __init__(self, kind, i):
        self.kind, self.i = kind, i

    def key(self):
        return (self.kind, self.i.key())


def driver(before, after):
    def fn():
        W = make_world()
        iw = W.load("ormatex_py.integrate_wrapper")
        SRc[0] = W.load("ormatex_py.ode_sys").StepResult
        n, ns = integer("n", 1), integer("nsteps", 0)
        t0, dt, y0 = real("t0"), step_size("dt"), Arr.vec("y0", n)
        s = abstract_system(W, n)
        G = Ghost(n, s, t0, y0, dt, before)

        def cb(kind):
            def f(sy, t, y):
                i = G.i
                CTX.prove("callback gets the system", B.of(sy is s))
                CTX.prove_eq(kind + " callback gets the current time", t, G.T(i))
                CTX.prove_eq(kind + " callback gets the current state", y, G.Y(i))
                if kind == "before":
                    CTX.prove_eq("one before-step call per step", G.cb_before, i)
                    CTX.prove("before-step call precedes the step", B.of(G.pending is None))
                    G.cb_before = G.cb_before + 1
                else:
                    CTX.prove_eq("one after-accept call per step", G.cb_after + 1, i)
                    CTX.prove("after-accept call follows acceptance", B.of(G.pending is None))
                    G.cb_after = G.cb_after + 1
                CTX.cover("callback-" + kind)
                return Tok(kind, i)
            return f

        class Con:
            """roles of the loop's lists are recognised by their contents on entry"""

            span = (0, ns)
            tracked = (G.T, G.Y)

            def __init__(self, loc):
                self.ts = [v for v in loc.values() if isinstance(v, load.SymList) and len(v) == 1 and terms._scalarish(list.__getitem__(v, 0)) and Sc.of(list.__getitem__(v, 0)).key() == t0.key()]
                self.ys = [v for v in loc.values() if isinstance(v, load.SymList) and len(v) == 1 and list.__getitem__(v, 0) is y0]
                d = [v for v in loc.values() if isinstance(v, dict) and isinstance(v.get("callback_before_step"), load.SymList)
                     and isinstance(v.get("callback_after_step_accept"), load.SymList)]
                self.d = d[0] if d else None
                if len(self.ts) != 1 or len(self.ys) != 1 or self.d is None:
                    raise Unsupported("driver loop state not recognised")
                self.b, self.a = self.d["callback_before_step"], self.d["callback_after_step_accept"]

            def lists(self):
                return [(self.ts[0], G.T, 1, "times"), (self.ys[0], G.Y, 1, "states"),
                        (self.b, lambda j: Tok("before", Sc.of(j)), 0, "before results"),
                        (self.a, lambda j: Tok("after", Sc.of(j) + 1), 0, "after results")]

            def check(self, loc, i, lab):
                CTX.prove_eq("loop %s: steps accepted" % lab, G.i, i)
                for (l, f, off, nm) in self.lists():
                    length = i + 1 if off else (i if (nm[0] == "b" and before) or (nm[0] == "a" and after) else Sc.of(0))
                    CTX.prove_eq("loop %s: number of %s" % (lab, nm), l.length(), length)
                    k0 = l.n if l.n is not None else Sc.of(0)
                    for k in range(list.__len__(l)):
                        same_entry("loop %s: %s entry" % (lab, nm), list.__getitem__(l, k), f(k0 + k))
                if before:
                    CTX.prove_eq("loop %s: before-step calls" % lab, G.cb_before, i)
                if after:
                    CTX.prove_eq("loop %s: after-accept calls" % lab, G.cb_after, i)

            def havoc(self, loc, i):
                G.i = Sc.of(i)
                G.pending = None
                G.cb_before, G.cb_after = (Sc.of(i) if before else Sc.of(0)), (Sc.of(i) if after else Sc.of(0))
                for (l, f, off, nm) in self.lists():
                    length = Sc.of(i) + 1 if off else (Sc.of(i) if (nm[0] == "b" and before) or (nm[0] == "a" and after) else Sc.of(0))
                    l.havoc(length, f)
                return {}

        def rule(key, kind, it, loc):
            if key.endswith("integrate_ormatex") and (kind == "while" or isinstance(it, load.SymRange)):
                return Con(loc)
            return None
        load.LOOP_CONTRACTS[:] = [rule]
        kw = {}
        if before:
            kw["callback_before_step"] = cb("before")
        if after:
            kw["callback_after_step_accept"] = cb("after")
        t, y, c = call("integrate_ormatex", iw.integrate_ormatex, G, y0, t0, dt, ns, method="m", **kw)
        CTX.prove_eq("nsteps+1 times", load.o_len(t), ns + 1)
        CTX.prove_eq("nsteps+1 states", load.o_len(y), ns + 1)
        j = integer("j", 0)
        CTX.assume(cmp_("<=", j, ns))
        CTX.prove_eq("time j is the time after j steps", t.at(j), G.T(j))
        CTX.prove_eq("state j is the state after j steps", y.at(j), G.Y(j))
        CTX.prove_eq("first time", t.at(0), t0)
        CTX.prove_eq("first state", y.at(0), y0)
        for nm, on, kind in (("callback_before_step", before, "before"), ("callback_after_step_accept", after, "after")):
            CTX.prove_eq("number of %s results" % kind, load.o_len(c[nm]), ns if on else 0)
            if on:
                k = integer("k", 0)
                CTX.assume(cmp_("<", k, ns))
                same_entry("%s result k" % kind, c[nm].at(k), Tok(kind, k + (1 if kind == "after" else 0)))
        CTX.prove_eq("exactly nsteps steps are accepted", G.i, ns)
        CTX.cover("end")
    return fn


def same_entry(nm, a, b):
    if isinstance(b, Tok):
        CTX.prove(nm + " kind", B.of(isinstance(a, Tok) and a.kind == b.kind))
        if isinstance(a, Tok):
            CTX.prove_eq(nm + " step", a.i, b.i)
    else:
        CTX.prove_eq(nm, a, b)


METHODS = {
    "ExpRBIntegrator": ["exprb2", "exprb3", "pexprb4", "epi2", "epi3", "exprb2_dense", "exprb2_pfd", "exp_pfd"],
    "ExpSplitIntegrator": ["exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense"],
    "ExpLejaIntegrator": ["epi2_leja_re", "epi2_leja_im", "epi3_leja_im"],
    "RKIntegrator": ["rk4"],
}


class Recorded:
    def __init__(self, v):
        self.v = v

    def block_until_ready(self):
        return self


def dispatch(cls, method):
    def fn():
        W = make_world()
        iw = W.load("ormatex_py.integrate_wrapper")
        n, ns = integer("n", 1), integer("nsteps", 0)
        t0, dt, y0 = real("t0"), step_size("dt"), Arr.vec("y0", n)
        s = abstract_system(W, n, split=True)
        seen = {}
        ts, ys, cb = object(), [Recorded(0), Recorded(1)], object()
        mdim, iom, tol = integer("mdim", 1), integer("iom", 1), real("tolfdt")

        def c_drive(sys_int, y, t, d, m, method="?", **kw):
            used("integrate_ormatex")
            seen.update(I=sys_int, y=y, t=t, d=d, m=m, kw=kw)
            return ts, ys, cb
        W.replace(iw.integrate_ormatex, c_drive)
        ex = W.load("ormatex_py.ode_exp")
        ml = W.load("ormatex_py.matexp_leja")
        if hasattr(ex, "gen_leja_fast"):
            ex.gen_leja_fast = lambda **k: Arr.vec("leja_points", Sc.sym("nleja", "I", pos=True))
        f1, f2 = (lambda *a: {}), (lambda *a: None)
        kw = dict(max_krylov_dim=mdim, iom=iom, tol_fdt=tol, pfd_method="cram_16", leja_tol=real("ltol"), callback_before_step=f1, callback_after_step_accept=f2)
        R = call("integrate", iw.integrate, s, y0, t0, dt, ns, method, **kw)
        I = seen["I"]
        C = getattr(W.load("ormatex_py.ode_explicit") if cls == "RKIntegrator" else ex, cls)
        CTX.prove("integrator class", B.of(type(I) is C))
        CTX.prove("method name passed on", B.of(I.method == method))
        CTX.prove("system passed on", B.of(I.sys is s))
        CTX.prove_eq("start time", I.t, t0)
        CTX.prove_eq("start state", I.y_hist[0], y0)
        CTX.prove_eq("driver start state", seen["y"], y0)
        CTX.prove_eq("driver start time", seen["t"], t0)
        CTX.prove_eq("driver step size", seen["d"], dt)
        CTX.prove_eq("driver number of steps", seen["m"], ns)
        CTX.prove("callbacks passed on", B.of(seen["kw"].get("callback_before_step") is f1 and seen["kw"].get("callback_after_step_accept") is f2))
        if cls in ("ExpRBIntegrator", "ExpSplitIntegrator"):
            CTX.prove_eq("Krylov dimension option honoured", I.max_krylov_dim, mdim)
            CTX.prove_eq("orthogonalisation depth option honoured", I.iom, iom)
        if cls == "ExpRBIntegrator":
            CTX.prove_eq("threshold option honoured", I.tol_fdt, tol)
        if cls == "ExpLejaIntegrator":
            CTX.prove_eq("Leja tolerance option honoured", I.leja_tol, kw["leja_tol"])
        CTX.prove("result carries the driver's times", B.of(R.t_res is ts and R.t is ts))
        CTX.prove("result carries the driver's states", B.of(R.y_res is ys and R.y is ys))
        CTX.prove("result carries the callback results", B.of(R.cb is cb))
        CTX.cover("end")
    return fn


DIFFRAX = {"euler": "Euler", "heun": "Heun", "midpoint": "Midpoint", "bosh3": "Bosh3", "dopri5": "Dopri5",
           "implicit_euler": "ImplicitEuler", "implicit_esdirk3": "Kvaerno3", "implicit_esdirk4": "Kvaerno4"}


def diffrax_dispatch(method):
    def fn():
        W = make_world()
        n, ns = integer("n", 1), integer("nsteps", 1)
        t0, dt, y0 = real("t0"), step_size("dt"), Arr.vec("y0", n)
        seen = {}
        implicit = method.startswith("implicit")

        class Res:
            ts = Arr.vec("ts", ns)
            ys = Arr.mat("ys", ns, n)

        def solve(term, solver, a, b, h, y, saveat=None, stepsize_controller=None, max_steps=None, **k):
            seen.update(term=term, solver=solver, a=a, b=b, h=h, y=y, saveat=saveat, ctrl=stepsize_controller, max_steps=max_steps)
            return Res

        def mk(nm):
            def c(*a, **k):
                if k and not nm.startswith(("Implicit", "Kvaerno")):
                    raise TypeError("explicit solver takes no root finder")
                return ("solver", nm)
            return c
        d = W.libs["diffrax"]
        for nm in DIFFRAX.values():
            setattr(d, nm, mk(nm))
        d.ODETerm = lambda f: ("term", f)
        d.ConstantStepSize = lambda **k: "const"
        d.StepTo = lambda ts: ("points", ts)
        d.SaveAt = lambda **k: ("save", k)
        d.diffeqsolve = solve
        W.libs["lineax"].GMRES = lambda **k: "gmres"
        W.libs["lineax"].QR = lambda **k: "qr"
        W.libs["optimistix"].Newton = lambda **k: "newton"
        W.libs["optimistix"].max_norm = "maxnorm"
        iw = W.load("ormatex_py.integrate_wrapper")
        s = abstract_system(W, n)
        t, y = call("integrate_diffrax", iw.integrate_diffrax, s, y0, t0, dt, ns, method=method)
        CTX.note("diffrax.diffeqsolve with StepTo(ts) and SaveAt(steps=True) steps through the points ts and returns the states after each of them; "
                 "ConstantStepSize takes ceil((t1-t0)/dt0) steps in machine arithmetic, which can be nsteps+1")
        CTX.prove("solver class", B.of(seen["solver"] == ("solver", DIFFRAX[method])))
        CTX.prove("the term is the system", B.of(seen["term"] == ("term", s)))
        CTX.prove_eq("start time", seen["a"], t0)
        CTX.prove_eq("end time is t0 + nsteps dt", seen["b"], t0 + dt * ns)
        CTX.prove_eq("start state", seen["y"], y0)
        ctrl = seen["ctrl"]
        CTX.prove("the number of steps does not depend on the rounding of the end time", B.of(isinstance(ctrl, tuple) and ctrl[0] == "points"))
        if isinstance(ctrl, tuple):
            CTX.prove("no free step size", B.of(seen["h"] is None))
            CTX.prove_eq("number of prescribed points", load.o_len(ctrl[1]), ns + 1)
            i = Sc.fresh("i", "I", nonneg=True)
            CTX.assume(cmp_("<=", i, ns))
            CTX.prove_eq("prescribed point i is t0 + i dt", ctrl[1][i], t0 + dt * i)
        CTX.prove("every step is saved", B.of(seen["saveat"] == ("save", {"steps": True})))
        CTX.prove("room for all steps", B.of(seen["max_steps"] is None) if seen["max_steps"] is None else cmp_("<=", ns, seen["max_steps"]))
        CTX.prove_eq("result times: number", load.o_len(t), ns + 1)
        CTX.prove_eq("result times: first", t[0:1], lib.earr([t0]))
        CTX.prove_eq("result times: rest", t[1:], Res.ts)
        CTX.prove_eq("result states: first", y[0:1, :], lin.vcat([y0]))
        CTX.prove_eq("result states: rest", y[1:, :], Res.ys)
        CTX.cover("end")
    return fn


def diffrax_options(method, given, direct):
    """the solver of an implicit method gets the tolerances the caller asked for"""
    def fn():
        W = make_world()
        n, ns = integer("n", 1), integer("nsteps", 1)
        seen = {}
        d = W.libs["diffrax"]

        def mk(nm):
            def c(*a, **k):
                seen["solver"] = (nm, k.get("root_finder"))
                return "solver"
            return c

        class Res:
            ts = Arr.vec("ts", ns)
            ys = Arr.mat("ys", ns, n)
        for nm in DIFFRAX.values():
            setattr(d, nm, mk(nm))
        d.ODETerm = lambda f: "term"
        d.ConstantStepSize = lambda **k: "const"
        d.StepTo = lambda ts: "points"
        d.SaveAt = lambda **k: "save"
        d.diffeqsolve = lambda *a, **k: Res

        def linear(nm):
            def c(*a, **k):
                seen[nm] = k
                return nm
            return c

        def newton(*a, **k):
            seen["newton"] = k
            return "newton"
        W.libs["lineax"].GMRES, W.libs["lineax"].QR = linear("gmres"), linear("qr")
        W.libs["optimistix"].Newton, W.libs["optimistix"].max_norm = newton, "maxnorm"
        iw = W.load("ormatex_py.integrate_wrapper")
        names = ("rtol", "atol", "lin_rtol", "lin_atol")
        kw = {k: real(k) for k in names} if given else {}
        want = {k: kw.get(k, Sc.lit("1e-8") if hasattr(Sc, "lit") else 1e-8) for k in names}
        if direct:
            kw["lin_solver"] = "direct"
        call("integrate_diffrax", iw.integrate_diffrax, abstract_system(W, n), Arr.vec("y0", n), real("t0"), step_size("dt"), ns, method=method, **kw)
        if "newton" not in seen or not {"rtol", "atol", "linear_solver"} <= set(seen["newton"]) or seen.get("solver", (0, 0))[1] != "newton":
            raise Unsupported("nonlinear solver not recognised")
        for k in ("rtol", "atol"):
            CTX.prove_eq("nonlinear solver: " + k, seen["newton"][k], want[k])
        CTX.prove("linear solver as asked", B.of(seen["newton"]["linear_solver"] == ("qr" if direct else "gmres")))
        if not direct:
            if not {"rtol", "atol"} <= set(seen["gmres"]):
                raise Unsupported("linear solver not recognised")
            for k in ("rtol", "atol"):
                CTX.prove_eq("linear solver: " + k, seen["gmres"][k], want["lin_" + k])
        CTX.cover("end")
    return fn


def invalid():
    W = make_world()
    d = W.libs["diffrax"]
    for nm in DIFFRAX.values():
        setattr(d, nm, lambda *a, **k: None)
    d.ODETerm = lambda f: ("term", f)
    iw = W.load("ormatex_py.integrate_wrapper")
    n = integer("n", 1)
    s = abstract_system(W, n)
    for nm in ("no_such_method", "exprb9", "", "rk4 ", "Exprb2", " euler"):
        try:
            iw.integrate(s, Arr.vec("y", n), Sc.of(0), step_size("dt"), 3, nm)
            ok = False
        except AttributeError:
            ok = True
        CTX.prove("unknown method %r raises AttributeError" % nm, B.of(ok))
    CTX.cover("end")


def tasks():
    w = "integrate_wrapper."
    T = []
    for b in (0, 1):
        for a in (0, 1):
            T.append(Task("driver%s%s" % ("-before" if b else "", "-after" if a else ""), driver(b, a), [w + "integrate_ormatex"],
                          covers=["step", "loop-body", "end"] + (["callback-before"] if b else []) + (["callback-after"] if a else [])))
    for cls, ms in METHODS.items():
        for m in ms:
            T.append(Task("dispatch-" + m, dispatch(cls, m), [w + "integrate", w + "IntegrateResult"], covers=["end"]))
    for m in DIFFRAX:
        T.append(Task("diffrax-" + m, diffrax_dispatch(m), [w + "integrate_diffrax"], covers=["end"]))
        if m.startswith("implicit"):
            for given in (0, 1):
                for direct in (0, 1):
                    T.append(Task("options-%s%s%s" % (m, "-given" if given else "", "-direct" if direct else ""), diffrax_options(m, given, direct),
                                  [w + "integrate_diffrax"], covers=["end"]))
    T.append(Task("invalid-method", invalid, [w + "integrate"], covers=["end"]))
    return T
