"""C04: integrator history and multistep consistency."""
from .common import *

METHODS = {
    "ExpRBIntegrator": ["exprb2", "exprb3", "pexprb4", "epi2", "epi3", "exprb2_dense", "exprb2_pfd", "exp_pfd"],
    "ExpSplitIntegrator": ["exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense"],
    "ExpLejaIntegrator": ["epi2_leja_re", "epi2_leja_im", "epi3_leja_im"],
    "RKIntegrator": ["rk4"],
}
# number of past states each method's formula refers to
DEPTH = {"epi3": 2, "epi3_leja_im": 2}


def build(cls, method):
    W = make_world()
    install_phi_contracts(W)
    W.load("ormatex_py.ode_explicit")
    ml = W.load("ormatex_py.matexp_leja")
    ex = W.load("ormatex_py.ode_exp")
    if hasattr(ex, "gen_leja_fast"):
        ex.gen_leja_fast = lambda **k: Arr.vec("leja_points", Sc.sym("nleja", "I", pos=True))
    C = getattr(W.load("ormatex_py.ode_explicit") if cls == "RKIntegrator" else ex, cls)
    n = integer("n", 1)
    s = abstract_system(W, n, split=True)
    t, y = real("t0"), Arr.vec("y0", n)
    return W, C, s, n, t, y, call("constructor", C, s, t, y, method=method)


def view(I, pairs, lab):
    """pairs: expected history, newest first"""
    m = I._ovc_order
    want = pairs[:m]
    CTX.prove_eq(lab + "current time", I.t, want[0][0])
    CTX.prove_eq(lab + "time property", I.time, want[0][0])
    CTX.prove_eq(lab + "current state", I.y_hist[0], want[0][1])
    st = I.state
    if st is None:
        CTX.prove(lab + "state property returns the state", B.of(False))
    else:
        CTX.prove_eq(lab + "state property", st, want[0][1])
    CTX.prove_eq(lab + "length of time history", len(I.t_hist), len(want))
    CTX.prove_eq(lab + "length of state history", len(I.y_hist), len(want))
    for j, (t, y) in enumerate(want):
        if j < len(I.t_hist):
            CTX.prove_eq(lab + "time history entry %d" % j, I.t_hist[j], t)
        if j < len(I.y_hist):
            CTX.prove_eq(lab + "state history entry %d" % j, I.y_hist[j], y)
    CTX.cover("view")


def history(cls, method):
    def fn():
        W, C, s, n, t, y, I = build(cls, method)
        SR = W.load("ormatex_py.ode_sys").StepResult
        order = C._valid_methods[method]
        CTX.prove("the kept history reaches as far back as the formula", B.of(order >= DEPTH.get(method, 1)))
        CTX.prove_eq("order attribute", I.order, order)
        I._ovc_order = order
        pairs = [(t, y)]
        view(I, pairs, "after construction: ")
        k = 0
        for phase in (0, 1):
            for j in range(order + 2):
                k += 1
                tj, yj = real("t%d" % k), Arr.vec("y%d" % k, n)
                call("accept", I.accept_step, SR(tj, tj - pairs[0][0], yj, Sc.of(-1)))
                pairs.insert(0, (tj, yj))
                view(I, pairs, "after %d accepted: " % len(pairs))
            if phase == 0:
                tr, yr = real("tr"), Arr.vec("yr", n)
                call("reset", I.reset_ic, tr, yr)
                pairs = [(Sc.of(tr), yr)]
                view(I, pairs, "after reset: ")
        # a new start at the very point it is at
        call("reset", I.reset_ic, pairs[0][0], I.y_hist[0])
        pairs = pairs[:1]
        view(I, pairs, "after a reset to the current point: ")
    return fn


def default_accept(order):
    """an integrator of the user's own, which relies on the accept_step it inherits"""
    def fn():
        W = make_world()
        M = W.load("ormatex_py.ode_sys")

        class Own(M.IntegrateSys):
            def step(self, dt):
                raise Unsupported("step of the user's integrator")
        n = integer("n", 1)
        t, y = real("t0"), Arr.vec("y0", n)
        I = call("constructor", Own, abstract_system(W, n), t, y, order, "own")
        I._ovc_order = order
        pairs = [(t, y)]
        view(I, pairs, "after construction: ")
        for k in range(order + 2):
            tj, yj = real("t%d" % (k + 1)), Arr.vec("y%d" % (k + 1), n)
            call("accept", I.accept_step, M.StepResult(tj, tj - pairs[0][0], yj, Sc.of(-1)))
            pairs.insert(0, (tj, yj))
            view(I, pairs, "after %d accepted: " % len(pairs))
        tr, yr = real("tr"), Arr.vec("yr", n)
        call("reset", I.reset_ic, tr, yr)
        view(I, [(tr, yr)], "after reset: ")
    return fn


def memoryless(cls, method, accepts):
    """after a reset, the next two steps equal those of a new integrator started there"""
    def fn():
        W, C, s, n, t, y, I = build(cls, method)
        SR = W.load("ormatex_py.ode_sys").StepResult
        pd = step_size("dtprev")
        for k in range(accepts):
            r = call("step", I.step, pd)
            tj, yj = real("t%d" % k), Arr.vec("yy%d" % k, n)
            call("accept", I.accept_step, SR(tj, pd, yj, Sc.of(-1)))
        tr, yr = real("tr"), Arr.vec("yr", n)
        call("reset", I.reset_ic, tr, yr)
        K = C(s, tr, yr, method=method)
        for dt in (pd, step_size("dt2")):
            a, b = call("step", I.step, dt), call("step", K.step, dt)
            CTX.prove_eq("step after reset = step of a new integrator: state", a.y, b.y)
            CTX.prove_eq("step after reset = step of a new integrator: time", a.t, b.t)
            call("accept", I.accept_step, a)
            call("accept", K.accept_step, b)
        CTX.cover("memoryless")
    return fn


def retry(cls, method):
    """a step that is not accepted leaves no trace"""
    def fn():
        W, C, s, n, t, y, I = build(cls, method)
        K = C(s, t, y, method=method)
        SR = W.load("ormatex_py.ode_sys").StepResult
        d0, d1 = step_size("d0"), step_size("d1")
        if DEPTH.get(method, 1) > 1:
            t1, y1 = real("t1"), Arr.vec("y1", n)
            for X in (I, K):
                call("accept", X.accept_step, SR(t1, t1 - t, y1, Sc.of(-1)))
        call("step", I.step, d0)            # rejected by the caller
        a, b = call("step", I.step, d1), call("step", K.step, d1)
        CTX.prove_eq("retried step: state", a.y, b.y)
        CTX.prove_eq("retried step: time", a.t, b.t)
        CTX.cover("retry")
    return fn


def invalid(cls):
    def fn():
        W, C, s, n, t, y, I = build(cls, METHODS[cls][0])
        try:
            C(s, t, y, method="no_such_method")
            ok = False
        except AttributeError:
            ok = True
        CTX.prove("unknown method rejected", B.of(ok))
        CTX.cover("invalid")
    return fn


def tasks():
    T = []
    for cls, ms in METHODS.items():
        mod = "ode_explicit." if cls == "RKIntegrator" else "ode_exp."
        fs = [mod + cls + ".accept_step", mod + cls + ".__init__", "ode_sys.IntegrateSys.__init__", "ode_sys.IntegrateSys.reset_ic",
              "ode_sys.IntegrateSys.time", "ode_sys.IntegrateSys.state"]
        for m in ms:
            T.append(Task("history-" + m, history(cls, m), fs, covers=["view"]))
            if cls != "ExpLejaIntegrator":
                T.append(Task("reset-" + m, memoryless(cls, m, 1), fs, covers=["memoryless"]))
                T.append(Task("retry-" + m, retry(cls, m), fs, covers=["retry"]))
        T.append(Task("invalid-" + cls, invalid(cls), fs, covers=["invalid"]))
    for k in (1, 2, 3):
        T.append(Task("inherited-history-%d" % k, default_accept(k), ["ode_sys.IntegrateSys.accept_step", "ode_sys.IntegrateSys.reset_ic"], covers=["view"],
                      bounded="kept points 1..3 (times and states arbitrary)"))
    T.append(Task("reset-after-two-epi3", memoryless("ExpRBIntegrator", "epi3", 2), ["ode_exp.ExpRBIntegrator.step"], covers=["memoryless"]))
    return T
