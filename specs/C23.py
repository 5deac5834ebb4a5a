"""C23: the Leja integrators encode their step in the augmented system and keep the learned substep size honest."""
from .common import *
from ovc.terms import abs_

METHODS = ("epi2_leja_re", "epi2_leja_im", "epi3_leja_im")


class Aug:
    """what build_a_tilde was asked to encode (its own contract is proved under C13)"""

    def __init__(self, op, dt, vb):
        self.op, self.dt, self.vb = op, dt, list(vb)


def build(method, opts, tag=""):
    W = make_world()
    ml = W.load("ormatex_py.matexp_leja")
    ex = W.load("ormatex_py.ode_exp")
    n = integer("n", 1)
    d = dict(W=W, ml=ml, ex=ex, n=n, method=method, t=real("t"), dt=step_size("dt"), y=Arr.vec("y", n), log=[])
    d["sys"] = abstract_system(W, n)
    kw = {}
    for k, v in opts.items():
        kw[k] = v
    d["kw"] = kw
    d["fast"] = PArr.sym("fast_points", integer("n_leja", 4))

    def c_fast(a=-2, b=2, n=100):
        CTX.prove_eq("real points: left end", a, Sc.of(-2))
        CTX.prove_eq("real points: right end", b, Sc.of(2))
        CTX.prove_eq("real points: number", n, kw.get("n_leja", 280))
        return d["fast"]

    def c_conj(n=64, a=-1, b=1, c=1):
        d["log"].append(("box", n, a, b, c))
        d["conj"] = (PArr.sym(terms.fresh_name("conj_points"), Sc.of(n)), integer(terms.fresh_name("real_points"), 1), pos(terms.fresh_name("cscale")), real(terms.fresh_name("cshift")))
        return d["conj"]

    def c_aug(op, dt, vb):
        a = Aug(op, dt, vb)
        v = Arr.vec(terms.fresh_name("start"), n + len(a.vb) - 1)
        d["log"].append(("aug", a, v))
        return a, v, n

    def c_spec(op, dim, it=20, b0=None, scale_factor=Sc.of(1)):
        r = (real(terms.fresh_name("shift")), Sc.sym(terms.fresh_name("scale"), nonneg=True), real(terms.fresh_name("max_eig")), Arr.vec(terms.fresh_name("eigvec"), dim), integer(terms.fresh_name("pits"), 1))
        d["log"].append(("spec", op, dim, it, b0, scale_factor, r))
        return r

    def interp(kind):
        def f(a, tau, v, x, *rest, **kw):
            rest = list(rest)
            nr = rest.pop(0) if kind == "conj" else None
            names = ["n", "shift", "scale", "tol", "substep"] + (["leja_n_zeros"] if kind == "conj" else []) + ["dd_method"]
            g = dict(tol=Sc.of("1e-10") if False else None, substep=True, leja_n_zeros=2, dd_method="taylor")
            g.update(zip(names, rest))
            g.update(kw)
            r = (Arr.vec(terms.fresh_name("interpolated"), n), integer(terms.fresh_name("its"), 1), B.of(CTX.choose("converged")), pos(terms.fresh_name("largest")))
            d["log"].append(("interp", kind, a, tau, v, x, nr, g, r))
            return r
        return f
    W.replace(ml.gen_leja_fast, c_fast)
    W.replace(ml.gen_leja_conjugate, c_conj)
    W.replace(ml.build_a_tilde, c_aug)
    W.replace(ml.leja_shift_scale, c_spec)
    W.replace(ml.real_leja_expmv_substep, interp("real"))
    W.replace(ml.complex_conj_leja_expmv_substep, interp("conj"))
    d["I"] = call("constructor", ex.ExpLejaIntegrator, d["sys"], d["t"], d["y"], method=method, **kw)
    return d


def expected(d):
    """dt phi_1 F + dt^2 phi_2 F_t, plus two thirds of dt phi_2 R once a previous point exists"""
    I, s, dt = d["I"], d["sys"], d["dt"]
    t, y = d["t"], d["y"]
    F, J, Ft = s.F(t, y), s.J(t, y), s.Ft(t, y)
    b1, b2 = F * dt, Ft * (dt * dt)
    if d["method"] == "epi3_leja_im" and "prev" in d:
        tp, yp = d["prev"]
        R = s.F(tp, yp) - F - J @ (yp - y) - Ft * (tp - t)
        b2 = b2 + R * (dt * 2) / 3
    return J, [b1, b2]


def same_opt(name, got, want):
    if isinstance(want, (bool, str)):
        CTX.prove(name, B.of(bool(got == want) if not isinstance(got, (B, Sc)) else got))
    else:
        CTX.prove_eq(name, got, want)


def one_step(d, what=""):
    """checks one step against its contract; returns its result, or None when it raised"""
    I, dt, n, kw = d["I"], d["dt"], d["n"], d["kw"]
    d["log"].clear()
    if not hasattr(I, "leja_substep_size"):
        raise Unsupported("learned substep size not found")
    h0 = I.leja_substep_size
    before = (I.t, list(I.t_hist), list(I.y_hist))
    k = d.setdefault("k", Sc.of(0))
    attr = I.istep
    try:
        r = I.step(dt)
        raised = False
    except RuntimeError as e:
        if isinstance(e, Unsupported):
            raise
        raised = True
    log = d["log"]
    calls = [l for l in log if l[0] == "interp"]
    if len(calls) != 1:
        raise Unsupported("interpolation not called")
    _, kind, a, tau, v, x, nr, g, res = calls[0]
    CTX.prove("interpolation for this kind of points", B.of(kind == ("real" if d["method"] == "epi2_leja_re" else "conj")))
    augs = [l for l in log if l[0] == "aug" and l[1] is a]
    if not augs:
        raise Unsupported("augmented system not recognised")
    A, start = augs[0][1], augs[0][2]
    J, want = expected(d)
    probe = Arr.vec("probe", n)
    CTX.prove_eq("augmented system: Jacobian", A.op.matvec(probe) if hasattr(A.op, "matvec") else A.op(probe), J @ probe)
    CTX.prove_eq("augmented system: step", A.dt, dt)
    CTX.prove("augmented system: orders", B.of(len(A.vb) >= 3))
    CTX.prove_eq("augmented system: nothing multiplies phi_0", A.vb[0], Arr.zeros((n,)))
    CTX.prove_eq("augmented system: phi_1 term", A.vb[1], want[0])
    CTX.prove_eq("augmented system: phi_2 term", A.vb[2], want[1])
    for b in A.vb[3:]:
        CTX.prove_eq("augmented system: nothing else", b, Arr.zeros((n,)))
    CTX.prove_eq("start vector of the augmented system", v, start)
    CTX.prove_eq("size of the leading block", g["n"], n)
    CTX.prove_eq("starts from 1.1 times the learned substep size", Sc.of(tau) * 10, Sc.of(h0) * 11)
    opt = lambda nm, dflt: kw.get(nm, dflt)
    CTX.prove_eq("tolerance", g["tol"], opt("leja_tol", Sc.of(1) / 10 ** 15))
    same_opt("substepping option", g["substep"], opt("leja_substep", True))
    same_opt("divided differences option", g["dd_method"], opt("dd_method", "taylor"))
    specs = [l for l in log if l[0] == "spec"]
    la, lc = opt("leja_a", None), opt("leja_c", None)
    if la is None:
        if len(specs) != 1:
            raise Unsupported("power iteration not called")
        _, sop, dim, it, b0, fac, sr = specs[0]
        CTX.prove("spectrum of the augmented system", B.of(sop is a))
        CTX.prove_eq("spectrum: dimension", dim, n + 2)
        CTX.prove("spectrum: more than a few power iterations are allowed at every step", cmp_("<=", 10, Sc.of(it)))
        CTX.prove_eq("spectrum: safety factor", fac, opt("leja_max_re_eig_scale", Sc.of(6) / 5))
        if b0 is not None:
            CTX.prove_eq("spectrum: start vector length", b0.shape[0], n + 2)
    else:
        CTX.prove("no estimate when bounds are given", B.of(not specs))
    if kind == "real":
        CTX.prove_eq("points", x[integer("j", 0)], d["fast"][integer("j", 0)])
        CTX.prove_eq("shift", g["shift"], sr[0] if la is None else dt * la / 2)
        CTX.prove_eq("scale", g["scale"], sr[1] if la is None else abs_(dt * la / 4))
    else:
        same_opt("padding", g["leja_n_zeros"], opt("leja_n_zeros", 2))
        box = [l for l in log if l[0] == "box"]
        if len(box) != 1:
            raise Unsupported("points not recognised")
        _, bn, ba, bb, bc = box[0]
        CTX.prove_eq("points: number", bn, opt("n_leja", 280))
        CTX.prove_eq("points: left end", ba, -abs_(sr[2]) if la is None else la * dt)
        CTX.prove_eq("points: right end", bb, Sc.of(0))
        CTX.prove_eq("points: imaginary extent", bc, Sc.of(0) if lc is None else lc * dt)
        px, pr, psc, psh = d["conj"]
        j = integer("j", 0)
        CTX.prove_eq("points", x[j], px[j])
        CTX.prove_eq("leading real points", nr, pr)
        CTX.prove_eq("shift", g["shift"], psh)
        CTX.prove_eq("scale", g["scale"], psc)
    upd, its, ok, big = res
    CTX.prove("raises exactly when the interpolation did not converge", B.of(raised == (not bool(ok))))
    CTX.prove_eq("time unchanged until accepted", I.t, before[0])
    CTX.prove("history unchanged until accepted", B.of(len(I.t_hist) == len(before[1]) and len(I.y_hist) == len(before[2])))
    for p, q in zip(list(I.t_hist) + list(I.y_hist), before[1] + before[2]):
        CTX.prove_eq("history entries unchanged until accepted", p, q)
    if raised:
        CTX.prove_eq("failure leaves the learned substep size", I.leja_substep_size, h0)
        CTX.prove_eq("failure does not count as a step", I.istep, attr)
        CTX.cover("failed")
        return None
    CTX.prove_eq("new state", r.y, d["y"] + upd)
    CTX.prove_eq("new time", r.t, d["t"] + dt)
    CTX.prove_eq("reported step", r.dt, dt)
    d["k"] = k + 1
    w = terms.min_(k + 1, Sc.of(10))
    CTX.prove_eq("learned substep size is the running average", I.leja_substep_size, (big + (w - 1) * h0) / w)
    CTX.prove_eq("steps counted", terms.min_(Sc.of(I.istep), Sc.of(10)), terms.min_(k + 1, Sc.of(10)))
    CTX.cover("stepped")
    return r


OPTS = {
    "default": lambda: {},
    "bounds": lambda: dict(leja_a=real("leja_a"), leja_c=real("leja_c"), leja_tol=pos("ltol"), n_leja=integer("npts", 4)),
    "a-only": lambda: dict(leja_a=real("leja_a"), leja_tol=pos("ltol"), leja_n_zeros=5, dd_method="pade"),
    "c-only": lambda: dict(leja_c=real("leja_c"), leja_max_re_eig_scale=pos("fac"), leja_substep=False, dd_method="recursive"),
}


def step(method, opts, start):
    def fn():
        d = build(method, OPTS[opts]())
        I = d["I"]
        SR = d["W"].load("ormatex_py.ode_sys").StepResult
        if start != "first":
            # an arbitrary point of an arbitrary history
            if not hasattr(I, "istep"):
                raise Unsupported("step counter not found")
            tp, yp = real("tp"), Arr.vec("yp", d["n"])
            I.reset_ic(tp, yp)
            call("accept_step", I.accept_step, SR(d["t"], d["t"] - tp, d["y"], Sc.of(-1)))
            d["prev"] = (tp, yp)
            I.istep = d["k"] = integer("steps", 0)
            I.leja_substep_size = pos("learned")
        else:
            CTX.prove_eq("initial substep size", I.leja_substep_size, Sc.of(1))
        one_step(d)
    return fn


def sequence(method):
    """two steps in a row: what the first leaves behind does not disturb the second"""
    def fn():
        d = build(method, {})
        SR = d["W"].load("ormatex_py.ode_sys").StepResult
        r = one_step(d)
        if r is not None and CTX.choose("accept"):
            call("accept_step", d["I"].accept_step, r)
            d["prev"] = (d["t"], d["y"])
            d["t"], d["y"] = r.t, r.y
        d["dt"] = step_size("dt2")
        one_step(d, "second ")
        CTX.cover("sequence")
    return fn


def tasks():
    T = []
    for m in METHODS:
        f = ["ode_exp.ExpLejaIntegrator.step", "ode_exp.ExpLejaIntegrator.__init__",
             "ode_exp.ExpLejaIntegrator._step_epi_re" if m.endswith("re") else "ode_exp.ExpLejaIntegrator._step_epi_im", "ode_sys.IntegrateSys._remf"]
        for o in OPTS:
            for st in ("first", "later"):
                T.append(Task("%s-%s-%s" % (m, o, st), step(m, o, st), f, covers=["stepped", "failed"]))
        T.append(Task("sequence-%s" % m, sequence(m), f, covers=["sequence"]))
    return T
