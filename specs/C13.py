"""C13: combined phi products equal the sum of the single ones."""
from .common import *


def setup():
    W = make_world()
    mk = W.load("ormatex_py.matexp_krylov")
    ml = W.load("ormatex_py.matexp_leja")
    ode = W.load("ormatex_py.ode_sys")
    n = integer("n", 1)
    A = Arr.mat("A", n)

    class Any(ode.LinOp):
        def _matvec(self, x):
            return A @ x

        def _dense(self):
            return A
    return W, mk, ml, ode, n, A, Any()


def vectors(n, p, zeros=()):
    return [Arr.zeros((n,)) if j in zeros else Arr.vec("b%d" % j, n) for j in range(p + 1)]


def want_sum(A, dt, vb):
    r = Arr.zeros(vb[0].shape)
    for j, b in enumerate(vb):
        r = r + phik(j, A * dt) @ b
    return r


def kiops(p, zeros=()):
    def fn():
        CTX.strict_div = True
        W, mk, ml, ode, n, A, op = setup()
        KrylovCfg.m, KrylovCfg.iom = integer("mdim", 1), integer("iom", 1)
        W.replace(mk.matexp_linop, c_matexp_linop)
        W.replace(mk.phi_linop, c_phi_linop)
        dt = real("dt")
        vb = vectors(n, p, zeros)
        got = call("kiops_fixedsteps", mk.kiops_fixedsteps, op, dt, vb, max_krylov_dim=KrylovCfg.m, iom=KrylovCfg.iom)
        CTX.prove_eq("result = sum of phi_j(dt A) b_j", got, want_sum(A, dt, vb))
        CTX.cover("sum")
    return fn


def all_zero(p):
    def fn():
        CTX.strict_div = True
        W, mk, ml, ode, n, A, op = setup()
        W.replace(mk.matexp_linop, c_matexp_linop)
        W.replace(mk.phi_linop, c_phi_linop)
        vb = [Arr.zeros((n,)) for _ in range(p + 1)]
        got = call("kiops_fixedsteps", mk.kiops_fixedsteps, op, real("dt"), vb, max_krylov_dim=integer("mdim", 1))
        CTX.prove_eq("all vectors zero: result zero", got, Arr.zeros((n,)))
        CTX.cover("sum")
    return fn


def a_tilde(p, shape_only=False):
    def fn():
        W, mk, ml, ode, n, A, op = setup()
        dt = real("dt")
        vb = vectors(n, p)
        at, v, m = call("build_a_tilde", ml.build_a_tilde, op, dt, vb)
        cols = Arr.zeros((n, 0)) if p == 0 else lin.hcat([b.reshape((n, 1)) for b in reversed(vb[1:])])
        K = np_shift(p)
        M = lin.block([[A * dt, cols], [Arr.zeros((p, n)), K]])
        e = lib.zeros((p,))
        e[p - 1] = Sc.of(1)
        CTX.prove_eq("start vector = (b_0, e_p)", v, lin.concat([vb[0], lin.from_earr(e)]))
        CTX.prove_eq("size of the leading block", Sc.of(m), n)
        x = lin.concat([Arr.vec("x", n), Arr.vec("z", Sc.of(p))])
        CTX.prove_eq("operator = [[dt A, B], [0, K]]", call("matvec", at.matvec, x), M @ x)
        D = denote(at, [n] + [1] * p)
        CTX.prove_eq("leading block of exp(A~) v = sum of phi_j(dt A) b_j", (lin.phi(0, D) @ v)[0:n], want_sum(A, dt, vb))
        CTX.cover("sum")
    return fn


def family(n, p):
    """b_0, .., b_p for an arbitrary p"""
    item = lambda i: Arr.from_op(Op.get("app", "b", n, Sc.of(1), (Sc.of(i),)), 1)
    return load.AbsSeq(p + 1, item)


def want_family(A, dt, vb, n, p):
    Z = A * dt
    B = lib.seq_array(load.AbsSeq(p, lambda i: vb[i + 1]), 1)
    return phik(0, Z) @ vb[0] + lin.shift_sum(Z, B)


def kiops_any():
    CTX.strict_div = True
    W, mk, ml, ode, n, A, op = setup()
    KrylovCfg.m, KrylovCfg.iom = integer("mdim", 1), integer("iom", 1)
    W.replace(mk.matexp_linop, c_matexp_linop)
    W.replace(mk.phi_linop, c_phi_linop)
    dt, p = real("dt"), integer("p", 2)
    vb = family(n, p)
    got = call("kiops_fixedsteps", mk.kiops_fixedsteps, op, dt, vb, max_krylov_dim=KrylovCfg.m, iom=KrylovCfg.iom)
    j = integer("j", 0, p)
    load.instantiate_max(j)
    if lin.entails(cmp_("<=", lin.norm(vb[j]), 0)):
        # an arbitrary vector of the family vanishes: so does the sum
        CTX.prove_eq("every vector zero: result zero", got, Arr.zeros((n,)))
        CTX.cover("zero")
    else:
        CTX.prove_eq("result = sum of phi_j(dt A) b_j", got, want_family(A, dt, vb, n, p))
        CTX.cover("sum")


def a_tilde_any():
    W, mk, ml, ode, n, A, op = setup()
    dt, p = real("dt"), integer("p", 2)
    vb = family(n, p)
    at, v, m = call("build_a_tilde", ml.build_a_tilde, op, dt, vb)
    CTX.prove_eq("size of the leading block", Sc.of(m), n)
    CTX.prove_eq("length of the start vector", Sc.of(v.shape[0]), n + p)
    w = shifted_exponential(lambda x: call("matvec", at.matvec, x), 1, v)
    CTX.prove_eq("leading block of exp(A~) v = sum of phi_j(dt A) b_j", w[0:n], want_family(A, dt, vb, n, p))
    CTX.cover("sum")


def np_shift(p):
    k = lib.zeros((p, p))
    for i in range(p - 1):
        k[i, i + 1] = Sc.of(1)
    return lin.from_earr(k)


def tasks():
    k = ["matexp_krylov.kiops_fixedsteps", "ode_sys.AugMatrixLinOp"]
    T = [Task("kiops-any-number", kiops_any, k, covers=["sum", "zero"], weight=4),
         Task("augmented-any-number", a_tilde_any, ["matexp_leja.build_a_tilde", "ode_sys.AugMatrixLinOp"], covers=["sum"], weight=4)]
    for p in range(1, 6):
        # p = 1 completes the any-number tasks (p >= 2); the others only help to find a failing input
        T.append(Task("kiops-p%d" % p, kiops(p), k, covers=["sum"], weight=p,
                      bounded=None if p == 1 else "this number of vectors only; every number: kiops-any-number"))
        T.append(Task("augmented-p%d" % p, a_tilde(p), ["matexp_leja.build_a_tilde", "ode_sys.AugMatrixLinOp"], covers=["sum"], weight=p,
                      bounded=None if p == 1 else "this number of vectors only; every number: augmented-any-number"))
    T.append(Task("kiops-p2-leading-zero", kiops(2, (0,)), k, covers=["sum"], bounded="this number of vectors only; every number: kiops-any-number"))
    T.append(Task("kiops-p4-three-zero", kiops(4, (0, 1, 2)), k, covers=["sum"], bounded="this number of vectors only; every number: kiops-any-number"))
    T.append(Task("kiops-p2-only-first", kiops(2, (1, 2)), k, covers=["sum"], bounded="this number of vectors only; every number: kiops-any-number"))
    T.append(Task("kiops-all-zero", all_zero(2), k, covers=["sum"], bounded="this number of vectors only; every number: kiops-any-number"))
    return T
