"""C07 on the real code."""
from .common import *


def forms(op, v, want, lab):
    for nm in ("matvec", "__call__", "matvec_npcompat"):
        close("%s %s" % (lab, nm), getattr(op, nm)(jnp.asarray(v)), want, 1e-12, 1e-13)


@contract("identity, diagonal, dense and sparse operators", quick=4, thorough=30)
def c_ops(rng, case):
    o = mod("ode_sys")
    from jax.experimental import sparse as jsp
    n = int(rng.integers(1, 7))
    v, d, a = rng.standard_normal(n), rng.standard_normal(n), rng.standard_normal((n, n))
    if rng.uniform() < 0.5:
        a[rng.uniform(size=(n, n)) < 0.6] = 0
    if rng.uniform() < 0.3:
        d, a = d + 1j * rng.standard_normal(n), a + 1j * rng.standard_normal((n, n))
    case.update(n=n, v=v, d=d, a=a)
    aj = jnp.asarray(a)
    for lab, op, m in (("identity", o.EyeLinOp(n), np.eye(n)), ("diagonal", o.DiagLinOp(jnp.asarray(d)), np.diag(d)),
                       ("dense", o.MatrixLinOp(aj), a), ("BCOO", o.MatrixLinOp(jsp.BCOO.fromdense(aj)), a),
                       ("BCSR", o.MatrixLinOp(jsp.BCSR.fromdense(aj)), a)):
        forms(op, v, m @ v, lab)
        close(lab + " dense", op.dense(), m, 0, 0, scale=1.0)


@contract("augmented operator", quick=6, thorough=40)
def c_aug(rng, case):
    o = mod("ode_sys")
    n, p = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    A, Bm, K = rng.standard_normal((n, n)), rng.standard_normal((n, p)), rng.standard_normal((p, p))
    d = rng.standard_normal(n)
    dt = float(rng.uniform(-2, 2))
    case.update(n=n, p=p, dt=dt)
    for op, M in ((o.MatrixLinOp(jnp.asarray(A)), A), (o.DiagLinOp(jnp.asarray(d)), np.diag(d)), (o.EyeLinOp(n), np.eye(n))):
        aug = o.AugMatrixLinOp(op, dt, jnp.asarray(Bm), jnp.asarray(K))
        for _ in range(2):
            v = rng.standard_normal(n + p)
            forms(aug, v, np.block([[dt * M, Bm], [np.zeros((p, n)), K]]) @ v, "augmented")
        V = rng.standard_normal((n + p, int(rng.integers(1, 4))))
        if not isinstance(op, o.DiagLinOp):
            close("augmented, several columns", aug.matvec(jnp.asarray(V)), np.block([[dt * M, Bm], [np.zeros((p, n)), K]]) @ V, 1e-12, 1e-13)


@contract("ill-shaped blocks are rejected", quick=1, thorough=3)
def c_shape(rng, case):
    o = mod("ode_sys")
    op = o.MatrixLinOp(jnp.eye(3))
    bad = [lambda: o.MatrixLinOp(jnp.ones((2, 3))), lambda: o.MatrixLinOp(jnp.ones((3, 2))), lambda: o.MatrixLinOp(jnp.ones((1, 1, 1))), lambda: o.MatrixLinOp(jnp.ones(3)),
           lambda: o.AugMatrixLinOp(op, 1.0, jnp.ones((3, 2)), jnp.ones((3, 3))),
           lambda: o.AugMatrixLinOp(op, 1.0, jnp.ones((3, 2)), jnp.ones((2, 3))),
           lambda: o.AugMatrixLinOp(op, 1.0, jnp.ones((3, 2)), jnp.ones((3, 2)))]
    for i, f in enumerate(bad):
        case.update(i=i)
        try:
            f()
        except (AssertionError, ValueError, TypeError):
            continue
        raise Bad("ill-shaped operator %d accepted" % i)
