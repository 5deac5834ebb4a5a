"""Conformance of the assumed library contracts (ovc/lib.py, ovc/lin.py) with the installed libraries.

Each line of CASES is one expression.  It is evaluated twice: symbolically by the library contracts (over exact
scalars, explicit arrays, block arrays of symbolic size n x m and pointwise arrays of symbolic length n) and by the
installed jax/numpy on numbers; the symbolic result is then read at the same numbers and the two must agree, and
exactly one symbolic path must apply.  This samples the trusted contracts: it is testing, not proof.

  python3-vt -m ovc.conform            both halves; exit 1 and the list of disagreeing cases otherwise
  /opt/venv/bin/python conform.py real the numeric half (JSON on stdout)
"""
import json
import os
import subprocess
import sys

N, Mm = 4, 3
SCAL = {"s": 0.75, "a": -1.5, "b": 2.25}
EXPL = {
    "x": [0.5, -1.25, 2.0], "y": [1.5, 0.25, -3.0], "p5": [0.25, 1.0, 1.75, 2.5, 4.0],
    "G": [[1.0, -2.0, 0.5], [0.25, 3.0, -1.0], [2.0, 0.75, -0.5]], "H": [[0.5, 1.5, -1.0], [2.0, -0.25, 1.0], [0.0, 1.0, 3.0]],
    "r23": [[1.0, 2.0, 3.0], [-1.0, 0.5, 0.25]],
}
BLOCK = {"A": ("n", "n"), "B": ("n", "n"), "R": ("n", "m"), "v": ("n",), "w": ("n",), "u": ("m",)}
POINT = ["f", "g"]
OUT = "f g".split()

CASES = """
jnp.zeros(3)
jnp.zeros((2, 3))
jnp.ones((2,))
jnp.ones_like(x)
jnp.zeros_like(G)
jnp.full((2, 2), s)
jnp.eye(3)
jnp.eye(3, k=1)
jnp.eye(3, 4)
jnp.eye(4, 3, -1)
np.identity(2)
jnp.asarray([s, a, b])
jnp.array([[s, a], [b, 1]])
jnp.array([2.75, -2.75, 1.0], dtype=int)
x.astype(int)
np.array([0.0, 2.0], dtype=bool)
jnp.concat([x, y])
jnp.concat((x, jnp.asarray([s])))
jnp.concatenate([G, H], axis=1)
jnp.concat([G, H], axis=0)
np.vstack((x, y))
np.hstack((x, y))
np.column_stack((x, y))
np.arange(2, 5)
np.hstack([G, H])
np.stack([x, y], axis=1)
jnp.block([[G, H], [jnp.zeros((3, 3)), jnp.eye(3)]])
jnp.diag(x)
jnp.diag(x, 1)
jnp.diag(x, -2)
jnp.diag(G)
jnp.diag(G, 1)
jnp.diag(G, k=-1)
jnp.linspace(s, b, 5)
jnp.linspace(0, 1, 1)
np.arange(4)
np.arange(1, 4)
np.arange(1, 7, 2)
jnp.exp(x)
jnp.log(p5)
np.log2(p5)
jnp.sqrt(p5)
jnp.sin(x)
jnp.cos(x)
jnp.floor(x)
jnp.ceil(x)
jnp.abs(x)
abs(x)
jnp.real(x + 2j)
jnp.imag(x + 2j * y)
jnp.conj(x + 2j * y)
jnp.abs(x + 2j * y)
jnp.square(x)
jnp.power(x, 2)
jnp.pow(p5, s)
x ** 3
jnp.minimum(x, y)
jnp.maximum(x, 0.0)
jnp.clip(x, -1.0, 1.0)
jnp.clip(x, min=0)
np.where(x > 0, x, y)
jnp.where(s > 0, a, b)
jnp.max(x)
jnp.min(G)
x.max()
G.min()
jnp.sum(x)
jnp.sum(G, axis=0)
G.sum(axis=1)
x.sum()
np.prod(x)
np.prod(G, axis=0)
jnp.mean(x)
jnp.mean(G, axis=1)
np.cumprod(x)
np.cumsum(x)
jnp.argmax(x)
np.argmin(y)
x.argmax()
jnp.dot(x, y)
jnp.vdot(x + 1j * y, y)
jnp.outer(x, y)
G @ H
G @ x
x @ G
jnp.matmul(G, H)
G.T
r23.T @ x[:2]
jnp.linalg.norm(x)
jnp.linalg.norm(x, 1)
jnp.linalg.norm(x, jnp.inf)
jnp.linalg.norm(x, ord=2)
jnp.linalg.norm(x + 2j * y)
np.tile(x, 2)
np.tile(x, (2, 1))
np.isclose(s, 0.75)
np.isclose(s, 0.7500001)
np.isclose(s, 0.76)
np.allclose(x, y)
np.all(x > -5)
np.any(x > 5)
np.triu(G)
np.triu(G, 1)
np.tril(G, -1)
jnp.fill_diagonal(G, 2.0, inplace=False)
np.flip(x)
np.flip(G, 1)
jnp.moveaxis(r23, 0, 1)
jnp.reshape(G, (9,))
r23.reshape((3, 2))
r23.reshape((3, 2), order="F")
r23.reshape((-1,), order="F")
r23.reshape(-1)
r23.flatten()
r23.ravel()
jnp.logical_and(s > 0, a > 0)
jnp.logical_or(s > 0, a > 0)
jnp.logical_not(s > 0)
jnp.add(x, y)
jnp.subtract(x, y)
jnp.multiply(x, y)
jnp.divide(x, y)
jnp.negative(x)
jnp.transpose(r23)
jax.scipy.special.factorial(3)
math.factorial(5)
math.sqrt(s)
math.floor(b)
math.ceil(b)
math.log(b)
math.log2(8)
int(b)
int(a)
round(2)
max(s, b)
min(a, b, s)
x[0]
x[-1]
x[1:]
x[::-1]
x[::2]
G[1]
G[1, 2]
G[:, 1]
G[:2, 1:]
x[None, :] * y[:, None]
x.at[1].set(s)
x.at[1:].set(y[1:])
x.at[0].add(b)
G.at[0, 1].set(a)
G.at[1].set(x)
G.at[:, 0].set(x)
G.at[:2, :2].set(0.0)
x / y
s / b
x - s
2.0 - x
-x
x > y
x == x
s == 0.75
abs(a)
b ** 0.5
2.0 ** s
b // 1
7 % 3
divmod(7, 3)[0]
jax.lax.cond(s > 0, lambda z: z + 1, lambda z: z - 1, a)
jax.lax.fori_loop(0, 4, lambda i, c: c + i * s, a)
jax.lax.while_loop(lambda c: c[0] < 3, lambda c: (c[0] + 1, c[1] * s), (0, 1.0))[1]
jax.lax.scan(lambda c, z: (c + z, c * z), a, x)[0]
jax.lax.scan(lambda c, z: (c + z, c * z), a, x)[1]
jax.linearize(lambda z: z ** 2 * s, x)[0]
jax.linearize(lambda z: z ** 2 * s, x)[1](y)
jax.linearize(lambda z: jnp.exp(z) * z[0], x)[1](y)
jax.tree_util.Partial(lambda p, q: p - q, a)(b)
list(reversed([s, a]))
sorted([3, 1, 2])
sum([s, a, b])
[z * s for z in x]
[i * z for i, z in enumerate(x)]
[p * q for p, q in zip(x, y)]
len(x)
x.shape
G.shape[0]
x.size
G.ndim
s if s < b else a
A @ v
A @ B
A @ B @ v - B @ (A @ v)
A.T @ v
v @ A
(A + s * B) @ v
A * s - B / b
-v + 2.0 * w
jnp.dot(A, v)
jnp.dot(v, w)
v @ w
jnp.zeros(n) + v
jnp.zeros((n, m)) + R
jnp.zeros_like(v) - v
jnp.ones_like(v) * s
jnp.ones(n) * s + v
jnp.eye(n) @ v
(jnp.eye(n) * s - A) @ v
jnp.eye(n, k=0) + A
jnp.eye(2 * n, k=n) @ jnp.concatenate([v, w])
jnp.eye(2 * n, k=-n) @ jnp.concatenate([v, w])
jnp.eye(n + m, k=n) @ jnp.concatenate([v, u])
jnp.eye(n + m, k=-m) @ jnp.concatenate([v, u])
jnp.sqrt(v @ v)
jnp.sqrt(jnp.vdot(v + s * w, v + s * w))
jnp.sqrt(jnp.sum((s * v) ** 2))
jnp.sum(v * w)
jnp.sum(v * w * v)
(v * w + 2 * v).sum()
jnp.max(jnp.abs(a * v))
jnp.sum(jnp.abs(v - w))
jnp.max(2 * jnp.abs(v))
v ** 2
v ** 3
jnp.where(jnp.any(jnp.abs(v) > s), 1., 2.)
jnp.where(jnp.all(abs(v) <= b), 1., 2.)
jnp.where(jnp.allclose(v, 0., atol=1e-3), 1., 2.)
jnp.where((v < s).all(), 1., 2.)
jnp.where((v >= s).any(), 1., 2.)
jnp.identity(n) - A
R @ u
R.T @ v
R.T @ A @ R
jnp.concat((v, u))
jnp.concat([v, jnp.zeros(m)])
jnp.concat([v, w])[n:]
jnp.concat([v, w])[:n]
jnp.concat([v, u])[-m:]
jnp.concat([v, jnp.asarray([s])])[-1]
jnp.vstack((A, B))
jnp.hstack((A, R))
jnp.column_stack((u, 2 * u))
jnp.column_stack([u, A @ u]) @ jnp.asarray([1., 2.])
jnp.hstack((A, R)) @ jnp.concat((v, u))
jnp.vstack((A, R.T)) @ v
jnp.block([[A, R], [jnp.zeros((m, n)), jnp.eye(m)]])
jnp.block([[A, R], [jnp.zeros((m, n)), jnp.eye(m)]]) @ jnp.concat((v, u))
jnp.zeros((n + m, n + m)).at[:n, :n].set(A).at[:n, n:].set(R)
jnp.zeros((2 * n, 2 * n)).at[:n, n:].set(jnp.eye(n)).at[n:, n:].set(A)
jnp.zeros((3 * n, 3 * n)).at[:n, :n].set(A).at[:2 * n, n:].set(jnp.eye(2 * n))
jnp.zeros((3 * n, 3 * n)).at[n:, :2 * n].set(jnp.eye(2 * n)).at[:n, 2 * n:].set(B)
jnp.eye(2 * n).at[:n, n:].set(A)
jnp.zeros(2 * n).at[n:].set(v)
jnp.zeros((n, 2)).at[:, 1].set(v)
jnp.zeros((n, 2)).at[:, 1].set(v)[:, 1]
jnp.zeros((2, n)).at[0].set(v)
A.at[:, 0].set(v)
jnp.concat((v, u)).at[:n].set(w)
jnp.concat((v, u)).at[:n].add(w)
jnp.linalg.norm(v)
jnp.linalg.norm(v - s * w)
jnp.linalg.norm(2.0 * v, 1)
jnp.linalg.norm(v, jnp.inf)
jnp.linalg.norm(-v)
jnp.diag(v) @ w
jnp.diag(v) @ jnp.diag(w)
jnp.diag(v, 1)
v * s
v / b
jnp.linalg.solve(jnp.eye(n) * b, v)
jnp.linalg.solve(A, v)
jnp.linalg.solve(A, A @ v)
jnp.linalg.inv(A) @ v
jnp.linalg.inv(A) @ A
A @ jnp.linalg.solve(A, R)
jax.scipy.linalg.expm(0.125 * A)
jax.scipy.linalg.expm(0.125 * A) @ v
jax.scipy.linalg.expm(0.0 * A) @ v
jax.scipy.linalg.expm(jnp.zeros((n, n)))
jax.scipy.linalg.expm(0.125 * A) @ (A @ v) - A @ (jax.scipy.linalg.expm(0.125 * A) @ v)
v.reshape((-1, 1))
v.reshape((n, 1))[:, 0]
v.reshape((-1,))
v.flatten()
jnp.sum(v)
jnp.sum(A, axis=0)
A.sum(axis=1)
v.sum()
v.shape[0]
R.shape
A.ndim
jnp.stack([v, w])
jnp.stack((v, w), axis=1)
jax.vmap(lambda c: A @ c, in_axes=1, out_axes=1)(R)
jax.vmap(lambda c: A @ c, 1, 1)(B)
jax.vmap(lambda c: A @ c)(B)
jnp.real(v)
jnp.real(v + 1j * w)
f + g
f * g - s
f / (g * g + 1)
f ** 2
f[0]
f[-1]
f[1:]
f[1:-1]
f[n - 1]
f.at[0].set(s)
f.at[1:].set(g[1:])
f.at[1:].set(g[1:] - g[:-1])
jnp.exp(f)
jnp.minimum(f, s)
jnp.abs(f)
jnp.concat([f, g])
jnp.concat([jnp.asarray([s]), f])
jnp.linspace(s, b, n)
np.arange(n)
jnp.flip(f)
f.shape[0]
jnp.abs(v) - s * w
jnp.abs(2.0 * v - w)
jnp.mean(v)
jnp.max(jnp.abs(v))
jnp.max(2.0 * v)
jnp.min(jnp.abs(w))
jnp.diag(v, -1)
jnp.diag(u, 2)
jnp.diag(A)
jnp.diag(jnp.diag(v))
jnp.diag(v) @ A - A @ jnp.diag(w)
jnp.vdot(v, w)
jnp.linalg.norm(jnp.concat((v, u)))
jnp.linalg.norm(jnp.concat((v, jnp.asarray([s]))), jnp.inf)
jnp.dot(jnp.ones_like(v), v)
jnp.zeros((m * n,)).shape[0]
jnp.concat((v, v, u)).shape[0]
jnp.asarray(v)
np.asarray(A) @ np.asarray(v)
A.T @ A
(A @ B).T
(A + B).T @ v
A[0] @ v
A[:, 0]
A[:, -1]
R[:, 1]
A[1:, :1]
A[:-1, :-1]
v[0]
v[-1]
v[0] * w[1]
v[1:]
v[:2]
jnp.concat((v, u))[n - 1]
jnp.concat((v, u))[n + 1]
jnp.vstack((A, B))[n:, :]
jnp.vstack((A, B))[n - 1]
jnp.hstack((A, B))[:, n:2 * n]
jnp.zeros((n, m)).at[0, 0].set(s)
jnp.zeros((n, 3)).at[:, 0].set(v).at[:, 2].set(w)
jnp.zeros((n, 3)).at[:, 0].set(v).at[:, 1].set(A @ v) @ x
jnp.zeros((3, 3)).at[0, 1].set(v @ w).at[2, :].set(x)
jnp.zeros((n, 3)).at[:, 0].set(v)[:, :2] @ x[:2]
jnp.stack([v, w], axis=1).T @ v
A @ jnp.stack([v, w], axis=1)
x @ jnp.stack([v, w, v + w])
jnp.asarray([v, w])
jnp.linalg.solve(jnp.diag(v), w)
jnp.linalg.solve(A * s, v)
jnp.linalg.solve(A.T, v)
jnp.linalg.inv(jnp.diag(v)) @ w
jax.scipy.linalg.solve_triangular(jax.scipy.linalg.qr(A)[1], jax.scipy.linalg.qr(A)[0].T @ v)
jax.scipy.linalg.expm(jnp.block([[0.125 * A, v.reshape(-1, 1)], [jnp.zeros((1, n)), jnp.zeros((1, 1))]]))
jax.scipy.linalg.expm(jnp.block([[0.125 * A, R], [jnp.zeros((m, n)), jnp.zeros((m, m))]]))
jnp.exp(s)
jnp.exp(s) * jnp.exp(a) - jnp.exp(s + a)
jnp.log(jnp.exp(s))
jnp.sqrt(s) ** 2
f.sum() * 0
f.max() * 0
jnp.clip(f, -0.25, 0.25)
jnp.floor(f)
f.at[0].add(s)
f.at[-1].set(s)
f.at[:2].set(0.0)
jnp.concat([f[1:], f[:1]])
(f * 2)[1:] - f[:-1]
jnp.zeros(n).at[0].set(s) + v
G.at[1:, 1:].add(H[1:, 1:])
G.at[0].get()
x.at[0].set(y[2])
G[::-1]
G[jnp.array([0, 2])]
jnp.linalg.solve(G, x)
np.linalg.inv(H) @ x
x[jnp.array([2, 0])]
G[:, None, :].shape
G.sum()
G.mean()
G.max()
G.conj()
x.T
G.reshape(-1, 1)
G.reshape((1, 9))
np.linalg.inv(jnp.diag(x))
np.linspace(a, b, 4)[1:]
np.round(2.0)
x.copy()
np.ndim(s)
""" + """
f.shape[0]
jnp.where(s < b, a, b)
"""


def cases():
    return [c for c in CASES.strip().split("\n") if c.strip()]


def flat(r):
    """nested result -> list of complex numbers (real half)"""
    import numpy as np
    if isinstance(r, (tuple, list)):
        out = []
        for z in r:
            out += flat(z)
        return out
    return [complex(z) for z in np.asarray(r).reshape(-1)]


def real(data):
    os.environ["JAX_PLATFORMS"] = "cpu"
    import math
    import numpy as np
    import jax
    jax.config.update("jax_enable_x64", True)
    import jax.numpy as jnp
    import jax.scipy.linalg
    import jax.scipy.special
    env = dict(jnp=jnp, np=np, jax=jax, math=math, n=N, m=Mm, **SCAL)
    for k, v in list(EXPL.items()) + list(data.items()):
        env[k] = jnp.asarray(v)
    out = []
    for c in cases():
        try:
            out.append([[z.real, z.imag] for z in flat(eval(c, dict(env)))])
        except Exception as e:
            out.append("%s: %s" % (type(e).__name__, str(e)[:150]))
    return out


def stub():
    import ast
    import numpy as np
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from . import load, lin, terms
    from .explore import CTX
    from .terms import Sc, B
    from .lin import Arr, EArr, PArr, Stack3
    res, data = [], {}

    def entries(r):
        if isinstance(r, (tuple, list)):
            out = []
            for z in r:
                out += entries(z)
            return out
        if isinstance(r, PArr):
            return [r.f(Sc.of(i)) for i in range(LEN(r))]
        if isinstance(r, Stack3):
            return [z for p in r.parts for z in entries(p)]
        if isinstance(r, np.ndarray):
            return [z for z in r.reshape(-1)]
        return [r]
    it = terms.Interp("conform")
    na = lin.NumArr(it)

    def LEN(p):
        return na.dim(p.n)

    def number(z):
        if isinstance(z, Arr):
            m = na.arr(z)
            return [complex(q) for q in np.asarray(m).reshape(-1)]
        if isinstance(z, B):
            lin._touch(z, na)
            return [complex(bool(it.b(z)))]
        if isinstance(z, (bool, int, float)):
            return [complex(z)]
        return [complex(na.scal(Sc.of(z)))]
    for c in cases():
        got = []

        def fn():
            it.cache.clear()
            na.ops.clear()
            W = load.World()
            env = dict(jnp=W.libs["jax.numpy"], np=W.libs["numpy"], jax=W.libs["jax"], math=W.libs["math"])
            n, m = Sc.sym("n", "I"), Sc.sym("m", "I")
            for q, val in ((n, N), (m, Mm)):
                CTX.assume(terms.cmp_("<=", 2, q))
                it.cache[lin_atom(q)] = val
            env.update(n=n, m=m)
            for k, v in SCAL.items():
                env[k] = Sc.lit(repr(v))
            for k, v in EXPL.items():
                env[k] = lin.emap(lambda z: Sc.lit(repr(float(z))), np.array(v, dtype=object))
            for k, d in BLOCK.items():
                env[k] = Arr.vec(k, n if d[0] == "n" else m) if len(d) == 1 else Arr.mat(k, n, n if d[1] == "n" else m)
                a = na.arr(env[k])
                data[k] = (a.reshape(-1) if len(d) == 1 else a).tolist()
            for k in POINT:
                env[k] = PArr.sym(k, n)
                data[k] = [float(it.sc(env[k].f(Sc.of(i)))) for i in range(N)]
            tree = ast.parse("def F(%s):\n    return %s" % (", ".join(env), c))
            tree = load.Tr("conform").visit(tree)
            ast.fix_missing_locations(tree)
            g = {"__builtins__": W.builtins()}
            exec(compile(tree, c, "exec"), g)
            r = g["F"](**env)
            es = entries(r)
            for b in CTX.bs:
                lin._touch(b, na)
            if all(it.b(b) for b in CTX.bs):
                vals = []
                for z in es:
                    vals += number(z)
                got.append([[z.real, z.imag] for z in vals])

        def lin_atom(q):
            (mono, _), = q.p.items()
            return mono[0][0]
        k0 = len(CTX.unsupported)
        CTX.run(c, fn)
        if len(CTX.unsupported) > k0:
            res.append("unsupported: " + CTX.unsupported[-1][:150])
        elif len(got) != 1:
            res.append("%d paths apply" % len(got))
        else:
            res.append(got[0])
    return res, data


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "real":
        json.dump(real(json.load(sys.stdin)), sys.stdout)
        return 0
    res, data = stub()
    env = dict(os.environ, JAX_PLATFORMS="cpu")
    p = subprocess.run(["/opt/venv/bin/python", os.path.abspath(__file__), "real"], input=json.dumps(data), text=True,
                       capture_output=True, env=env)
    want = json.loads(p.stdout)
    bad, uns, ok = [], [], 0
    for c, g, w in zip(cases(), res, want):
        if isinstance(g, str) and g.startswith("unsupported"):
            uns.append((c, g))
        elif isinstance(g, str) or isinstance(w, str):
            bad.append((c, g, w))
        elif len(g) != len(w) or any(abs(complex(*p) - complex(*q)) > 1e-8 * (1 + abs(complex(*q))) for p, q in zip(g, w)):
            bad.append((c, g, w))
        else:
            ok += 1
    out = dict(cases=len(want), agree=ok, outside_subset=[c for c, _ in uns], disagree=[c for c, _, _ in bad])
    if "-v" in sys.argv:
        for c, g in uns:
            print("UNSUPPORTED", c, g)
        for c, g, w in bad:
            print("DISAGREE", c, "\n   stub", str(g)[:300], "\n   real", str(w)[:300])
    print(json.dumps(out if "-v" not in sys.argv else {k: (v if isinstance(v, int) else len(v)) for k, v in out.items()}))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
