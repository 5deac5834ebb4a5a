"""Symbolic contracts of the array libraries (jax, numpy, equinox, scipy, skfem, ...).

Each function here states what the verifier assumes about the library function of the
same name.  The stubs are exercised against the real library by ovc/conform.py.
"""
import builtins
import math
import types
import numpy as np
from fractions import Fraction

from . import terms, lin
from .terms import Sc, B, Unsupported, I_
from .lin import Arr, MArr, EArr, PArr, Stack3, Op, LT, KA, earr, emap, ctx

LOOPS = []           # while_loop / fori_loop contracts: callables(kind, args) -> result or NotImplemented
FILL_HOOK = []  # first element, if any: (shape, value) -> array of a specification or None
ZERO_KIND = ["arr"]  # representation of symbolic-length zero vectors
UNROLL = [40]
WARN = [lambda *a, **k: None]
THREADS = [False]         # explore both execution orders of submitted work


class Missing:
    """library attribute without a contract: any use is outside the subset"""

    def __init__(self, name):
        self._name = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Missing(self._name + "." + k)

    def __call__(self, *a, **k):
        raise Unsupported("library function without contract: " + self._name)

    def __repr__(self):
        return "<no contract: %s>" % self._name


class Mod(types.ModuleType):
    def __init__(self, name, **kw):
        super().__init__(name)
        self.__dict__.update(kw)
        self.__path__ = []

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Missing(self.__name__ + "." + k)


def isarr(x):
    return isinstance(x, (Arr, EArr, PArr, np.ndarray, Stack3))


class _ArrayMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Arr, EArr, PArr, np.ndarray, Sc))


class Array(metaclass=_ArrayMeta):
    pass


# ------------------------------------------------------------------ creation
def _conc(s):
    if isinstance(s, int):
        return s
    if isinstance(s, Sc):
        c = s.const()
        if c is not None and c.denominator == 1:
            return int(c)
        return None
    if isinstance(s, np.integer):
        return int(s)
    return None


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(s)
    return (s,)


class PTable:
    """n x c array, n symbolic: one array per column"""
    ndim = 2
    abstract_array = True
    dtype = "real"
    __hash__ = None

    def __init__(self, cols):
        self.cols = cols

    @property
    def shape(self):
        return self.cols[0].shape + (len(self.cols),)

    def at_(self, ix):
        if not isinstance(ix, tuple) or len(ix) != 2:
            raise Unsupported("row of a table")
        c = _conc(ix[1])
        if c is None or not terms._scalarish(ix[0]) and not isinstance(ix[0], slice):
            raise Unsupported("entry of a table")
        return self.cols[c], ix[0]

    def __getitem__(self, ix):
        if terms._scalarish(ix):
            return earr([c[ix] for c in self.cols])
        c, r = self.at_(ix)
        return c[r]

    def __setitem__(self, ix, v):
        if terms._scalarish(ix):
            if isinstance(v, (list, tuple, np.ndarray)) and len(v) == len(self.cols):
                for c, y in zip(self.cols, v):
                    c[ix] = y
                return
            raise Unsupported("row of a table")
        c, r = self.at_(ix)
        c[r] = v


def filled(shape, v):
    shape = _shape(shape)
    if FILL_HOOK:
        a = FILL_HOOK[0](shape, v)
        if a is not None:
            return a
    cs = [_conc(x) for x in shape]
    if all(c is not None for c in cs):
        a = np.empty(tuple(cs), dtype=object)
        a.fill(Sc.of(v))
        return a.view(EArr)
    if len(shape) == 1 and ZERO_KIND[0] == "parr":
        return PArr(shape[0], lambda i: Sc.of(v))
    if len(shape) == 2 and ZERO_KIND[0] == "parr" and cs[1] is not None:
        return PTable([PArr(shape[0], lambda i: Sc.of(v)) for _ in range(cs[1])])
    z = Arr.zeros(shape)
    if not Sc.of(v).p:
        return z
    return lin.ones_like(z) * v


def zeros(shape, dtype=None, **k):
    return filled(shape, 0)


def ones(shape, dtype=None, **k):
    return filled(shape, 1)


def full(shape, v, dtype=None, **k):
    return filled(shape, v)


def zeros_like(x, dtype=None, **k):
    if isinstance(x, Arr):
        return Arr.zeros(x.shape)
    if isinstance(x, PArr):
        return PArr(x.n, lambda i: Sc.of(0))
    return filled(np.shape(x), 0)


def ones_like(x, **k):
    if isinstance(x, Arr):
        return lin.ones_like(x)
    return filled(np.shape(x), 1)


def eye(N, M=None, k=0, dtype=None):
    c, k, k_ = _conc(N), _conc(k), Sc.of(k)
    m = c if M is None else _conc(M)
    if k is None:
        return shifted_eye(N, N if M is None else M, k_)
    if c is not None and m is not None:
        return earr(np.eye(c, m, k, dtype=int))
    if M is not None and not terms.cmp_("==", N, M).const():
        raise Unsupported("rectangular identity of symbolic size")
    return Arr.eye(N) if k == 0 else diag(lin.ones_like(Arr.zeros((Sc.of(N) - abs(k),))), k)


def shifted_eye(N, M, k):
    """N x N, ones at (i, i + k) for a symbolic offset"""
    N = Sc.of(N)
    if not terms.cmp_("==", N, M).const():
        raise Unsupported("rectangular identity of symbolic size")
    up = lin.entails(terms.cmp_("<=", 0, k))
    s = k if up else -k
    if not lin.entails(terms.cmp_("<=", 0, s) & terms.cmp_("<=", s, N)):
        raise Unsupported("identity with a symbolic offset")
    r = N - s
    if up:
        return block([[zeros((r, s)), eye(r)], [zeros((s, s)), zeros((s, r))]])
    return block([[zeros((s, r)), zeros((s, s))], [eye(r), zeros((r, s))]])


def array(x, dtype=None, **k):
    x = _array(x)
    return x if dtype is None else convert(x, dtype)


def _array(x):
    if is_seq(x):
        return seq_array(x)
    if isinstance(x, MArr):
        return Arr(x.ndim, x.rp, x.cp, dict(x.bl))
    if isinstance(x, (Arr, PArr, Stack3)) or getattr(x, "abstract_array", False):
        return x
    if isinstance(x, (Sc, B)):
        return x
    if isinstance(x, EArr):
        return x.copy()
    if isinstance(x, (list, tuple)) and any(isinstance(y, Arr) for y in x):
        if all(isinstance(y, Arr) and y.ndim == 2 for y in x):
            return Stack3(list(x), 0)
        if all(isinstance(y, Arr) and y.ndim == 1 for y in x):
            return lin.vcat(list(x))
        raise Unsupported("array of mixed arrays")
    if isinstance(x, (list, tuple)) and any(isinstance(y, PArr) for y in x):
        raise Unsupported("array of symbolic-length arrays")
    if isinstance(x, (int, float, Fraction, complex)):
        return Sc.of(x)
    return earr(x)


def np_array(x, dtype=None, **k):
    r = array(x, dtype, **k)
    return MArr(r) if isinstance(r, Arr) else r


def np_asarray(x, dtype=None, **k):
    if dtype is None and isinstance(x, MArr):
        return x
    return array(x, dtype, **k)


asarray = array


def concat(parts, axis=0, **k):
    parts = list(parts)
    if all(isinstance(p, (EArr, list, tuple, np.ndarray)) for p in parts):
        return earr(np.concatenate([np.asarray(p, dtype=object) for p in parts], axis=axis))
    if any(isinstance(p, PArr) for p in parts):
        return pconcat(parts)
    parts = [earr(p) if isinstance(p, (list, tuple)) else p for p in parts]
    if all(p.ndim == 1 for p in parts):
        return lin.concat(parts)
    if axis == 0:
        return lin.vcat(parts)
    return lin.hcat(parts)


def pconcat(parts):
    ps = []
    for p in parts:
        if isinstance(p, PArr):
            ps.append(p)
        else:
            e = earr(p) if not isinstance(p, EArr) else p

            def f(i, e=e):
                if Sc.of(i).is_const():
                    return e[int(Sc.of(i))]
                for j in range(e.shape[0]):
                    if bool(terms.cmp_("==", i, j)):
                        return e[j]
                return e[e.shape[0] - 1]
            ps.append(PArr(e.shape[0], f))
    tot = Sc.of(0)
    for p in ps:
        tot = tot + p.n

    def g(i):
        off = Sc.of(0)
        for p in ps[:-1]:
            if bool(terms.cmp_("<", i, off + p.n)):
                return p.f(i - off)
            off = off + p.n
        return ps[-1].f(i - off)
    return PArr(tot, g)


def is_seq(x):
    return getattr(x, "abstract_seq", False) and x.generic is None


def seq_array(x, axis=0):
    """array of the elements of an abstract sequence along a new axis"""
    g = Sc.sym("seq.i", "I", nonneg=True)
    v = x.item(g)
    if terms._scalarish(v):
        return PArr(x.hi, lambda i: Sc.of(x.item(Sc.of(i))))
    if not isinstance(v, Arr) or v.ndim != 1:
        raise Unsupported("array of an abstract sequence")
    m = lin.seqcols(v, g, x.hi)
    return m.T if axis == 0 else m


def vstack(parts, **k):
    if is_seq(parts):
        return seq_array(parts, 0)
    parts = list(parts)
    if any(isinstance(p, Arr) for p in parts):
        return lin.vcat([p if isarr(p) else earr(p) for p in parts])
    return earr(np.vstack([np.asarray(p, dtype=object) for p in parts]))


def hstack(parts, **k):
    parts = list(parts)
    if any(isinstance(p, Arr) for p in parts):
        if all(p.ndim == 1 for p in parts):
            return lin.concat(parts)
        return lin.hcat(parts)
    return earr(np.hstack([np.atleast_1d(np.asarray(p, dtype=object)) for p in parts]))


def column_stack(parts, **k):
    if is_seq(parts):
        return seq_array(parts, 1)
    parts = list(parts)
    if any(isinstance(p, Arr) for p in parts):
        return lin.hcat([p if isarr(p) else earr(p) for p in parts])
    return earr(np.column_stack([np.asarray(p, dtype=object) for p in parts]))


def stack(parts, axis=0, **k):
    if is_seq(parts) and axis in (0, 1, -1):
        return seq_array(parts, 0 if axis == 0 else 1)
    parts = list(parts)
    if any(isinstance(p, Arr) for p in parts):
        if axis == 0 and all(p.ndim == 2 for p in parts):
            return Stack3(parts, 0)
        if all(p.ndim == 1 for p in parts):
            m = lin.vcat(parts)
            return m if axis == 0 else m.T
        raise Unsupported("stack")
    return earr(np.stack([np.asarray(p, dtype=object) for p in parts], axis=axis))


def block(rows):
    def any_arr(x):
        return isinstance(x, Arr) or (isinstance(x, (list, tuple)) and any(any_arr(y) for y in x))
    if any_arr(rows):
        return lin.block(rows)
    return earr(np.block([[np.asarray(y, dtype=object) for y in r] for r in rows]))


def diag(x, k=0):
    if isinstance(x, PArr):
        raise Unsupported("diag of symbolic-length array")
    if isinstance(x, Arr):
        if x.ndim == 1:
            k = _conc(k)
            if k is None:
                raise Unsupported("symbolic diagonal offset")
            if k != 0:
                if len(x.rp) != 1:
                    raise Unsupported("off-diagonal of a block vector")
                n = x.rp[0] + abs(int(k))
                out = Arr.zeros((n, n))
                for w, c in x.bl.get((0, 0), {}).items():
                    out = out + Arr.from_op(Op.get("sym", "offdiag", n, n, (Sc.of(k), LT({w: Sc.of(1)})))) * c
                return out
            return lin.diag(x)
        if not x.is_lin():
            raise Unsupported("diag of a block matrix")
        return Arr.from_op(Op.get("app", "diagof", lin.psum(x.rp), Sc.of(1), (KA(x),)), 1)
    if x.ndim == 1:
        n = x.shape[0] + abs(int(Sc.of(k)))
        out = zeros((n, n))
        k = int(Sc.of(k))
        for i in range(x.shape[0]):
            if k >= 0:
                out[i, i + k] = x[i]
            else:
                out[i - k, i] = x[i]
        return out
    return earr(np.asarray(x, dtype=object).diagonal(int(Sc.of(k))))


def linspace(a, b, n=50, **k):
    a, b = Sc.of(a), Sc.of(b)
    c = _conc(n)
    if c is not None:
        if c == 1:
            return earr([a])
        return earr([a + (b - a) * Fraction(i, c - 1) for i in range(c)]) if c else earr(np.zeros(0, dtype=object))
    n = Sc.of(n)
    return PArr(n, lambda i: a + (b - a) * Sc.of(i) / (n - 1))


def arange(*a, **k):
    if all(_conc(x) is not None for x in a):
        return earr(np.arange(*[_conc(x) for x in a]))
    if len(a) == 1:
        return PArr(a[0], lambda i: Sc.of(i))
    if len(a) == 2 or len(a) == 3 and _conc(a[2]) == 1:
        lo, hi = Sc.of(a[0]), Sc.of(a[1])
        if lo.is_int() and hi.is_int() and lin.entails(terms.cmp_("<=", lo, hi)):
            return PArr(hi - lo, lambda i: lo + Sc.of(i))
    raise Unsupported("arange")


def iota(dtype, n):
    return arange(n)


# --------------------------------------------------------------- elementwise
def umap(f, x, name=None):
    if isinstance(x, (list, tuple)):
        x = array(x)
    if isinstance(x, PArr):
        return x.map(f)
    if isinstance(x, Arr):
        if name:
            if not x.is_lin() and x.ndim == 1:
                raise Unsupported(name + " of a block vector")
            return Arr.from_op(Op.get("app", name, lin.psum(x.rp), lin.psum(x.cp), (KA(x),)), x.ndim)
        raise Unsupported("elementwise function of an abstract array")
    if isinstance(x, np.ndarray):
        return emap(lambda y: f(Sc.of(y)), x)
    return f(Sc.of(x))


def bmap(f, x, y):
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        xa, ya = np.broadcast_arrays(np.asarray(x, dtype=object), np.asarray(y, dtype=object))
        out = np.empty(xa.shape, dtype=object)
        for i in np.ndindex(xa.shape):
            out[i] = f(Sc.of(xa[i]), Sc.of(ya[i]))
        return out.view(EArr)
    if isinstance(x, PArr) or isinstance(y, PArr):
        p = x if isinstance(x, PArr) else y
        fx = x.f if isinstance(x, PArr) else (lambda i: Sc.of(x))
        fy = y.f if isinstance(y, PArr) else (lambda i: Sc.of(y))
        return PArr(p.n, lambda i: f(fx(i), fy(i)))
    return f(Sc.of(x), Sc.of(y))


def sin_(s):
    s = Sc.of(s)
    return Sc.of(0) if not s.p else Sc.app("sin", s)


def cos_(s):
    s = Sc.of(s)
    return Sc.of(1) if not s.p else Sc.app("cos", s)


def log2_(s):
    return terms.log_(s) / terms.log_(Sc.of(2)) if Sc.of(s).const() != 2 else Sc.of(1)


def power_(x, y):
    x, y = Sc.of(x), Sc.of(y)
    return x ** y


exp = lambda x: umap(terms.exp_, x)
log = lambda x: umap(terms.log_, x)


def log2(x):
    return umap(log2_, x)




def sqrt1(x):
    v = lin.SQUARES.get(x.key())
    if v is not None:
        return lin.norm(v)
    return terms.sqrt_(x)


sqrt = lambda x: umap(sqrt1, x)


def cbrt_(x):
    if not lin.entails(terms.cmp_("<=", 0, x)):
        raise Unsupported("cube root of a number that may be negative")
    return x ** Fraction(1, 3)


cbrt = lambda x: umap(cbrt_, x)
sin = lambda x: umap(sin_, x)
cos = lambda x: umap(cos_, x)
floor = lambda x: umap(terms.floor_, x)
ceil = lambda x: umap(terms.ceil_, x)
real = lambda x: lin.real_arr(x) if isinstance(x, Arr) else umap(terms.real_, x)
imag = lambda x: umap(terms.imag_, x)
conj = lambda x: umap(terms.conj_, x)
absolute = lambda x: umap(terms.abs_, x, "absv")
square = lambda x: x * x
power = lambda x, y: bmap(power_, x, y)
minimum = lambda x, y: bmap(terms.min_, x, y)
maximum = lambda x, y: bmap(terms.max_, x, y)
sign = Missing("sign")


def clip(x, lo=None, hi=None, **k):
    lo = k.get("min", k.get("a_min", lo))
    hi = k.get("max", k.get("a_max", hi))

    def f(s):
        if lo is not None:
            s = terms.max_(s, lo)
        if hi is not None:
            s = terms.min_(s, hi)
        return s
    return umap(f, x)


def where(c, x=None, y=None):
    if x is None:
        raise Unsupported("one-argument where")
    if isinstance(c, (B, bool)):
        return x if bool(c) else y
    if isinstance(c, np.ndarray):
        xa = np.broadcast_to(np.asarray(x, dtype=object), c.shape)
        ya = np.broadcast_to(np.asarray(y, dtype=object), c.shape)
        out = np.empty(c.shape, dtype=object)
        for i in np.ndindex(c.shape):
            out[i] = Sc.of(xa[i]) if bool(np.ndarray.__getitem__(c, i)) else Sc.of(ya[i])
        return out.view(EArr)
    raise Unsupported("where")


# ---------------------------------------------------------------- reductions
def _reduce(x, f, init=None):
    x = array(x)
    if isinstance(x, Sc):
        return x
    if isinstance(x, np.ndarray):
        it = list(x.flat)
        r = Sc.of(it[0]) if init is None else Sc.of(init)
        for y in (it[1:] if init is None else it):
            r = f(r, y)
        return r
    return None


def amax(x, axis=None, **k):
    if axis is None:
        r = _reduce(x, terms.max_)
        if r is not None:
            return r
        v = lin.abs_arg(x) if isinstance(x, Arr) else None
        if v is not None:
            return v[0] * lin.norm(v[1], "inf")
        if isinstance(x, PArr):
            return parr_max(x)
        return Sc.app("amax", KA(x))
    raise Unsupported("max over axis")


def parr_max(x):
    """largest element of an array of symbolic length: its value at an unknown position, not below any other"""
    c = ctx()
    c.prove("maximum of a nonempty sequence", terms.cmp_("<", 0, x.n))
    w = Sc.fresh("at", "I", nonneg=True)
    c.assume(terms.cmp_("<=", 0, w) & terms.cmp_("<", w, x.n))
    m, e = x.f(w), _Elements(x)
    c.maxima.append((m, e, w))
    if lin.entails(terms.cmp_("<", 0, x.n)):
        c.assume(terms.cmp_("<=", e.item(Sc.of(0)), m))
    return m


def amin(x, axis=None, **k):
    if axis is None:
        r = _reduce(x, terms.min_)
        if r is not None:
            return r
        return Sc.app("amin", KA(x) if isinstance(x, Arr) else x.ident())
    raise Unsupported("min over axis")


def sum_(x, axis=None, **k):
    if isinstance(x, Arr):
        if x.ndim == 1 and axis in (None, 0, -1):
            v = lin.abs_arg(x)
            return v[0] * lin.norm(v[1], 1) if v is not None else lin.vsum(x)
        if x.ndim == 2 and axis in (1, -1):
            return lin.matmul(x, lin.ones_like(Arr.zeros((x.shape[1],))))
        if x.ndim == 2 and axis in (0, -2):
            return lin.matmul(x.T, lin.ones_like(Arr.zeros((x.shape[0],))))
        raise Unsupported("sum")
    if isinstance(x, PArr):
        if axis not in (None, 0, -1):
            raise Unsupported("sum")
        return Sc.app("psum", x.ident())
    return array(x).sum(axis=axis)


def generic_element(x):
    """element at the symbol seq.i, an arbitrary position of x; the assumption on the symbol is dropped afterwards"""
    c = ctx()
    g = Sc.sym("seq.i", "I", nonneg=True)
    keep = list(c.zs), list(c.bs), dict(c.known), set(c.ids), len(c.worklist)
    c.assume(terms.cmp_("<=", 0, g) & terms.cmp_("<", g, x.n))
    e = x.f(g)
    if len(c.worklist) != keep[4]:
        raise Unsupported("elements of an array are not given by one expression")
    c.zs, c.bs, c.known, c.ids = keep[:4]
    return e


def prod_(x, axis=None, **k):
    if isinstance(x, PArr):
        c = _conc(x.n)
        if c is not None and c <= 64:
            r = Sc.of(1)
            for i in range(c):
                r = r * x.f(Sc.of(i))
            return r
        return Sc.app("pprod", generic_element(x), x.n)
    return array(x).prod(axis=axis)


def mean_(x, axis=None, **k):
    if isinstance(x, PArr):
        return Sc.app("pmean", x.ident())
    if isinstance(x, Arr):
        return Sc.app("mean", KA(x))
    x = array(x)
    return x if isinstance(x, Sc) else x.mean(axis=axis)


def cumsum(x, axis=None, **k):
    if array(x).ndim != 1:
        raise Unsupported("cumsum")
    out, r = [], Sc.of(0)
    for y in array(x).flat:
        r = r + y
        out.append(r)
    return earr(out)


def cumprod(x, axis=None, **k):
    if array(x).ndim != 1:
        raise Unsupported("cumprod")
    out, r = [], Sc.of(1)
    for y in array(x).flat:
        r = r * y
        out.append(r)
    return earr(out)


class _Elements:
    """the elements of an array as they are now"""

    def __init__(self, x):
        self.hi, self.item = x.n, x.f


def argmax(x, axis=None, **k):
    x = array(x)
    if axis is not None and x.ndim != 1:
        raise Unsupported("argmax over an axis")
    if isinstance(x, PArr):
        c = ctx()
        c.prove("maximum of a nonempty sequence", terms.cmp_("<", 0, x.n))
        w = Sc.fresh("at", "I", nonneg=True)
        c.assume(terms.cmp_("<=", 0, w) & terms.cmp_("<", w, x.n))
        c.maxima.append((x.f(w), _Elements(x), w))
        if c.on_max:
            c.on_max(w)
        return w
    best, bi = None, 0
    for i, y in enumerate(x.flat):
        if best is None or bool(terms.cmp_("<", best, y)):
            best, bi = y, i
    return bi


def argmin(x, axis=None, **k):
    x = array(x)
    if isinstance(x, PArr) or axis is not None and x.ndim != 1:
        raise Unsupported("argmin")
    best, bi = None, 0
    for i, y in enumerate(x.flat):
        if best is None or bool(terms.cmp_("<", y, best)):
            best, bi = y, i
    return bi


def dot(a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        a = lin.from_earr(a) if isinstance(a, EArr) else a
        b = lin.from_earr(b) if isinstance(b, EArr) else b
        return lin.matmul(a, b)
    if isinstance(a, (Sc, int)) or isinstance(b, (Sc, int)):
        return a * b
    return np.dot(a, b)


def norm(x, ord=None, axis=None, **k):
    if axis is not None:
        raise Unsupported("norm over axis")
    if isinstance(x, Sc):
        return terms.abs_(x)
    return lin.norm(x, ord)


def tile(x, reps):
    return earr(np.tile(np.asarray(array(x), dtype=object), tuple(int(Sc.of(r)) for r in _shape(reps))))


def isclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8)):
    return terms.cmp_("<=", terms.abs_(Sc.of(a) - b), Sc.of(atol) + Sc.of(rtol) * terms.abs_(b))


def allclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8)):
    r = terms.TRUE
    if isinstance(a, Arr) and a.ndim == 1 and terms._scalarish(b) and Sc.of(b).const() == 0:
        return terms.cmp_("<=", lin.norm(a, "inf"), atol)
    if isinstance(a, PArr) or isinstance(b, PArr):
        if not (generic_element(a - b).p):
            return terms.TRUE
        raise Unsupported("comparison of the elements of two arrays")
    a, b = array(a), array(b)
    if isinstance(a, Sc):
        return isclose(a, b, rtol, atol)
    for x, y in zip(a.flat, np.broadcast_to(b, a.shape).flat):
        r = r & isclose(x, y, rtol, atol)
    return r


def all_(x, **k):
    if isinstance(x, lin.EntryCmp):
        return x.all()
    r = terms.TRUE
    for y in np.asarray(x, dtype=object).flat:
        r = r & B.of(y)
    return r


def any_(x, **k):
    if isinstance(x, lin.EntryCmp):
        return x.any()
    if isinstance(x, (B, bool)):
        return B.of(x)
    r = terms.FALSE
    for y in np.asarray(x, dtype=object).flat:
        r = r | B.of(y)
    return r


def round_(x, decimals=0, **k):
    c = Sc.of(x).const() if terms._scalarish(x) else None
    if c is None or decimals:
        raise Unsupported("round")
    return Sc.of(round(c))


def ndim(x):
    return 0 if terms._scalarish(x) else x.ndim


def shape(x):
    return x.shape


class finfo:
    def __init__(self, dt=None):
        self.eps = Sc.sym("mach_eps", pos=True)
        self.tiny = Sc.sym("mach_tiny", pos=True)


def outer(a, b):
    return earr([[x * y for y in b.flat] for x in a.flat])


def triu(a, k=0):
    out = a.copy()
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            if j < i + k:
                out[i, j] = Sc.of(0)
    return out


def tril(a, k=0):
    out = a.copy()
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            if j > i + k:
                out[i, j] = Sc.of(0)
    return out


def fill_diagonal(a, v, **k):
    if k.get("inplace") is False:
        a = a.copy()
    v = array(v)
    for i in range(min(a.shape)):
        a[i, i] = v[i] if isinstance(v, np.ndarray) else v
    return a if k.get("inplace") is False else None


def flip(x, axis=None, **k):
    if isinstance(x, np.ndarray):
        return earr(np.flip(np.asarray(x, dtype=object), axis))
    if isinstance(x, PArr) and axis in (None, 0, -1):
        f, n = x.f, x.n
        return PArr(n, lambda i: f(n - 1 - i))
    raise Unsupported("flip")


def trapezoid(*a, **k):
    raise Unsupported("trapezoid")


def _trunc(x):
    x = Sc.of(x)
    if x.const() is not None:
        return Sc.of(int(math.trunc(x.const())))
    if x.is_int():
        return x
    raise Unsupported("integer conversion of a symbolic real")


def convert(x, dtype):
    """value of x after conversion to dtype: exact, except that integers truncate"""
    nm = dtype if isinstance(dtype, str) else getattr(dtype, "__name__", None)
    if dtype is None or nm in ("f8", "f4", "c16", "c8", "o_float", "float", "complex", "real", "object", "float64", "float32", "complex128"):
        return x
    if nm in ("i8", "i4", "o_int", "int", "int64", "int32"):
        if isinstance(x, np.ndarray):
            return emap(_trunc, x)
        if isinstance(x, PArr):
            return x.map(_trunc)
        if isinstance(x, (Sc, int)):
            return _trunc(x)
        if isinstance(x, Arr) and x.is_zero():
            return x
    if nm in ("bool", "o_bool"):
        def tb(y):
            return y if isinstance(y, B) else ~terms.cmp_("==", y, 0)
        if isinstance(x, np.ndarray):
            return emap(tb, x)
        if isinstance(x, (Sc, B)):
            return tb(x)
    raise Unsupported("conversion to %r" % (nm,))


def astype(x, t):
    if t in ("f4", "c8"):
        raise Unsupported("conversion to single precision")
    return convert(x, t)


def _method(f, conv=False):
    def m(self, *a, **k):
        return f(self, *a, **k)
    return m


def _methods():
    S = strict
    for c in (Arr, PArr, EArr):
        c.astype = lambda self, t, *a, **k: astype(self, t)
        for n, f in dict(min=amin, max=amax, argmin=argmin, argmax=argmax).items():
            setattr(c, n, _method(S(f)))
    for c in (Arr, PArr):
        for n, f in dict(sum=sum_, prod=prod_, mean=mean_, conj=conj, conjugate=conj, clip=clip).items():
            setattr(c, n, _method(S(f)))
    Arr.__abs__ = PArr.__abs__ = lambda self: absolute(self)
    EArr.conjugate = EArr.conj
    EArr.clip = _method(S(clip))
    PArr.ravel = PArr.flatten
    for n in ("sum", "prod", "mean"):
        setattr(EArr, n, S(getattr(EArr, n)))


def vdot(a, b):
    if isinstance(a, Arr):
        if any(lin._has_i(LT(t)) for t in a.bl.values()):
            raise Unsupported("vdot of complex block vectors")
        return dot(a, b)
    return dot(conj(a), b)


def _bool_and(a, b):
    return B.of(a) & B.of(b)


def _bool_or(a, b):
    return B.of(a) | B.of(b)


def _bool_not(a):
    return ~B.of(a)


# -------------------------------------------------------------- linear algebra
def expm(m, **k):
    return lin.phi(0, m) if not isinstance(m, EArr) else earr_expm(m)


def earr_expm(m):
    """exact exponential of explicit matrices: scalar or bidiagonal matrices only"""
    n = m.shape[0]
    if n == 1:
        return earr([[terms.exp_(m[0, 0])]])
    raise Unsupported("expm of an explicit matrix")


_qr_n = [0]


def qr(z, **k):
    if not isinstance(z, Arr) or not z.is_lin():
        raise Unsupported("qr")
    n = lin.psum(z.rp)
    kz = LT(z.bl.get((0, 0), {}))
    q = Op.get("app", "qrQ", n, n, (kz,))
    r = Op.get("app", "qrR", n, n, (kz,))

    def rw(w, q=q, r=r, kz=kz):
        qt = q.T().id
        for i in range(len(w) - 1):
            a, b = Op.by_id[w[i]], w[i + 1]
            if a.kind == "inv" and a.args[0].t == {(r.id,): Sc.of(1)} and b == qt:
                iv = lin.inv_op(kz, n)
                return {w[:i] + (iv.id,) + w[i + 2:]: Sc.of(1)}
            if w[i] == qt and b == q.id:
                return {w[:i] + w[i + 2:]: Sc.of(1)}
        return None
    lin.REWRITES.append(rw)
    ctx().note("QR factorisation: z = QR with Q orthogonal, R nonsingular")
    return Arr.from_op(q), Arr.from_op(r)


def solve_triangular(a, b, **k):
    if k.get("lower") or k.get("trans"):
        raise Unsupported("solve_triangular options")
    return lin.solve(a, b)


def _det(rows):
    if len(rows) == 1:
        return rows[0][0]
    t = Sc.of(0)
    for j, x in enumerate(rows[0]):
        if Sc.of(x).p:
            t = t + x * _det([[y for q, y in enumerate(r) if q != j] for r in rows[1:]]) * (-1) ** j
    return t


def _earr_inv(a):
    n = a.shape[0]
    if n > 4:
        raise Unsupported("inverse of an explicit matrix larger than 4")
    rows = [list(r) for r in np.asarray(a, dtype=object)]
    d = _det(rows)
    if n == 1:
        return earr([[1 / Sc.of(d)]])
    return earr([[_det([[y for q, y in enumerate(r) if q != i] for p, r in enumerate(rows) if p != j]) * (-1) ** (i + j) / d
                  for j in range(n)] for i in range(n)])


def lsolve(a, b, **k):
    if isinstance(a, EArr) and isinstance(b, EArr):
        return np.dot(_earr_inv(a), b).view(EArr)
    return lin.solve(a, b)


def linv(a, **k):
    if isinstance(a, EArr):
        return _earr_inv(a)
    return lin.solve(a, Arr.eye(lin.psum(a.rp)))


def _inv_phi_rule(w):
    """S^-1 phi_k(s S) = s phi_{k+1}(s S) + S^-1/k!"""
    for i in range(len(w) - 1):
        a, b = Op.by_id[w[i]], Op.by_id[w[i + 1]]
        iv, ph = (a, b) if a.kind == "inv" else (b, a)
        if iv.kind == "inv" and ph.kind == "phi":
            ia, pa = iv.args[0].t, ph.args[1].t
            if len(ia) == 1 and len(pa) == 1:
                (iw, ic), = ia.items()
                (pw, pc), = pa.items()
                if iw == pw:
                    k = ph.args[0]
                    p2 = lin.phi_op(k + 1, ph.args[1], ph.rows)
                    return {w[:i] + (p2.id,) + w[i + 2:]: pc / ic,
                            w[:i] + (iv.id,) + w[i + 2:]: Sc.of(1) / math.factorial(k)}
    return None


lin.REWRITES.append(_inv_phi_rule)


# -------------------------------------------------------------------- jax core
def jit(f=None, **k):
    if f is None:
        return lambda g: g
    return f


def lcond(pred, tf, ff, *ops, **k):
    if bool(B.of(pred)):
        return tf(*ops)
    return ff(*ops)


def while_loop(cond_fun, body_fun, init_val):
    for h in LOOPS:
        r = h("while", dict(cond=cond_fun, body=body_fun, init=init_val))
        if r is not NotImplemented:
            return r
    s = init_val
    for _ in range(UNROLL[0]):
        if not bool(B.of(cond_fun(s))):
            return s
        s = body_fun(s)
    raise Unsupported("while_loop not bounded by %d iterations" % UNROLL[0])


def fori_loop(lower=None, upper=None, body_fun=None, init_val=None, **k):
    for h in LOOPS:
        r = h("fori", dict(lower=lower, upper=upper, body=body_fun, init=init_val))
        if r is not NotImplemented:
            return r
    lo, hi = Sc.of(lower), Sc.of(upper)
    if lo.is_const() and hi.is_const():
        s = init_val
        for i in range(int(lo), int(hi)):
            s = body_fun(i, s)
        return s
    s, i = init_val, lo
    for _ in range(UNROLL[0]):
        if not bool(terms.cmp_("<", i, hi)):
            return s
        s = body_fun(i, s)
        i = i + 1
    raise Unsupported("fori_loop not bounded by %d iterations" % UNROLL[0])


def scan(f, init, xs, length=None, **k):
    c, ys = init, []
    n = length if length is not None else xs.shape[0]
    n = int(Sc.of(n))
    for i in range(n):
        c, y = f(c, None if xs is None else xs[i])
        ys.append(y)
    return c, (array(ys) if ys and ys[0] is not None else None)


def linearize(f, *primals):
    if hasattr(f, "__linearize__"):
        return f.__linearize__(*primals)
    g = f
    while hasattr(g, "func"):
        g = g.func
    obj = getattr(g, "__self__", None)
    lz = getattr(obj, "__linearize__", None) or getattr(g, "__linearize__", None)
    if lz is None:
        return _linearize_concrete(f, primals)
    kw = dict(getattr(f, "keywords", {}) or {})
    return lz(*primals, **kw)


def _linearize_concrete(f, primals):
    """value and directional derivative of a function of scalars and small arrays, by differentiation of its terms"""
    from .subst import Subst
    flat, gen, back = [], [], {}
    for p in primals:
        if isinstance(p, EArr):
            g = emap(lambda x: Sc.fresh("primal"), p)
            flat += list(zip(g.ravel(), p.ravel()))
            gen.append(g)
        elif terms._scalarish(p):
            g = Sc.fresh("primal")
            flat.append((g, Sc.of(p)))
            gen.append(g)
        else:
            raise Unsupported("linearize of a concrete function of abstract arrays")
    out = f(*gen)
    for g, p in flat:
        (m, _), = g.p.items()
        back[m[0][0]] = Sc.of(p)
    S = Subst(back)
    fix = (lambda x: emap(lambda y: S.sc(Sc.of(y)), x)) if isinstance(out, EArr) else (lambda x: S.sc(Sc.of(x)))
    sym = [g for g, _ in flat]

    def lin_f(*tangents):
        tf = []
        for p, v in zip(primals, tangents):
            tf += list(earr(v).ravel()) if isinstance(p, EArr) else [v]
        tot = None
        for g, v in zip(sym, tf):
            d = emap(lambda y: terms.diff(Sc.of(y), g), out) if isinstance(out, EArr) else terms.diff(Sc.of(out), g)
            d = fix(d) * Sc.of(v)
            tot = d if tot is None else tot + d
        return tot
    return fix(out), lin_f


def _generic_col(n):
    """a generic vector of length n (a generic scalar when n = 1)"""
    nm = terms.fresh_name("col")
    if lin._is1(Sc.of(n)):
        c = Sc.sym(nm)
        return Arr(1, [n], [1], {(0, 0): {(): c}}), c
    c = Op.get("sym", nm, Sc.of(n), Sc.of(1))
    return Arr(1, [n], [1], {(0, 0): {(c.id,): Sc.of(1)}}), c


def _coefficient(r, gen, n):
    """matrix M with r = M c for the generic column c"""
    v, c = gen
    bl = {}
    if not isinstance(r, Arr):
        r = lin.from_earr(r) if isinstance(r, EArr) else r
    for k, t in r.bl.items():
        acc = {}
        for w, cf in t.items():
            if isinstance(c, Sc):
                mono, = c.p
                one = cf * Sc({((mono[0][0], -1),): Fraction(1)})
                if mono[0][0] in one.atoms(True):
                    raise Unsupported("vmap of a nonlinear function")
                lin.t_add(acc, w, one)
                continue
            if c.id not in w:
                raise Unsupported("vmap of an affine function")
            if w[-1] != c.id or w.count(c.id) != 1 or any(c.id in _opdeps(Op.by_id[i]) for i in w[:-1]):
                raise Unsupported("vmap of a nonlinear function")
            lin.t_add(acc, w[:-1], cf)
        bl[k] = acc
    return Arr(2, r.rp, [n], bl)


def vmap(f, in_axes=0, out_axes=0):
    def g(*xs):
        if len(xs) != 1 or not isinstance(xs[0], Arr):
            raise Unsupported("vmap")
        ia = in_axes[0] if isinstance(in_axes, (tuple, list)) else in_axes
        x = xs[0]
        if ia == 1:
            cols = x
        elif ia == 0:
            cols = x.T
        else:
            raise Unsupported("vmap axis")
        # apply f to a generic column; f must be linear in it
        n = lin.psum(cols.rp)
        g_ = _generic_col(n)
        m = _coefficient(f(g_[0]), g_, n)
        m = lin.matmul(m, cols)
        if out_axes == 1:
            return m
        if out_axes == 0:
            return m.T
        raise Unsupported("vmap out axis")
    return g


def _opdeps(o):
    acc = set()
    for a in o.args:
        if isinstance(a, LT):
            for w in a.t:
                acc |= set(w)
    return acc


class _Random:
    @staticmethod
    def key(*a):
        return "key"
    PRNGKey = key

    @staticmethod
    def uniform(key, shape=(), **k):
        return Arr.vec("uniform", shape[0]) if len(shape) == 1 else Missing("random.uniform")()


class Partial:
    def __init__(self, f, *a, **k):
        self.func, self.args, self.keywords = f, a, k

    def __call__(self, *a, **k):
        return self.func(*self.args, *a, **{**self.keywords, **k})


class Config:
    def update(self, *a):
        pass


def device(*a, **k):
    return []


# -------------------------------------------------------------------- equinox
class Module:
    def __init_subclass__(cls, **kw):
        super().__init_subclass__()
        if not any("__init__" in c.__dict__ for c in cls.__mro__ if c not in (Module, object)):
            names = []
            for c in reversed(cls.__mro__):
                for n in c.__dict__.get("__annotations__", {}):
                    if n not in names:
                        names.append(n)

            def init(self, *a, _names=tuple(names), **k):
                for n, v in zip(_names, a):
                    setattr(self, n, v)
                for n, v in k.items():
                    setattr(self, n, v)
            cls.__init__ = init


def filter_jit(f=None, **k):
    if f is None:
        return lambda g: g
    return f


# --------------------------------------------------------------------- build
def factorial(x, *a, **k):
    return umap(terms.factorial_, x)


def abs_any(x):
    if isinstance(x, (Arr, EArr, PArr)):
        return absolute(x)
    if isinstance(x, Sc):
        return terms.abs_(x)
    return builtins.abs(x)


# keywords without influence on the exact value
BENIGN = {"dtype", "copy", "out", "precision", "check_finite", "overwrite_a", "overwrite_b", "overwrite_ab", "casting",
          "subok", "like", "device", "unique_indices", "indices_are_sorted", "unroll", "preferred_element_type",
          "promote_integers", "rtol_", "out_sharding", "mode_", "wrap"}


def strict(f):
    """the contract f, refusing every keyword it does not name unless it cannot influence the value"""
    import functools
    import inspect
    try:
        ps = inspect.signature(f).parameters.values()
    except (TypeError, ValueError):
        return f
    if not any(p.kind == p.VAR_KEYWORD for p in ps):
        names = {p.name for p in ps}
        extra = False
    else:
        names = {p.name for p in ps if p.kind != p.VAR_KEYWORD} | set(getattr(f, "keywords_read", ()))
        extra = True

    @functools.wraps(f)
    def g(*a, **k):
        for n in list(k):
            if n not in names:
                if n not in BENIGN and k[n] is not None and k[n] is not False:
                    raise Unsupported("%s(%s=...)" % (f.__name__, n))
                if not (extra and n in BENIGN):
                    del k[n]
        return f(*a, **k)
    return g


clip.keywords_read = ("min", "max", "a_min", "a_max")
fill_diagonal.keywords_read = ("inplace",)
solve_triangular.keywords_read = ("lower", "trans")


_methods()


def mutable(f):
    """constructor of the mutable array library"""
    def g(*a, **k):
        r = f(*a, **k)
        return MArr(r) if type(r) is Arr else r
    return g


def build():
    inf = Sc.sym("inf", pos=True)
    common = dict(
        zeros=zeros, ones=ones, full=full, empty=zeros, zeros_like=zeros_like, ones_like=ones_like, empty_like=zeros_like,
        eye=eye, identity=eye, array=array, asarray=array, concat=concat, concatenate=concat,
        vstack=vstack, hstack=hstack, column_stack=column_stack, cbrt=cbrt, stack=stack, block=block, diag=diag, linspace=linspace, arange=arange,
        exp=exp, log=log, log2=log2, sqrt=sqrt, sin=sin, cos=cos, floor=floor, ceil=ceil, real=real,
        imag=imag, conj=conj, conjugate=conj, abs=absolute, absolute=absolute, square=square,
        power=power, pow=power, minimum=minimum, maximum=maximum, clip=clip, where=where,
        max=amax, min=amin, amax=amax, amin=amin, sum=sum_, prod=prod_, mean=mean_, cumprod=cumprod, cumsum=cumsum, argmax=argmax,
        argmin=argmin, dot=dot, vdot=vdot, matmul=lambda a, b: a @ b, tile=tile, isclose=isclose,
        allclose=allclose, all=all_, any=any_, shape=shape, ndim=ndim, round=round_, finfo=finfo, triu=triu, tril=tril, outer=outer,
        flip=flip, fill_diagonal=fill_diagonal, logical_and=_bool_and, logical_or=_bool_or, logical_not=_bool_not,
        pi=terms.PI_, inf=inf, nan=Sc.sym("nan"), newaxis=None,
        ndarray=Array, float64="f8", float32="f4", complex128="c16", complex64="c8", int64="i8", int32="i4",
        add=lambda a, b: a + b, subtract=lambda a, b: a - b, multiply=lambda a, b: a * b,
        divide=lambda a, b: a / b, negative=lambda a: -a, transpose=lambda a, *k: a.T,
        reshape=lambda a, s, **k: a.reshape(s, **k), ravel=lambda a, **k: a.flatten(),
        copy=lambda a: a.copy(), set_printoptions=lambda *a, **k: None,
        e=terms.exp_(1), bool_="bool", atleast_1d=lambda x: x,
        moveaxis=lambda a, s, d: earr(np.moveaxis(np.asarray(a, dtype=object), s, d)),
    )
    for n, f in list(common.items()):
        if isinstance(f, types.FunctionType):
            common[n] = strict(f)
    linalg = Mod("linalg", norm=strict(norm), solve=strict(lsolve), inv=strict(linv), qr=strict(qr))
    jnp = Mod("jax.numpy", **common)
    jnp.linalg = linalg
    npm = Mod("numpy", **common)
    npm.linalg = linalg
    for n in ("zeros", "ones", "full", "empty", "zeros_like", "ones_like", "empty_like", "eye", "identity", "diag"):
        setattr(npm, n, mutable(common[n]))
    npm.array, npm.asarray = strict(np_array), strict(np_asarray)
    npm.concatenate = concat
    lax = Mod("jax.lax", cond=lcond, while_loop=while_loop, fori_loop=strict(fori_loop), iota=iota, scan=strict(scan))
    jsl = Mod("jax.scipy.linalg", expm=strict(expm), qr=strict(qr), solve_triangular=strict(solve_triangular),
              solve=strict(lsolve))
    jss = Mod("jax.scipy.special", factorial=factorial)
    jscipy = Mod("jax.scipy", linalg=jsl, special=jss)
    sparse = Mod("jax.experimental.sparse", JAXSparse=type("JAXSparse", (), {}))
    experimental = Mod("jax.experimental", sparse=sparse)
    tree_util = Mod("jax.tree_util", Partial=Partial)
    jax = Mod("jax", numpy=jnp, lax=lax, jit=jit, vmap=vmap, linearize=linearize, scipy=jscipy,
              experimental=experimental, Array=Array, random=_Random, config=Config(), tree_util=tree_util,
              devices=device, debug=Mod("jax.debug"), block_until_ready=lambda x: x)
    scipy = Mod("scipy", special=jss, linalg=jsl, optimize=Mod("scipy.optimize"),
                interpolate=Mod("scipy.interpolate"))
    eqx = Mod("equinox", Module=Module, filter_jit=filter_jit, field=lambda *a, **k: k.get("default"))
    mathm = Mod("math", factorial=lambda x: terms.factorial_(x), exp=terms.exp_, log=lambda x, b=None: terms.log_(x) if b is None else terms.log_(x) / terms.log_(b),
                sqrt=terms.sqrt_, floor=terms.floor_, ceil=terms.ceil_, pi=terms.PI_, sin=sin_, cos=cos_,
                log2=lambda x: log2(x), inf=inf, isclose=isclose, prod=lambda x: prod_(array(list(x))), pow=power_)

    class _Fut:
        """runs at submission or as late as result(): both orders are explored"""

        def __init__(self, th):
            self.th = th
            self.done = False
            if not THREADS[0] or ctx().choose("thread runs at submission"):
                self._go()

        def _go(self):
            if not self.done:
                self.v, self.done = self.th(), True

        def result(self, *a):
            self._go()
            return self.v

    class ThreadPoolExecutor:
        def __init__(self, *a, **k):
            pass

        def submit(self, f, *a, **k):
            return _Fut(lambda: f(*a, **k))

        def map(self, f, *its):
            return [f(*x) for x in zip(*its)]

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def shutdown(self, *a, **k):
            pass
    cf = Mod("concurrent.futures", ThreadPoolExecutor=ThreadPoolExecutor)
    class ElementH1:
        pass

    class RefLine:
        pass

    class Form:
        """skfem form decorator: keeps the kernel callable"""

        def __init__(self, f):
            self.form = f

        def __call__(self, *a, **k):
            return self.form(*a, **k)

        def assemble(self, *a, **k):
            raise Unsupported("form assembly")
    fem = Mod("skfem", BilinearForm=Form, LinearForm=Form)
    fh = Mod("skfem.helpers", dot=lambda a, b: a * b, grad=lambda f: f.grad, div=Missing("div"), dd=Missing("dd"))
    fem.helpers = fh
    import os as _os
    osm = Mod("os", path=_os.path, environ={}, sep="/", mkdir=lambda *a, **k: None, makedirs=lambda *a, **k: None,
              getcwd=lambda: "/", cpu_count=lambda: 1)      # no file-system effects
    mods = {
        "os": osm, "os.path": _os.path,
        "skfem": fem, "skfem.helpers": fh, "skfem.element": Mod("skfem.element"),
        "skfem.element.element_h1": Mod("skfem.element.element_h1", ElementH1=ElementH1),
        "skfem.refdom": Mod("skfem.refdom", Refdom=RefLine, RefLine=RefLine),
        "numpy.polynomial": Mod("numpy.polynomial"), "numpy.polynomial.legendre": Mod("numpy.polynomial.legendre"),
        "jax": jax, "jax.numpy": jnp, "jax.lax": lax, "jax.scipy": jscipy, "jax.scipy.linalg": jsl,
        "jax.scipy.special": jss, "jax.experimental": experimental, "jax.experimental.sparse": sparse,
        "jax.tree_util": tree_util, "numpy": npm, "scipy": scipy, "scipy.special": jss, "scipy.linalg": jsl,
        "scipy.interpolate": scipy.interpolate, "scipy.optimize": scipy.optimize,
        "equinox": eqx, "math": mathm, "concurrent": Mod("concurrent", futures=cf), "concurrent.futures": cf,
        "warnings": Mod("warnings", warn=lambda *a, **k: WARN[0](*a, **k)),
        "matplotlib": Mod("matplotlib"), "matplotlib.pyplot": Mod("matplotlib.pyplot"),
        "diffrax": Mod("diffrax"), "optimistix": Mod("optimistix"), "lineax": Mod("lineax"),
        "time": Mod("time", perf_counter=lambda: Sc.of(0), time=lambda: Sc.of(0)),
    }
    return mods
