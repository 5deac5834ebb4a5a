"""Nodal fields: arrays with one symbolic extent (mesh nodes) and concrete others, given by their entries.

An array is a function from an index tuple to a scalar term; indexing, broadcasting, restriction to index sets,
functional updates, column-major reshaping and products with small matrices or abstract linear operators are defined
entrywise.  The array functions of the symbolic libraries are extended to these arrays by `install`."""
from .common import *
from ovc.lin import EArr
import numpy as np


def dim(x):
    x = Sc.of(x)
    return int(x.const()) if x.is_const() else x


def same(a, b):
    a, b = dim(a), dim(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return lin.entails(cmp_("==", Sc.of(a), Sc.of(b)))


# generic index tuples at which equal arrays are known to agree
GENERIC = []


class IdxSet:
    """set of indices of one axis"""
    abstract_array = True
    ndim = 1

    def __init__(self, has):
        self.has = has

    def flatten(self):
        return self
    ravel = flatten


class Fd:
    __array_priority__ = 4000
    abstract_array = True
    dtype = "real"
    __hash__ = None

    def __init__(self, dims, f, sub=None):
        self.dims, self.f, self.sub = tuple(dim(d) for d in dims), f, sub

    # -- shape
    @property
    def shape(self):
        return self.dims

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        r = Sc.of(1)
        for d in self.dims:
            r = r * d
        return dim(r)

    def __len__(self):
        return self.dims[0] if isinstance(self.dims[0], int) else lin._shape_val(Sc.of(self.dims[0]))

    def __call__(self, *ix):
        return Sc.of(self.f(*[Sc.of(i) for i in ix]))

    # -- indexing
    def __getitem__(self, ix):
        if not isinstance(ix, tuple):
            ix = (ix,)
        if any(i is Ellipsis for i in ix):
            p = [i is Ellipsis for i in ix].index(True)
            ix = ix[:p] + (slice(None),) * (self.ndim - sum(1 for i in ix if i is not None and i is not Ellipsis)) + ix[p + 1:]
        src, dims, sub = [], [], self.sub
        ax = 0
        for i in ix:
            if i is None:
                dims.append(1)
                continue
            if ax >= self.ndim:
                raise Unsupported("too many indices")
            if isinstance(i, tuple) and len(i) == 1:
                i = i[0]
            if isinstance(i, slice):
                if i.start is not None or i.stop is not None or i.step is not None:
                    raise Unsupported("partial slice of a field")
                src.append(len(dims))
                dims.append(self.dims[ax])
            elif isinstance(i, IdxSet):
                src.append(len(dims))
                dims.append(self.dims[ax])
                sub = (len(dims) - 1, i)
            elif isinstance(i, (Fd, EArr, list)):
                raise Unsupported("fancy index of a field")
            else:
                i = Sc.of(i)
                if i.is_const() and i.const() < 0:
                    i = i + self.dims[ax]
                CTX.prove("index within the array", cmp_("<=", 0, i) & cmp_("<", i, self.dims[ax]))
                src.append(i)
            ax += 1
        while ax < self.ndim:
            src.append(len(dims))
            dims.append(self.dims[ax])
            ax += 1
        f = self.f
        g = lambda *ks: f(*[ks[s] if isinstance(s, int) else s for s in src])
        return Fd(dims, g, sub) if dims else Sc.of(g())

    @property
    def at(self):
        return _At(self)

    # -- elementwise
    def map(self, g):
        f = self.f
        return Fd(self.dims, lambda *k: g(Sc.of(f(*k))), self.sub)

    def _bin(self, o, g, swap=False):
        o = as_fd(o)
        if o is NotImplemented:
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        n = max(a.ndim, b.ndim)
        da, db = (1,) * (n - a.ndim) + a.dims, (1,) * (n - b.ndim) + b.dims
        dims = []
        for x, y in zip(da, db):
            if isinstance(x, int) and x == 1:
                dims.append(y)
            elif isinstance(y, int) and y == 1 or same(x, y):
                dims.append(x)
            else:
                raise lin.ShapeError("%r with %r" % (a.dims, b.dims))

        def pick(f, d, k):
            k = k[n - len(d):]
            return f(*[Sc.of(0) if isinstance(e, int) and e == 1 else i for e, i in zip(d, k)])
        if a.sub is not None and b.sub is not None and (a.sub[0] != b.sub[0] or a.sub[1] is not b.sub[1]):
            raise Unsupported("fields restricted to different index sets")
        return Fd(dims, lambda *k: g(Sc.of(pick(a.f, a.dims, k)), Sc.of(pick(b.f, b.dims, k))), a.sub or b.sub)

    def __add__(self, o): return self._bin(o, lambda x, y: x + y)
    def __radd__(self, o): return self._bin(o, lambda x, y: x + y, True)
    def __sub__(self, o): return self._bin(o, lambda x, y: x - y)
    def __rsub__(self, o): return self._bin(o, lambda x, y: x - y, True)
    def __mul__(self, o): return self._bin(o, lambda x, y: x * y)
    def __rmul__(self, o): return self._bin(o, lambda x, y: x * y, True)

    def __truediv__(self, o):
        return self._bin(o, lambda x, y: x / y)

    def __rtruediv__(self, o): return self._bin(o, lambda x, y: x / y, True)
    def __pow__(self, o): return self._bin(o, lambda x, y: x ** y)
    def __neg__(self): return self.map(lambda x: -x)
    def __pos__(self): return self
    def __abs__(self): return self.map(terms.abs_)
    def __le__(self, o): return self._cmp("<=", o)
    def __lt__(self, o): return self._cmp("<", o)
    def __ge__(self, o): return self._cmp("<=", o, True)
    def __gt__(self, o): return self._cmp("<", o, True)

    def _cmp(self, op, o, swap=False):
        if not self.ndim == 1 or as_fd(o).ndim > 1:
            raise Unsupported("comparison of this field")
        o = as_fd(o)
        g = lambda i: o.f(i) if o.ndim else o.f()
        f = self.f
        return BFd(self.dims[0], (lambda i: cmp_(op, g(i), f(i))) if swap else (lambda i: cmp_(op, f(i), g(i))))

    def copy(self): return self
    def astype(self, *a, **k): return self
    def block_until_ready(self): return self
    def toarray(self): return self
    todense = toarray

    # -- structure
    @property
    def T(self):
        f = self.f
        return self if self.ndim < 2 else Fd(self.dims[::-1], lambda *k: f(*k[::-1]), self.sub and (self.ndim - 1 - self.sub[0], self.sub[1]))

    def transpose(self, *a):
        if a and a not in ((1, 0), ((1, 0),)):
            raise Unsupported("transpose of axes")
        return self.T

    def squeeze(self, *a):
        keep = [i for i, d in enumerate(self.dims) if not (isinstance(d, int) and d == 1)]
        f, n = self.f, self.ndim

        def g(*k):
            full = [Sc.of(0)] * n
            for i, x in zip(keep, k):
                full[i] = x
            return f(*full)
        return Fd([self.dims[i] for i in keep], g)

    def reshape(self, *shape, order="C", **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        tot = Sc.of(self.size)
        dims = [None if self._m1(s) else dim(s) for s in shape]
        if dims.count(None) > 1:
            raise Unsupported("reshape")
        if None in dims:
            rest = Sc.of(1)
            for d in dims:
                rest = rest * (1 if d is None else d)
            dims[dims.index(None)] = dim(tot / rest)
        src, f = self.dims, self.f
        if len(src) == 2 and len(dims) == 2 and same(src[0], dims[0]) and same(src[1], dims[1]):
            return self

        def flat_index(ds, k):
            """position of a multi-index in the chosen order"""
            if len(ds) == 1:
                return k[0]
            (a, b), (i, j) = ds, k
            return i + a * j if order == "F" else i * b + j

        def g(*k):
            q = Sc.of(flat_index(dims, k))
            return f(*split(src, q, order))
        return Fd(dims, g)

    @staticmethod
    def _m1(s):
        s = Sc.of(s)
        return s.is_const() and s.const() == -1

    def flatten(self, order="C"):
        return self.reshape((-1,), order=order)

    def ravel(self, order="C"):
        return self.reshape((-1,), order=order)

    def sum(self, axis=None, **k):
        if axis is None:
            raise Unsupported("sum over the nodes")
        axis %= self.ndim
        d = self.dims[axis]
        if not isinstance(d, int):
            raise Unsupported("sum over the nodes")
        f = self.f
        dims = [x for i, x in enumerate(self.dims) if i != axis]
        return Fd(dims, lambda *k: sum((Sc.of(f(*(k[:axis] + (Sc.of(l),) + k[axis:]))) for l in range(d)), Sc.of(0)))

    def __matmul__(self, o):
        o = as_fd(o)
        if o is NotImplemented:
            return NotImplemented
        d = self.dims[-1]
        if not same(d, o.dims[0]):
            raise lin.ShapeError("product of %r and %r" % (self.dims, o.dims))
        if not isinstance(d, int):
            raise Unsupported("sum over the nodes")
        f, g, na = self.f, o.f, self.ndim - 1
        dims = self.dims[:-1] + o.dims[1:]
        h = lambda *k: sum((Sc.of(f(*(k[:na] + (Sc.of(l),)))) * Sc.of(g(*((Sc.of(l),) + k[na:]))) for l in range(d)), Sc.of(0))
        return Fd(dims, h, self.sub) if dims else h()

    def __rmatmul__(self, o):
        o = as_fd(o)
        return NotImplemented if o is NotImplemented else o @ self

    def __array__(self, *a, **k):
        raise Unsupported("concrete copy of a field")

    def __bool__(self):
        raise Unsupported("truth value of a field")


def split(dims, q, order):
    """index of position q in an array of these dimensions"""
    if len(dims) == 1:
        return (q,)
    if len(dims) != 2:
        raise Unsupported("reshape of this array")
    a, b = dims
    if isinstance(a, int) and a == 1:
        return (Sc.of(0), q)
    if isinstance(b, int) and b == 1:
        return (q, Sc.of(0))
    m = Sc.of(a if order == "F" else b)
    lo, hi = divide(q, m)
    return (lo, hi) if order == "F" else (hi, lo)


def divide(q, m):
    """(q mod m, q div m) for q = r + m * s with 0 <= r < m known"""
    if m.is_const():
        mc = int(m.const())
        for r in range(mc):
            s = (q - r) / mc
            if all(k.denominator == 1 for k in s.p.values()):
                return Sc.of(r), s
        # generic r: q = r + m s with r an index
        s = terms.floor_(q / mc)
        return q - s * mc, s
    s = diff_(q, m)
    r = q - m * s
    if lin.entails(cmp_("<=", 0, r) & cmp_("<", r, m)):
        return r, s
    s = terms.floor_(q / m)
    return q - s * m, s


def diff_(q, m):
    """coefficient of the extent m (an atom) in q"""
    ids = list(m.atoms())
    if len(ids) != 1:
        raise Unsupported("extent that is not a symbol")
    return terms.diff(q, m)


class BFd:
    """boolean field over the nodes"""
    abstract_array = True

    def __init__(self, n, f):
        self.n, self.f = n, f

    def __and__(self, o):
        return BFd(self.n, lambda i: B.of(self.f(i)) & B.of(o.f(i)))

    def __or__(self, o):
        return BFd(self.n, lambda i: B.of(self.f(i)) | B.of(o.f(i)))

    def __invert__(self):
        return BFd(self.n, lambda i: ~B.of(self.f(i)))


class _At:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, ix):
        return _AtIx(self.a, ix)


class _AtIx:
    def __init__(self, a, ix):
        self.a, self.ix = a, ix

    def get(self, **k):
        return self.a[self.ix]

    def _upd(self, v, g):
        a, ix = self.a, self.ix if isinstance(self.ix, tuple) else (self.ix,)
        ix = tuple(i[0] if isinstance(i, tuple) and len(i) == 1 else i for i in ix)
        ix = tuple(ix) + (slice(None),) * (a.ndim - len(ix))
        if len(ix) != a.ndim:
            raise Unsupported("update with these indices")
        keep, tests = [], []
        for ax, i in enumerate(ix):
            if isinstance(i, slice):
                if i.start is not None or i.stop is not None or i.step is not None:
                    raise Unsupported("partial slice of a field")
                keep.append(ax)
            elif isinstance(i, EArr):
                if i.size:
                    raise Unsupported("update at listed positions")
                tests.append(lambda k: False)
                keep.append(ax)
            elif isinstance(i, IdxSet):
                tests.append(lambda k, ax=ax, i=i: bool(i.has(k[ax])))
                keep.append(ax)
            elif isinstance(i, BFd):
                tests.append(lambda k, ax=ax, i=i: bool(B.of(i.f(k[ax]))))
                keep.append(ax)
            else:
                i = Sc.of(i)
                if i.is_const() and i.const() < 0:
                    i = i + a.dims[ax]
                CTX.prove("index within the array", cmp_("<=", 0, i) & cmp_("<", i, a.dims[ax]))
                tests.append(lambda k, ax=ax, i=i: bool(cmp_("==", k[ax], i)))
        v = as_fd(v)
        if v.ndim > len(keep):
            raise lin.ShapeError("update of rank %d" % v.ndim)
        vk = keep[len(keep) - v.ndim:]
        for ax, d in zip(vk, v.dims):
            if not (isinstance(d, int) and d == 1) and not same(d, a.dims[ax]) and v.sub is None:
                raise lin.ShapeError("update of %r by %r" % (a.dims, v.dims))
        f = a.f

        def h(*k):
            if all(t(k) for t in tests):
                w = v.f(*[Sc.of(0) if isinstance(d, int) and d == 1 else k[ax] for ax, d in zip(vk, v.dims)])
                return g(Sc.of(f(*k)), Sc.of(w))
            return f(*k)
        return Fd(a.dims, h, a.sub)

    def set(self, v, **k): return self._upd(v, lambda x, y: y)
    def add(self, v, **k): return self._upd(v, lambda x, y: x + y)
    def subtract(self, v, **k): return self._upd(v, lambda x, y: x - y)
    def multiply(self, v, **k): return self._upd(v, lambda x, y: x * y)
    mul = multiply


def as_fd(o):
    if isinstance(o, Fd):
        return o
    if isinstance(o, EArr) or isinstance(o, np.ndarray):
        o = o.view(EArr) if not isinstance(o, EArr) else o

        def f(*k):
            return Sc.of(pick_const(o, k))
        return Fd(o.shape, f)
    if isinstance(o, (Sc, int, float)) or hasattr(o, "numerator"):
        return Fd((), lambda: Sc.of(o))
    return NotImplemented


def pick_const(a, k):
    ix = []
    for ax, i in enumerate(k):
        i = Sc.of(i)
        if i.is_const():
            ix.append(int(i.const()))
            continue
        for c in range(a.shape[ax]):
            if bool(cmp_("==", i, c)):
                ix.append(c)
                break
        else:
            raise Unsupported("index of a small matrix")
    return np.ndarray.__getitem__(a, tuple(ix))


class NodeOp:
    """abstract linear operator on nodal vectors, each row scaled by row(i); sparse storage as the code sees it"""
    abstract_array = True
    __array_priority__ = 5000
    __hash__ = None
    KAPPA = "kappa"

    def __init__(self, name, n, row=None, fmt="bcoo"):
        self.name, self.n, self.row, self.fmt = name, n, row or (lambda i: Sc.of(1)), fmt
        self.shape = (n, n)

    @property
    def ndim(self):
        return 2

    def apply(self, col, i):
        """(A c)_i for the nodal vector with entries col(k)"""
        e = Sc.of(col(integer(NodeOp.KAPPA, 0)))
        out = Sc.of(0)
        for mono, c in e.p.items():
            out = out + Sc.app(self.name, Sc.of(i), Sc({mono: terms.Fraction(1)})) * c
        return self.row(Sc.of(i)) * out

    def __matmul__(self, o):
        o = as_fd(o)
        if o is NotImplemented or not same(o.dims[0], self.n):
            raise lin.ShapeError("operator applied to something else")
        f = o.f
        return Fd(o.dims, lambda i, *k: self.apply(lambda kap: f(kap, *k), i))

    def _scaled(self, g):
        r = self.row
        return NodeOp(self.name, self.n, lambda i: g(r(i), i), self.fmt)

    def _need(self, what):
        if self.fmt == "bcsr":
            raise NotImplementedError("BCSR." + what)

    def __neg__(self):
        self._need("__neg__")
        return self._scaled(lambda r, i: -r)

    def _rowvec(self, o):
        o = as_fd(o)
        if o is NotImplemented:
            raise Unsupported("operand")
        if o.ndim == 0:
            return lambda i: o.f()
        if o.ndim == 2 and o.dims[1] == 1:
            return lambda i: o.f(i, Sc.of(0))
        raise Unsupported("scaling of the columns of the operator")

    def __mul__(self, o):
        self._need("__mul__")
        s = self._rowvec(o)
        return self._scaled(lambda r, i: r * s(i))
    __rmul__ = __mul__

    def __truediv__(self, o):
        self._need("__truediv__")
        s = self._rowvec(o)
        return self._scaled(lambda r, i: r / s(i))

    def todense(self):
        return NodeOp(self.name, self.n, self.row, "dense")
    toarray = todense


class Kron:
    """kron(P, M): small matrix P, nodal operator M"""
    abstract_array = True
    ndim = 2
    __array_priority__ = 5000

    def __init__(self, P, M):
        self.P, self.M = as_fd(P), M
        self.shape = (dim(Sc.of(self.P.dims[0]) * M.n),) * 2

    def __neg__(self):
        return Kron(self.P, -self.M)

    def __matmul__(self, v):
        n = self.P.dims[0]
        N = Sc.of(self.M.n)
        P = self.P

        def f(q):
            i, j = split((self.M.n, n), Sc.of(q), "F")
            return sum((P(j, l) * self.M.apply(lambda kap: v.f(kap + N * l), i) for l in range(n)), Sc.of(0))
        return Fd(v.dims, f)


def kron(P, M):
    if isinstance(M, NodeOp):
        return Kron(P, M)
    raise Unsupported("Kronecker product")


def node_where(old):
    def where(c, x=None, y=None):
        if isinstance(c, BFd):
            if x is None:
                return (IdxSet(lambda i: B.of(c.f(Sc.of(i)))),)
            x, y = as_fd(x), as_fd(y)
            g = lambda v, i: v.f(i) if v.ndim else v.f()
            return Fd((c.n,), lambda i: g(x, i) if bool(B.of(c.f(i))) else g(y, i))
        return old(c, x, y)
    return where


def only(name, a, k, *names):
    """refuse arguments a contract on fields does not interpret"""
    if a:
        raise Unsupported("%s: further positional arguments" % name)
    for n, v in k.items():
        if n not in names and n not in lib.BENIGN and v is not None and v is not False:
            raise Unsupported("%s(%s=...)" % (name, n))


def install(W):
    """array functions of numpy / jax.numpy on fields"""
    def elementwise(name, g):
        for ns in ("jax.numpy", "numpy"):
            m = W.libs[ns]
            old = getattr(m, name, None)

            def fn(x, *a, _old=old, **k):
                if isinstance(x, Fd):
                    only(name, a, k)
                    return x.map(g)
                if _old is None:
                    return g(Sc.of(x), *a, **k)
                return _old(x, *a, **k)
            setattr(m, name, fn)
    for name, g in (("exp", terms.exp_), ("log", terms.log_), ("sqrt", terms.sqrt_), ("abs", terms.abs_), ("absolute", terms.abs_),
                    ("cos", lambda x: lib.cos_(x)), ("sin", lambda x: lib.sin_(x)), ("tanh", lambda x: Sc.app("tanh", x)),
                    ("negative", lambda x: -x), ("square", lambda x: x * x)):
        elementwise(name, g)

    def symbolic(s):
        return isinstance(s, (tuple, list)) and any(not Sc.of(d).is_const() for d in s) or isinstance(s, Sc) and not s.is_const()
    for ns in ("jax.numpy", "numpy"):
        m = W.libs[ns]

        def filled(old, c):
            def fn(shape, *a, **k):
                s = shape if isinstance(shape, (tuple, list)) else (shape,)
                if symbolic(shape):
                    only("zeros/ones", a[1:], k)
                    return Fd(s, lambda *k: Sc.of(c))
                return old(shape, *a, **k)
            return fn

        def like(old, c):
            def fn(x, *a, **k):
                if not isinstance(x, Fd):
                    return old(x, *a, **k)
                only("zeros_like/ones_like", a[1:], k)
                return Fd(x.dims, lambda *k: Sc.of(c))
            return fn
        m.zeros, m.ones, m.empty = filled(m.zeros, 0), filled(m.ones, 1), filled(m.empty, 0)
        m.zeros_like, m.ones_like = like(m.zeros_like, 0), like(m.ones_like, 1)

        def binary(old, g):
            def fn(x, y, *a, **k):
                if not isinstance(x, Fd) and not isinstance(y, Fd):
                    return old(x, y, *a, **k)
                only("binary operation", a, k)
                return as_fd(x)._bin(y, g)
            return fn
        m.power = m.pow = binary(m.power, lambda x, y: x ** y)
        m.minimum, m.maximum = binary(m.minimum, terms.min_), binary(m.maximum, terms.max_)
        m.multiply, m.divide, m.add, m.subtract = (binary(m.multiply, lambda x, y: x * y), binary(m.divide, lambda x, y: x / y),
                                                   binary(m.add, lambda x, y: x + y), binary(m.subtract, lambda x, y: x - y))

        def clip(x, lo=None, hi=None, _old=m.clip, **k):
            if not isinstance(x, Fd):
                return _old(x, lo, hi, **k)
            only("clip", (), k, "min", "max", "a_min", "a_max")
            lo, hi = k.get("min", k.get("a_min", lo)), k.get("max", k.get("a_max", hi))
            return x.map(lambda s: Sc.of(lib.clip(s, lo, hi)))
        m.clip = clip
        m.where = node_where(m.where)

        def array(x, *a, _old=m.array, **k):
            if isinstance(x, (Fd, NodeOp, Kron, IdxSet)):
                only("array", a[1:], k)
                return x
            if isinstance(x, (list, tuple)) and x and any(isinstance(e, Fd) for e in x):
                only("array", a[1:], k)
                xs = [as_fd(e) for e in x]
                if any(e.ndim != xs[0].ndim or not all(same(u, v) for u, v in zip(e.dims, xs[0].dims)) for e in xs):
                    raise lin.ShapeError("array of entries of different shapes")

                def f(i, *k):
                    for c, e in enumerate(xs):
                        if c == len(xs) - 1 or bool(cmp_("==", i, c)):
                            return e.f(*k)
                return Fd((len(xs),) + xs[0].dims, f)
            return _old(x, *a, **k)
        m.asarray = array

        def copied(x, *a, _old=array, **k):
            if isinstance(x, Fd):
                only("array", a[1:], k)
                return Fd(x.dims, x.f, x.sub)           # np.array copies, asarray does not
            return _old(x, *a, **k)
        m.array = copied

        def stack(xs, axis=0, _old=m.stack, _array=array, **k):
            if not isinstance(xs, (list, tuple)) or not any(isinstance(e, Fd) for e in xs):
                return _old(xs, axis=axis, **k)
            only("stack", (), k)
            r = _array(list(xs))
            ax = axis % r.ndim
            g = r.f
            # axis 0 of r becomes axis ax of the result
            return Fd(r.dims[1:ax + 1] + r.dims[:1] + r.dims[ax + 1:], lambda *k: g(k[ax], *(k[:ax] + k[ax + 1:])))
        m.stack = stack

        def column_stack(xs, _array=array):
            return _array([as_fd(x) for x in xs]).T
        m.column_stack = column_stack
        m.kron = kron
        m.matmul = m.dot = lambda a, b: a @ b
        m.transpose = lambda a, *k: a.transpose(*k)
        m.reshape = lambda a, s, **k: a.reshape(s, **k)
        m.ravel = lambda a, **k: a.ravel(**k)

        def moveaxis(a, s, d, _old=m.moveaxis):
            if not isinstance(a, Fd):
                return _old(a, s, d)
            order = list(range(a.ndim))
            ax = order.pop(s)
            order.insert(d % a.ndim, ax)
            g = a.f
            return Fd([a.dims[o] for o in order], lambda *k: g(*[k[order.index(o)] for o in range(a.ndim)]))
        m.moveaxis = moveaxis

        def array_equal(a, b, **k):
            """two arrays of points: equal everywhere or not (both are followed)"""
            only("array_equal", (), k, "equal_nan")
            if a is b:
                return True
            a, b = as_fd(a), as_fd(b)
            if a.ndim != b.ndim or not all(bool(cmp_("==", Sc.of(x), Sc.of(y))) for x, y in zip(a.dims, b.dims)):
                return False
            if not CTX.choose("equal points"):
                return False
            for k in GENERIC:
                CTX.add(cmp_("==", a(*k[:a.ndim]), b(*k[:a.ndim])))
            return True
        m.array_equal = array_equal

        def expand_dims(a, axis):
            if not isinstance(axis, int):
                raise Unsupported("expand_dims of several axes")
            ax = axis % (a.ndim + 1)
            return a[(slice(None),) * ax + (None,)] if ax else a[None]
        m.expand_dims = expand_dims
    sp = W.libs["jax.experimental.sparse"]

    class BCSR:
        @staticmethod
        def from_bcoo(A):
            return NodeOp(A.name, A.n, A.row, "bcsr")
    sp.BCSR = BCSR
    sp.BCOO = type("BCOO", (), {})
    return W
