"""C17: Leja sequences (generators, padding, reordering)."""
import numpy as np
from .common import *
from . import C16
from ovc.terms import real_, imag_

CONST = Q(1, 10 ** 4)


# ------------------------------------------------------------- fast sequence
def fast(n, half=None):
    """arbitrary interval (centre m, half width h, with -h allowed by swapping the ends), n points"""
    def fn():
        W = make_world()
        ml = W.load("ormatex_py.matexp_leja")
        m, h = real("centre"), pos("halfwidth")
        if half is not None:
            m = Sc.of(0) if half == "sym" else m
        a, b = m - h, m + h
        z = call("gen_leja_fast", ml.gen_leja_fast, a, b, n)
        if len(z) != n:
            CTX.prove("number of points", B.of(False))
            return
        left = bool(cmp_("<", terms.abs_(b), terms.abs_(a)))
        tie = lin.entails(cmp_("==", terms.abs_(a), terms.abs_(b)))
        t = []
        for j in range(n):
            x = (Sc.of(z[j]) - m) / h
            if not x.is_const():
                CTX.prove_eq("point %d is an exact point of the interval" % j, Sc.of(z[j]), m)
                return
            t.append(x.const())
        first = (-1 if left else 1)
        CTX.prove("starts with the end point of larger magnitude", B.of(t[0] == first or (tie and t[0] == -first)))
        CTX.prove("then the other end point", B.of(t[1] == -t[0]))
        CTX.prove("then the midpoint", B.of(t[2] == 0))
        CTX.prove("inside the interval", B.of(all(-1 <= x <= 1 for x in t)))
        CTX.prove("distinct", B.of(len(set(t)) == n))
        ok = True
        for i in range(3, n):
            s = sorted(t[:i])
            mids = [(p + q) / 2 for p, q in zip(s, s[1:])]
            val = {c: abs(_prod(c - p for p in t[:i])) for c in mids}
            ok = ok and t[i] in val and val[t[i]] == max(val.values())
        CTX.prove("each next point maximises the product of distances over the midpoints of the gaps", B.of(ok))
        CTX.cover("generated")
    return fn


class Gaps:
    """loop invariant of the fast sequence, at iteration i (i points chosen):
    points zt[0..i-1]; gap g (g < i-1) runs from point L(g) up to point R(g), in the direction from zt[1] to zt[0], with
    no point inside; different gaps start at different points (so the i-1 gaps are all of them); zs[g] is the midpoint,
    zprod[g] the product of its distances to the points, zprod[g] = 0 for g >= i-1.
    Facts are instantiated at ghost positions; the obligations are about arbitrary positions."""

    def __init__(self, lo, hi, up, n, loc):
        self.lo, self.hi, self.n = lo, hi, n
        self.sign = Sc.of(1 if up else -1)
        self.roles = {}
        for name, x in loc.items():
            r = self.role(x)
            if r:
                if r in self.roles:
                    raise Unsupported("two locals hold the %s" % r)
                self.roles[r] = name
        if set(self.roles) != {"points", "midpoints", "products", "ends"}:
            raise Unsupported("loop state not recognised: %s" % (self.roles,))
        self.T = lambda j: Sc.app("zt", Sc.of(j))
        self.S = lambda g: Sc.app("zs", Sc.of(g))
        self.D = lambda g: Sc.app("zprod", Sc.of(g))
        self.L = lambda g: Sc.app("gap_l", Sc.of(g), sort="I")
        self.R = lambda g: Sc.app("gap_r", Sc.of(g), sort="I")
        for f in ("zt", "zs", "zprod", "gap_l", "gap_r"):
            terms.INT_UF.add(f)
        self.started = False

    def role(self, x):
        if isinstance(x, lib.PTable):
            return "ends"
        if not isinstance(x, PArr):
            return None
        v = [x.f(Sc.of(j)) for j in range(2)]
        m = (self.lo + self.hi) / 2
        e = [(self.lo, self.hi), (self.hi, self.lo)]
        if any(terms.is_zero(v[0] - a) and terms.is_zero(v[1] - b) for a, b in e):
            return "points"
        if any(terms.is_zero(v[0] - (a + m) / 2) and terms.is_zero(v[1] - (b + m) / 2) for a, b in e):
            return "midpoints"
        return "products"

    def arrays(self, loc):
        return tuple(loc[self.roles[r]] for r in ("points", "midpoints", "products", "ends"))

    def need(self, name, b):
        """an invariant that is not shown leaves the task undecided (the code may keep its books another way)"""
        if not lin.entails(b):
            raise Unsupported("not shown: " + name)
        CTX.prove(name, b)

    def product(self, x, i):
        """product of the distances (with sign) of x to the first i points"""
        return lib.prod_(PArr(i, lambda j: x - self.T(j)))

    def inst(self, i, gaps, points):
        """facts of the invariant at iteration i"""
        imp = lambda a, b: CTX.assume(~a | b)
        pts = list(points)
        for g in gaps:
            isgap = cmp_("<=", 0, g) & cmp_("<", g, i - 1)
            a, b = self.L(g), self.R(g)
            pts += [a, b]
            imp(isgap, cmp_("<=", 0, a) & cmp_("<", a, i) & cmp_("<=", 0, b) & cmp_("<", b, i))
            imp(isgap, cmp_("==", self.S(g), (self.T(a) + self.T(b)) / 2))
            imp(isgap, cmp_("<", 0, self.sign * (self.T(b) - self.T(a))))
            # D(g) is a product of nonzero factors (midpoints are not points, below)
            imp(isgap, cmp_("==", self.D(g), self.product(self.S(g), i)) & ~cmp_("==", self.D(g), 0))
            imp(cmp_("<=", i - 1, g), cmp_("==", self.D(g), 0))
        for g in gaps:
            isgap = cmp_("<=", 0, g) & cmp_("<", g, i - 1)
            for j in pts:
                isp = cmp_("<=", 0, j) & cmp_("<", j, i)
                imp(isgap & isp, cmp_("<=", self.sign * self.T(j), self.sign * self.T(self.L(g)))
                    | cmp_("<=", self.sign * self.T(self.R(g)), self.sign * self.T(j)))
                imp(isgap & isp, ~cmp_("==", self.S(g), self.T(j)))
            for h in gaps:
                if h is not g:
                    ish = cmp_("<=", 0, h) & cmp_("<", h, i - 1)
                    imp(isgap & ish & ~cmp_("==", g, h), ~cmp_("==", self.L(g), self.L(h)))
        for x, j in enumerate(pts):
            isp = cmp_("<=", 0, j) & cmp_("<", j, i)
            imp(isp, cmp_("<=", self.lo, self.T(j)) & cmp_("<=", self.T(j), self.hi))
            for k in pts[x + 1:]:
                imp(isp & cmp_("<=", 0, k) & cmp_("<", k, i) & ~cmp_("==", j, k), ~cmp_("==", self.T(j), self.T(k)))

    def havoc(self, loc, i):
        zt, zs, zp, ix = self.arrays(loc)
        zt.f, zs.f = self.T, self.S
        ix.cols[0].f, ix.cols[1].f = self.L, self.R
        a, b, m = self.first
        for j, x in enumerate((a, b, m)):
            CTX.assume(cmp_("==", self.T(j), x))
        CTX.on_max = lambda w: self.chosen(w, i)
        self.last = i
        objs = zt, zs, PArr(self.n, self.D), ix
        return {self.roles[r]: x for r, x in zip(("points", "midpoints", "products", "ends"), objs)}

    def chosen(self, w, i):
        """the chosen candidate is the midpoint of a gap (the others have product zero, that of gap 0 is not zero)"""
        self.best = w
        load.instantiate_max(0)
        self.inst(i, [Sc.of(0), w], [])
        self.need("the chosen candidate is the midpoint of a gap", cmp_("<", w, i - 1))

    def check(self, loc, i, lab):
        if lab == "entry":
            zt = self.arrays(loc)[0]
            self.first = [zt.f(Sc.of(j)) for j in range(3)]
            if not CTX.choose("entry"):
                return
        self.group(loc, i, lab)
        raise PathEnd()

    def group(self, loc, i, lab):
        """one group of obligations per path"""
        zt, zs, zp, ix = self.arrays(loc)
        old = i - 1
        if lab != "entry" and len(CTX.maxima) != 1:
            raise Unsupported("choice of the next point not recognised")
        gap, point = lambda q: CTX.assume(cmp_("<", q, i - 1)), lambda q: CTX.assume(cmp_("<", q, i))
        facts = lambda gs, ps: self.inst(old, [self.best] + gs, ps) if lab != "entry" else None
        g, j = integer("gap", 0), integer("point", 0)
        if CTX.choose("points"):
            k = integer("otherpoint", 0)
            point(j), point(k), CTX.assume(~cmp_("==", j, k))
            facts([], [j, k])
            pj, pk = zt.f(j), zt.f(k)
            self.need("inside the interval", cmp_("<=", self.lo, pj) & cmp_("<=", pj, self.hi))
            self.need("distinct", ~cmp_("==", pj, pk))
            if lab != "entry":
                if lin.entails(cmp_("<", j, old)):
                    self.need("earlier points stay", cmp_("==", pj, self.T(j)))
                b = self.best
                self.need("new point is the midpoint of a gap",
                          cmp_("==", zt.f(old), (self.T(self.L(b)) + self.T(self.R(b))) / 2))
                CTX.cover("next point")
            return
        if CTX.choose("gap"):
            gap(g)
            facts([g], [])
            a, b = ix.cols[0].f(g), ix.cols[1].f(g)
            self.need("gap ends are points", cmp_("<=", 0, a) & cmp_("<", a, i) & cmp_("<=", 0, b) & cmp_("<", b, i))
            pa, pb, x = zt.f(a), zt.f(b), zs.f(g)
            self.need("candidate is the midpoint of its gap", cmp_("==", x, (pa + pb) / 2))
            self.need("gaps have the direction of the first", cmp_("<", 0, self.sign * (pb - pa)))
            want = lib.prod_(PArr(3, lambda q: x - zt.f(q))) if lab == "entry" else self.product(x, old) * (x - zt.f(old))
            self.need("product of the distances of the candidate to the points", cmp_("==", zp.f(g), want))
            if lab != "entry" and lin.entails(cmp_("<", g, old - 1)):
                load.instantiate_max(g)
                self.need("each next point maximises the product of distances over the midpoints of the gaps",
                          cmp_("<=", terms.abs_(self.product(self.S(g), old)), terms.abs_(self.product(self.S(self.best), old))))
                CTX.cover("maximum")
            return
        if CTX.choose("gap and point"):
            gap(g), point(j)
            facts([g], [j])
            pa, pb, pj = zt.f(ix.cols[0].f(g)), zt.f(ix.cols[1].f(g)), zt.f(j)
            self.need("no point inside a gap", cmp_("<=", self.sign * pj, self.sign * pa) | cmp_("<=", self.sign * pb, self.sign * pj))
            self.need("candidates are not points", ~cmp_("==", zs.f(g), pj))
            return
        if CTX.choose("gaps"):
            h = integer("othergap", 0)
            gap(g), gap(h), CTX.assume(~cmp_("==", g, h))
            facts([g, h], [])
            self.need("different gaps", ~cmp_("==", ix.cols[0].f(g), ix.cols[0].f(h)))
            return
        t = integer("unused", 0)
        CTX.assume(cmp_("<=", i - 1, t) & cmp_("<", t, self.n))
        facts([t], [])
        self.need("unused candidates have product zero", cmp_("==", zp.f(t), 0))


def fast_any():
    """arbitrary interval and number of points"""
    W = make_world()
    ml = W.load("ormatex_py.matexp_leja")
    m, hw = real("centre"), pos("halfwidth")
    n = integer("n", 3)
    a, b = m - hw, m + hw
    seen = []

    def loop(key, kind, it, loc):
        if seen or kind != "for" or not isinstance(it, load.SymRange):
            raise Unsupported("loop of the fast sequence not recognised")
        zt = [x for x in loc.values() if isinstance(x, PArr) and any(terms.is_zero(x.f(Sc.of(0)) - e) for e in (a, b))]
        if len(zt) != 1:
            raise Unsupported("points not recognised")
        up = terms.is_zero(zt[0].f(Sc.of(0)) - b)
        seen.append(Gaps(a, b, up, n, loc))
        return seen[0]
    lib.ZERO_KIND[0] = "parr"
    load.LOOP_CONTRACTS[:] = [loop]
    try:
        z = call("gen_leja_fast", ml.gen_leja_fast, a, b, n)
    finally:
        lib.ZERO_KIND[0] = "arr"
        load.LOOP_CONTRACTS[:] = []
    G = seen[0]
    CTX.prove_eq("number of points", Sc.of(z.shape[0]), n)
    j, k = integer("point", 0), integer("otherpoint", 0)
    CTX.assume(cmp_("<", j, n) & cmp_("<", k, n) & ~cmp_("==", j, k))
    G.need("the loop ends with all points", cmp_("==", G.last, n))
    G.inst(n, [Sc.of(0)], [j, k])
    larger = lin.entails(cmp_("<=", terms.abs_(a), terms.abs_(b)))
    CTX.prove("starts with the end point of larger magnitude", cmp_("==", z[0], b if larger else a) | (
        cmp_("==", terms.abs_(a), terms.abs_(b)) & cmp_("==", z[0], a)))
    CTX.prove("then the other end point", cmp_("==", z[0] + z[1], a + b))
    CTX.prove("then the midpoint", cmp_("==", z[2], m))
    CTX.prove("inside the interval", cmp_("<=", a, z[j]) & cmp_("<=", z[j], b))
    CTX.prove("distinct", ~cmp_("==", z[j], z[k]))
    CTX.note("i-1 gaps that start at different points of i, with no point inside, are all the gaps between neighbouring points (counting)")
    CTX.note("a product of nonzero factors is not zero")
    CTX.cover("generated")


def _prod(xs):
    r = Q(1)
    for x in xs:
        r *= x
    return r


# ----------------------------------------------------------- circle sequence
class Root:
    """point of the unit circle exp(2 pi i q), q exact in [-1/2, 1/2)"""
    __slots__ = ("q",)

    def __init__(self, q):
        q = Q(q) % 1
        self.q = q - 1 if q > Q(1, 2) else q

    @staticmethod
    def of(x):
        if isinstance(x, Root):
            return x
        if isinstance(x, Sc):
            x = x.const() if x.is_const() else x
        if x == 1:
            return Root(0)
        if x == -1:
            return Root(Q(1, 2))
        raise Unsupported("not an exact point of the circle: %r" % (x,))

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return Root(self.q + Root.of(o).q)

    __rmul__ = __mul__

    __array_priority__ = -1

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return Root(self.q - Root.of(o).q)

    def __rtruediv__(self, o):
        return Root(Root.of(o).q - self.q)

    def __pow__(self, k):
        if isinstance(k, Sc):
            k = k.const()
        if Q(k).denominator != 1:
            return Root(self.q * Q(k))
        return Root(self.q * int(k))

    def __neg__(self):
        return Root(self.q + Q(1, 2))

    def conjugate(self):
        return Root(-self.q)

    conj = conjugate

    def sqrt(self):
        return Root(self.q / 2)

    def __eq__(self, o):
        return Root.of(o).q == self.q

    def __hash__(self):
        return hash(self.q)


class Npx:
    """numpy, acting on exact points of the circle"""

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(np, k)

    complex128 = complex64 = object

    @staticmethod
    def zeros(s, dtype=None):
        return np.zeros(_ints(s), dtype=object)

    @staticmethod
    def ones(s, dtype=None):
        return np.ones(_ints(s), dtype=object)

    @staticmethod
    def empty(s, dtype=None):
        return np.zeros(_ints(s), dtype=object)

    @staticmethod
    def array(x, dtype=None):
        return np.array(x, dtype=object)

    asarray = array

    @staticmethod
    def sqrt(x):
        if isinstance(x, np.ndarray):
            return np.array([Root.of(v).sqrt() for v in x.flat], dtype=object).reshape(x.shape)
        return Root.of(x).sqrt()

    @staticmethod
    def conj(x):
        if isinstance(x, np.ndarray):
            return np.array([Root.of(v).conj() for v in x.flat], dtype=object).reshape(x.shape)
        return Root.of(x).conj()

    conjugate = conj


def _ints(s):
    return tuple(int(Sc.of(v)) for v in s) if isinstance(s, (tuple, list)) else int(Sc.of(s))


def circle(ns, conj):
    def fn():
        W = make_world()
        ml = W.load("ormatex_py.matexp_leja")
        ml.np = Npx()
        for n in ns:
            try:
                z = call("gen_leja_circle", ml.gen_leja_circle, n, conj)
                q = [Root.of(v).q for v in z]
            except Unsupported:
                raise
            check_circle(q, n, conj)
        CTX.cover("generated")
    return fn


def check_circle(q, n, conj):
    h = Q(1, 2)
    CTX.prove("n points (n=%d)" % n, B.of(len(q) == n))
    CTX.prove("distinct (n=%d)" % n, B.of(len(set(q)) == n))
    CTX.prove("starts with 1 and -1 (n=%d)" % n, B.of(q[:2] == [Q(0), h]))
    p = 2
    while p <= n:
        CTX.prove("first %d points are the roots of unity of that order (n=%d)" % (p, n), B.of({x % 1 for x in q[:p]} == {Q(j, p) for j in range(p)}))
        p *= 2
    if conj:
        CTX.prove("adjacent conjugate pairs (n=%d)" % n, B.of(all((q[j] + q[j + 1]) % 1 == 0 for j in range(2, n - 1, 2))))
        CTX.prove("consecutive pairs have opposite imaginary parts (n=%d)" % n,
                  B.of(all(_opp(q[j], q[j + 2]) for j in range(4, n - 2, 4))))


def _opp(p, q):
    """sin(2 pi p) = - sin(2 pi q)"""
    return (p + q) % 1 == 0 or (p - q) % 1 == Q(1, 2)


class Turn:
    """point exp(2 pi i q) of the unit circle, q a symbolic number of turns"""
    __slots__ = ("q",)

    def __init__(self, q):
        self.q = Sc.of(q)

    @staticmethod
    def of(x):
        return x if isinstance(x, Turn) else Turn(Root.of(x).q)

    def __mul__(self, o):
        if isinstance(o, Pts):
            return NotImplemented
        return Turn(self.q + Turn.of(o).q)

    __rmul__ = __mul__

    def __neg__(self):
        return Turn(self.q + Q(1, 2))

    def conjugate(self):
        return Turn(-self.q)

    conj = conjugate

    def sqrt(self):
        # principal root: half the angle of (-1/2, 1/2]
        if not lin.entails(cmp_("<", Q(-1, 2), self.q) & cmp_("<=", self.q, Q(1, 2))):
            raise Unsupported("square root of an angle not known to be principal")
        return Turn(self.q / 2)


class Pts:
    """array of points with symbolically many entries; slices are views, as in numpy"""
    abstract_state = True
    __array_priority__ = 5000
    __hash__ = None
    el = staticmethod(lambda x: Turn.of(x))

    def __init__(self, n, f):
        self.n, self.f = Sc.of(n), f

    def __len__(self):
        raise Unsupported("length of a symbolic array as a number")

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    def at(self, i):
        return self.f(Sc.of(i))

    def index(self, k):
        k = Sc.of(k)
        if k.is_const() and k.const() < 0:
            k = self.n + k
        CTX.prove("index within the array", cmp_("<=", 0, k) & cmp_("<", k, self.n))
        return k

    def span(self, s):
        """first index, step and number of entries of a slice, bounds shown to be inside the array"""
        step = 1 if s.step is None else int(Sc.of(s.step))
        if step == 0:
            raise Unsupported("slice step")
        at = lambda v, d: d if v is None else (self.n + Sc.of(v) if Sc.of(v).is_const() and Sc.of(v).const() < 0 else Sc.of(v))
        if step > 0:
            lo, hi = at(s.start, Sc.of(0)), at(s.stop, self.n)
            if not lin.entails(cmp_("<=", hi, self.n)):
                hi = terms.min_(hi, self.n)
        else:
            lo, hi = at(s.start, self.n - 1), at(s.stop, Sc.of(-1))
            if not lin.entails(cmp_("<", lo, self.n) & cmp_("<=", -1, hi)):
                raise Unsupported("slice bounds")
        if not lin.entails(cmp_("<=", 0, lo)):
            raise Unsupported("slice bounds")
        ln = (hi - lo) * (1 if step > 0 else -1)
        if not lin.entails(cmp_("<=", 0, ln)):
            ln = terms.max_(Sc.of(0), ln)
        if abs(step) > 1:
            ln = (ln + abs(step) - 1) // abs(step)
        return lo, step, ln

    def __getitem__(self, k):
        if isinstance(k, slice):
            lo, step, ln = self.span(k)
            return type(self)(ln, lambda i: self.at(lo + i * step))
        if isinstance(k, (int, Sc)):
            return self.at(self.index(k))
        if isinstance(k, (list, tuple)) and all(isinstance(j, (int, Sc)) for j in k):
            return [self.at(self.index(j)) for j in k]
        raise Unsupported("index of an array of points")

    def __setitem__(self, k, v):
        old = self.f
        if isinstance(k, (int, Sc)):
            k, v = self.index(k), self.el(v)
            self.f = lambda i: v if bool(cmp_("==", i, k)) else old(i)
            return
        if not isinstance(k, slice):
            raise Unsupported("index of an array of points")
        lo, step, ln = self.span(k)
        if step != 1:
            raise Unsupported("strided assignment")
        if isinstance(v, (list, tuple)):
            xs = [self.el(x) for x in v]
            src, m = (lambda i: next((x for j, x in enumerate(xs[:-1]) if bool(cmp_("==", i, j))), xs[-1])), Sc.of(len(xs))
        elif isinstance(v, Pts):
            w = v.copy()
            src, m = w.f, w.n
        else:
            x = self.el(v)
            src, m = (lambda i: x), ln
        CTX.prove_eq("as many values as places", m, ln)
        inside = lambda i: cmp_("<=", lo, i) & cmp_("<", i, lo + ln)
        self.f = lambda i: src(i - lo) if lin.entails(inside(i)) else old(i) if lin.entails(~inside(i)) else src(i - lo) if bool(inside(i)) else old(i)

    def copy(self):
        # entries as they are now: views read their base, whose entries may be assigned later
        base, root = self.f, self
        frozen = frames(self)
        return type(self)(self.n, lambda i: with_frames(frozen, lambda: base(i)))

    def map(self, g):
        w = self.copy()
        return type(self)(w.n, lambda i: g(w.at(i)))

    def __mul__(self, o):
        if isinstance(o, Pts):
            a, b = self.copy(), o.copy()
            CTX.prove_eq("factors of the same length", a.n, b.n)
            return type(self)(a.n, lambda i: a.at(i) * b.at(i))
        o = self.el(o)
        return self.map(lambda x: x * o)

    __rmul__ = __mul__

    def __neg__(self):
        return self.map(lambda x: -x)

    def conjugate(self):
        return self.map(lambda x: x.conjugate())

    conj = conjugate


# base arrays whose contents are remembered when a value is computed from them
BASES = []


def frames(a):
    return [(b, b.f) for b in BASES]


def with_frames(fr, g):
    now = [(b, b.f) for b, _ in fr]
    for b, f in fr:
        b.f = f
    try:
        return g()
    finally:
        for b, f in now:
            b.f = f


class Stack:
    """rows of the same length"""

    def __init__(self, rows):
        self.rows = [r.copy() for r in rows]
        for r in self.rows[1:]:
            CTX.prove_eq("rows of the same length", r.n, self.rows[0].n)

    @property
    def T(self):
        s = Stack.__new__(Stack)
        s.rows, s.t = self.rows, not getattr(self, "t", False)
        return s

    def flatten(self, order="C"):
        if order not in ("C", "F") or (order == "F") == getattr(self, "t", False):
            raise Unsupported("flattening order")
        rows, d = self.rows, len(self.rows)

        def f(i):
            m, r = parity(i, d)
            return rows[r].at(m)
        return Pts(rows[0].n * d, f)

    ravel = flatten


# decompositions i = d m + r of ghost positions
PARITY = []


def parity(i, d):
    i = Sc.of(i)
    if i.is_const():
        return Sc.of(int(i.const()) // d), int(i.const()) % d
    for m, r in PARITY:
        if lin.entails(cmp_("==", Sc.of(i), m * d + r)):
            return m, r
    raise Unsupported("row of an interleaved position")


class Npt:
    """numpy, acting on arrays of symbolically many points of the circle"""
    complex128 = complex64 = complex_ = object

    def __getattr__(self, k):
        raise Unsupported("numpy function %s on an array of points" % k)

    @staticmethod
    def zeros(n, dtype=None):
        def unset(i):
            raise Unsupported("a point is used before it is set")
        a = Pts(n if isinstance(n, (int, Sc)) else n[0], unset)
        BASES.append(a)
        return a

    empty = ones = zeros

    @staticmethod
    def sqrt(x):
        return x.map(lambda v: v.sqrt()) if isinstance(x, Pts) else Turn.of(x).sqrt()

    @staticmethod
    def conj(x):
        return x.conjugate() if isinstance(x, Pts) else Turn.of(x).conjugate()

    conjugate = conj

    @staticmethod
    def vstack(xs):
        return Stack(xs)

    @staticmethod
    def stack(xs, axis=0):
        s = Stack(xs)
        if axis in (1, -1):
            return s.T
        if axis != 0:
            raise Unsupported("stack axis")
        return s

    @staticmethod
    def column_stack(xs):
        return Stack(xs).T

    @staticmethod
    def copy(x):
        return x.copy()


class Num(Pts):
    """array of symbolically many complex numbers"""
    el = staticmethod(lambda x: Sc.of(x))

    def __add__(self, o):
        if isinstance(o, Pts):
            a, b = self.copy(), o.copy()
            CTX.prove_eq("summands of the same length", a.n, b.n)
            return Num(a.n, lambda i: a.at(i) + b.at(i))
        o = Sc.of(o)
        return self.map(lambda x: x + o)

    __radd__ = __add__

    def __truediv__(self, o):
        return self * Sc.of(o).inverse()

    @property
    def real(self):
        return self.map(real_)

    @property
    def imag(self):
        return self.map(imag_)

    def conjugate(self):
        return self.map(lambda x: real_(x) - terms.I_ * imag_(x))

    conj = conjugate

    def astype(self, t):
        return self.copy()


class Npb(Npt):
    """numpy, acting on arrays of symbolically many numbers"""
    float64 = float

    @staticmethod
    def zeros(n, dtype=None):
        a = Num(n if isinstance(n, (int, Sc)) else n[0], lambda i: Sc.of(0))
        BASES.append(a)
        return a

    empty = None

    @staticmethod
    def real(x):
        return x.real if isinstance(x, Num) else [real_(v) for v in x] if isinstance(x, list) else real_(Sc.of(x))

    @staticmethod
    def imag(x):
        return x.imag if isinstance(x, Num) else [imag_(v) for v in x] if isinstance(x, list) else imag_(Sc.of(x))


class Blocks:
    """loop over the blocks 2^k .. 2^(k+1)-1.  First loop: before block k, point i < 2^k has the angle V(i), where
    V(0) = 0 and V(2^k + m) = V(m) + 1/2^(k+1).  Second loop: before block k, the points i < 2^k are in conjugate order
    (angle W(i): W(2^k + 2m) = V(2^k + m), W(2^k + 2m + 1) = V(2^(k+1) - 1 - m)), the others at V(i)."""

    def __init__(self, z, second):
        self.z, self.second = z, second
        self.tracked = ()

    def fact(self, k, m=None):
        """the definition of V at block k, and that powers of two grow"""
        CTX.assume(cmp_("<=", 1, Sc.of(2) ** k), None)
        CTX.assume(cmp_("==", V(Sc.of(2) ** k), Q(1, 2) / Sc.of(2) ** k), None)
        if m is not None:
            CTX.assume(cmp_("==", V(Sc.of(2) ** k + m), V(m) + Q(1, 2) / Sc.of(2) ** k), None)

    def need(self, name, got, want):
        if not lin.entails(cmp_("==", got.q, want)):
            raise Unsupported("not shown: %s: %r = %r" % (name, got.q, want))
        CTX.prove_eq(name, got.q, want)

    def check(self, loc, k, lab):
        z, k = self.z, Sc.of(k)
        if not any(v is z for v in loc.values()):
            raise Unsupported("array of points not recognised")
        first = k.is_const()
        P = Sc.of(2) ** k
        if first:
            if int(k.const()) != 1:
                raise Unsupported("first block")
            if not self.second:
                self.need("point 0", z.at(0), V(0))
                self.need("point 1", z.at(1), V(1))
            else:
                # nothing reordered yet: W(0) = V(0), W(1) = V(1)
                i = integer("point", 0)
                CTX.assume(cmp_("<", i, z.n))
                self.need("points before the reordering", z.at(i), V(i))
            return
        j = k - 1                                   # the block that was just treated
        H = Sc.of(2) ** j
        CTX.assume(cmp_("<=", 1, Sc.of(2) ** (j - 1)), None)
        m = integer("m", 0)
        if CTX.choose("earlier block"):
            i = integer("earlier", 0)
            CTX.assume(cmp_("<", i, H))
            self.need("earlier points stay", z.at(i), (W_ if self.second else V)(i))
        elif not self.second:
            CTX.assume(cmp_("<", m, H))
            self.fact(j, m)
            self.fact(j - 1)
            self.need("block of the next power", z.at(H + m), V(H + m))
        elif CTX.choose("later block"):
            i = integer("later", 0)
            CTX.assume(cmp_("<=", P, i) & cmp_("<", i, z.n))
            self.need("later points stay", z.at(i), V(i))
        else:
            CTX.assume(cmp_("<=", m * 2 + 2, H))          # H = 2^j is even
            r = 0 if CTX.choose("first of the pair") else 1
            PARITY[:] = [(m, r)]
            self.need("conjugate order of the block", z.at(H + m * 2 + r), V(H + m) if r == 0 else V(P - 1 - m))

    def havoc(self, loc, k):
        z = self.z
        P = Sc.of(2) ** k
        CTX.assume(cmp_("<=", 2, P), None)
        CTX.assume(cmp_("<=", 1, Sc.of(2) ** (Sc.of(k) - 1)), None)
        CTX.assume(cmp_("<=", 4, P) | cmp_("<=", k, 1), None)
        # the block fits: k < log2n, or the loop is over and nup = 2^log2n
        nup = z.n
        if not self.second:
            self.fact(Sc.of(k) - 1)

            def f(i):
                if lin.entails(cmp_("<", i, P)):
                    return Turn(V(i))
                raise Unsupported("a point is used before it is set")
        else:
            def f(i):
                return Turn(W_(i)) if bool(cmp_("<", i, P)) else Turn(V(i))
        z.f = f
        # k <= log2n: 2^k <= 2^log2n, and below it the next block fits
        CTX.assume(cmp_("<=", P, nup), None)
        CTX.assume(cmp_("<=", P * 2, nup) | cmp_("<=", LOG[0], k), None)
        return {}


LOG = [None]


def V(i):
    i = Sc.of(i)
    if i.is_const() and i.const() in (0, 1):
        return Sc.of(0) if i.const() == 0 else Sc.of(Q(1, 2))
    return Sc.app("V", i)


def W_(i):
    i = Sc.of(i)
    if i.is_const() and i.const() in (0, 1):
        return V(i)
    return Sc.app("W", i)


def circle_any(conj):
    """every number of points"""
    def fn():
        W = make_world()
        ml = W.load("ormatex_py.matexp_leja")
        ml.np = Npt()
        terms.INT_UF.add("V")
        terms.INT_UF.add("W")
        BASES[:], PARITY[:] = [], []
        n = integer("n", 2)
        loops = []

        def rule(key, kind, it, loc):
            if kind == "for" and isinstance(it, range):
                return None                        # at most four points: unrolled
            if kind != "for" or not isinstance(it, load.SymRange) or len(BASES) != 1 or len(loops) >= 2:
                raise Unsupported("loop of the circle sequence not recognised")
            z = BASES[0]
            if not terms.is_zero(z.n - Sc.of(2) ** it.hi):
                raise Unsupported("number of blocks")
            LOG[0] = it.hi
            loops.append(Blocks(z, bool(loops)))
            return loops[-1]
        load.LOOP_CONTRACTS[:] = [rule]
        try:
            z = call("gen_leja_circle", ml.gen_leja_circle, n, conj)
        finally:
            load.LOOP_CONTRACTS[:] = []
        CTX.prove_eq("number of points", z.n, n)
        CTX.prove_eq("first point", z.at(0).q, Sc.of(0))
        CTX.prove_eq("second point", z.at(1).q, Sc.of(Q(1, 2)))
        k, m = integer("block", 1), integer("m", 0)
        H = Sc.of(2) ** k
        CTX.assume(cmp_("<=", 1, Sc.of(2) ** (k - 1)), None)
        if not loops:
            if lin.entails(cmp_("<", 4, n)):
                raise Unsupported("blocks not recognised")
            k, H = Sc.of(1), Sc.of(2)          # at most four points: the block 2, 3
            CTX.assume(cmp_("==", V(2), Q(1, 4)), None)
            CTX.assume(cmp_("==", V(3), Q(3, 4)), None)
        CTX.assume(cmp_("<=", m * 2 + 2, H) if conj else cmp_("<", m, H))
        if not conj:
            i = H + m
            CTX.assume(cmp_("<", i, n))
            CTX.prove_eq("point 2^k + m is point m turned by the next root of unity", z.at(i).q, V(i))
            CTX.note("Lean (Circle.lean): V(0) = 0 and V(2^k + m) = V(m) + 1/2^(k+1) make every first 2^k points the roots of unity of that order, all distinct")
        else:
            r = 0 if CTX.choose("first of the pair") else 1
            PARITY[:] = [(m, r)]
            i = H + m * 2 + r
            CTX.assume(cmp_("<", i, n))
            want = V(H + m) if r == 0 else V(H * 2 - 1 - m)
            CTX.assume(cmp_("==", W_(i), want), None)             # definition of W
            CTX.prove_eq("position 2^k + 2m (+1) holds point 2^k + m (point 2^(k+1) - 1 - m)", z.at(i).q, want)
            CTX.note("Lean (Circle.lean): the reordering permutes each block; the two points of a pair are conjugate, consecutive pairs opposite in their imaginary parts")
        CTX.cover("generated")
    return fn


# --------------------------------------------------------- ellipse sequence
def c_circle(seen):
    """contract of gen_leja_circle (conjugate order)"""
    def f(n=64, conjugate=False):
        used("gen_leja_circle")
        n = int(Sc.of(n))
        CTX.prove("circle-pre: conjugate order requested", B.of(bool(conjugate)))
        z, C, S = [], {}, {}
        for j in range(n):
            if j == 0:
                c, s = Sc.of(1), Sc.of(0)
            elif j == 1:
                c, s = Sc.of(-1), Sc.of(0)
            elif j in (2, 3):
                c, s = Sc.of(0), Sc.of(1 if j == 2 else -1)
            elif j % 2:
                c, s = C[j - 1], -S[j - 1]
            else:
                if j % 4 == 0:
                    c, s = Sc.sym("cos%d" % j), Sc.sym("sin%d" % j)
                    CTX.assume(~cmp_("==", c, 0) & ~cmp_("==", s, 0))
                else:
                    c, s = -C[j - 2], -S[j - 2]
            C[j], S[j] = c, s
            z.append(c + terms.I_ * s)
        seen["C"], seen["S"] = C, S
        return lib.array(z)
    return f


def unit(C, S):
    """instances of cos^2 + sin^2 = 1"""
    for j in C:
        if not (C[j].is_const() or j % 4):
            CTX.assume(cmp_("==", C[j] * C[j] + S[j] * S[j], 1))


def box(n, kind):
    def fn():
        W = make_world()
        ml = W.load("ormatex_py.matexp_leja")
        a, w, c = real("a"), real("width"), real("c")
        b = a + w
        if kind == "empty":
            neg = CTX.choose("width negative")
            CTX.assume(cmp_("<", w, 0) & cmp_("<", 0, c) if neg else cmp_("<", 0, w) & cmp_("<", c, 0))
            CTX.assume(~cmp_("==", w + c * 2, 0))
        else:
            # (both extents negative: the box of a backwards step, mirrored)
            s = 1 if kind == "box" else -1
            CTX.assume(cmp_("<=", 0, w * s) & cmp_("<=", 0, c * s))
            CTX.assume(cmp_("<", 0, (w + c * 2) * s))
        seen = {}
        old = ml.gen_leja_circle
        ml.gen_leja_circle = c_circle(seen)
        try:
            if kind == "empty":
                try:
                    ml.gen_leja_conjugate(n, a, b, c)
                except ValueError:
                    CTX.prove("empty box is rejected", B.of(True))
                    CTX.cover("rejected")
                    return
                CTX.prove("empty box is rejected", B.of(False))
                return
            zt, nr, scale, shift = call("gen_leja_conjugate", ml.gen_leja_conjugate, n, a, b, c)
        finally:
            ml.gen_leja_circle = old
        CTX.prove_eq("scale is the mean half axis", scale, (w / 2 + c) / 2)
        CTX.prove_eq("shift is the centre", shift, a + w / 2)
        CTX.prove("number of points", B.of(len(zt) == n))
        g = w / 2 + c
        h1, h2 = w / g, c * 2 / g
        nr = int(Sc.of(nr))
        X, Y = [real_(Sc.of(z)) for z in zt], [imag_(Sc.of(z)) for z in zt]
        C, S = seen["C"], seen["S"]
        if nr == n:
            CTX.prove("all points real only for a flat box", cmp_("<=", h2, CONST))
            for j in range(n):
                CTX.prove_eq("point %d real" % j, Y[j], Sc.of(0))
                match("point %d" % j, X[j], h1, C, seen.setdefault("u", []))
            CTX.cover("real segment")
        elif nr == 1:
            CTX.prove("imaginary points only for a thin box", cmp_("<=", h1, CONST))
            CTX.prove_eq("leading point real", Y[0], Sc.of(0))
            for j in range(n):
                CTX.prove_eq("point %d imaginary" % j, X[j], Sc.of(0))
                match("point %d" % j, Y[j], h2, S, seen.setdefault("u", []))
            for j in range(1, n - 1, 2):
                CTX.prove_eq("conjugate pair %d" % j, Y[j], -Y[j + 1])
            CTX.cover("imaginary segment")
        elif nr == 2:
            CTX.prove("a box with two extents", cmp_("<=", CONST, h1) & cmp_("<=", CONST, h2))
            for j in range(n):
                if j < 2:
                    CTX.prove_eq("leading point %d real" % j, Y[j], Sc.of(0))
                k = match("point %d" % j, X[j], h1, C, None, Y[j], h2, S)
                seen.setdefault("u", []).append(k)
            CTX.prove("distinct points of the circle used", B.of(len(set(seen["u"])) == n))
            for j in range(2, n - 1, 2):
                CTX.prove_eq("conjugate pair %d (re)" % j, X[j], X[j + 1])
                CTX.prove_eq("conjugate pair %d (im)" % j, Y[j], -Y[j + 1])
            CTX.cover("ellipse")
        else:
            CTX.prove("number of leading real points is 1, 2 or all", B.of(False))
    return fn


def box_any(mirrored):
    """every number of points: which point of the circle every entry is the image of"""
    def fn():
        W = make_world()
        ml = W.load("ormatex_py.matexp_leja")
        ml.np = Npb()
        BASES[:], PARITY[:] = [], []
        terms.INT_UF.add("C")
        terms.INT_UF.add("S")
        n = integer("n", 4)
        a, w, c = real("a"), real("width"), real("c")
        s = -1 if mirrored else 1
        CTX.assume(cmp_("<=", 0, w * s) & cmp_("<=", 0, c * s))
        CTX.assume(cmp_("<", 0, (w + c * 2) * s))
        first = {0: (1, 0), 1: (-1, 0), 2: (0, 1), 3: (0, -1)}

        def co(k, i):
            i = Sc.of(i)
            if i.is_const() and int(i.const()) in first:
                return Sc.of(first[int(i.const())][k])
            return Sc.app("CS"[k], i)

        def c_circle_any(m=64, conjugate=False):
            used("gen_leja_circle")
            CTX.prove("circle-pre: conjugate order requested", B.of(bool(conjugate)))
            CTX.prove("circle-pre: at least two points", cmp_("<=", 2, m))
            z = Num(m, lambda i: co(0, i) + terms.I_ * co(1, i))
            BASES.append(z)
            return z
        old = ml.gen_leja_circle
        ml.gen_leja_circle = c_circle_any
        try:
            zt, nr, scale, shift = call("gen_leja_conjugate", ml.gen_leja_conjugate, n, a, a + w, c)
        finally:
            ml.gen_leja_circle = old
        if not isinstance(zt, Num):
            raise Unsupported("points are not an array")
        CTX.prove_eq("scale is the mean half axis", scale, (w / 2 + c) / 2)
        CTX.prove_eq("shift is the centre", shift, a + w / 2)
        CTX.prove_eq("number of points", zt.n, n)
        g = w / 2 + c
        h1, h2 = w / g, c * 2 / g
        nr = Sc.of(nr)

        def need(lab, got, want):
            if not terms.is_zero(got - want) and not lin.entails(cmp_("==", got, want)):
                raise Unsupported("%s: another point of the circle: %r instead of %r" % (lab, got, want))
            CTX.prove_eq(lab, got, want)
        q = integer("position", 0)
        if terms.is_zero(nr - n):
            CTX.prove("all points real only for a flat box", cmp_("<=", h2, CONST))
            need("point 0", zt.at(0), h1)
            need("point 1", zt.at(1), -h1)
            CTX.assume(cmp_("<", q + 2, n))
            need("point 2 + q is the real part of point 2 + 2q of the circle", zt.at(q + 2), h1 * co(0, q * 2 + 2))
            CTX.cover("real segment")
        elif terms.is_zero(nr - 1):
            CTX.prove("imaginary points only for a thin box", cmp_("<=", h1, CONST))
            need("point 0", zt.at(0), Sc.of(0))
            need("point 1", zt.at(1), terms.I_ * h2)
            need("point 2", zt.at(2), -terms.I_ * h2)
            CTX.assume(cmp_("<", q + 3, n))
            need("point 3 + q is the imaginary part of point 4 + 2q of the circle", zt.at(q + 3), terms.I_ * h2 * co(1, q * 2 + 4))
            CTX.note("Lean (Circle.lean): consecutive pairs of the circle sequence are opposite in their imaginary parts, hence the points 1 + 2j, 2 + 2j are a conjugate pair")
            CTX.cover("imaginary segment")
        elif terms.is_zero(nr - 2):
            CTX.prove("a box with two extents", cmp_("<=", CONST, h1) & cmp_("<=", CONST, h2))
            CTX.assume(cmp_("<", q, n))
            need("point q is the image of point q of the circle", zt.at(q), h1 * co(0, q) + terms.I_ * h2 * co(1, q))
            need("point 0", zt.at(0), h1)
            need("point 1", zt.at(1), -h1)
            CTX.note("Lean (Circle.lean): points 0 and 1 are real, the others come in conjugate pairs, all distinct")
            CTX.cover("ellipse")
        else:
            raise Unsupported("number of leading real points")
    return fn


def match(lab, x, h, C, usedk, y=None, hy=None, S=None):
    """the coordinate is that of some point of the circle, scaled by the half axis; remembers which"""
    for k in sorted(C):
        if terms.is_zero(x - h * C[k]) and (y is None or terms.is_zero(y - hy * S[k])):
            CTX.prove_eq("%s lies on the ellipse (re)" % lab, x, h * C[k])
            if y is not None:
                CTX.prove_eq("%s lies on the ellipse (im)" % lab, y, hy * S[k])
            if usedk is not None:
                val = C[k].key()
                CTX.prove("%s not repeated" % lab, B.of(val not in usedk))
                usedk.append(val)
            return k
    CTX.prove("%s lies on the ellipse" % lab, cmp_("==", (x / h) ** 2 + (0 if y is None else (y / hy) ** 2), 1))
    raise Unsupported("%s: not one of the mapped points" % lab)


# ---------------------------------------------------------------- reordering
def reorder(n, cplx):
    def fn():
        W = make_world()
        mp = W.load("ormatex_py.matexp_poly")
        xs = [real("x%d" % j) + (terms.I_ * real("y%d" % j) if cplx else 0) for j in range(n)]
        out = call("leja_seq_reordering", mp.leja_seq_reordering, lib.array(list(xs)))
        out = [Sc.of(v) for v in out]
        CTX.prove("same number of points", B.of(len(out) == n))
        keys = [v.key() for v in xs]
        perm = [keys.index(v.key()) if v.key() in keys else None for v in out]
        CTX.prove("a permutation of the points", B.of(sorted(map(str, perm)) == sorted(map(str, range(n)))))
        if None in perm:
            return
        dist = lambda p, q: terms.abs_(p - q)
        for i in range(1, n - 1):
            best = _sprod(dist(out[i], o) for o in out[:i])
            for j in range(i + 1, n):
                CTX.prove("point %d is the greedy choice" % i, cmp_("<=", _sprod(dist(out[j], o) for o in out[:i]), best))
        CTX.cover("reordered")
    return fn


def _sprod(xs):
    r = Sc.of(1)
    for x in xs:
        r = r * x
    return r


def tasks():
    T = []
    F = ["matexp_leja.gen_leja_fast"]
    for n in (*range(4, 26), 40, 64, 100):
        T.append(Task("fast-%d" % n, fast(n), F, covers=["generated"], bounded="number of points n = 4..25, 40, 64, 100 (interval arbitrary; every number: fast-any-number)"))
    T.append(Task("fast-any-number", fast_any, F, covers=["generated", "next point", "maximum"]))
    T.append(Task("fast-symmetric", fast(12, "sym"), F, covers=["generated"], bounded="number of points n = 12 (interval arbitrary; every number: fast-any-number)"))
    G = ["matexp_leja.gen_leja_circle"]
    ns = list(range(2, 70)) + [100, 127, 128, 129, 511, 1024, 1025]
    for conj in (False, True):
        T.append(Task("circle%s" % ("-conjugate" if conj else ""), circle(ns, conj), G, covers=["generated"],
                      bounded="number of points n = 2..69, 100, 127..129, 511, 1024, 1025 (every number: circle%s-any-number)" % ("-conjugate" if conj else "")))
        T.append(Task("circle%s-any-number" % ("-conjugate" if conj else ""), circle_any(conj), G, covers=["generated", "loop-body"]))
    H = ["matexp_leja.gen_leja_conjugate"]
    for n in (4, 5, 6, 7, 8, 9, 13, 16, 17):
        T.append(Task("box-%d" % n, box(n, "box"), H, covers=["real segment", "imaginary segment", "ellipse"],
                      bounded="number of points n = 4..9, 13, 16, 17 (box arbitrary; every number: box-any-number)"))
    T.append(Task("box-mirrored", box(8, "mirrored"), H, covers=["ellipse"], bounded="number of points n = 8 (box arbitrary; every number: box-any-number)"))
    T.append(Task("box-empty", box(8, "empty"), H, covers=["rejected"], bounded="number of points n = 8 (box arbitrary; every number: box-any-number)"))
    for mirrored in (False, True):
        T.append(Task("box-%sany-number" % ("mirrored-" if mirrored else ""), box_any(mirrored), H, covers=["real segment", "imaginary segment", "ellipse"]))
    R = ["matexp_poly.leja_seq_reordering"]
    for n in (1, 2, 3, 4):
        T.append(Task("reorder-%d" % n, reorder(n, False), R, covers=["reordered"], bounded="1..4 real points, 2..3 complex points (values arbitrary)"))
    for n in (2, 3):
        T.append(Task("reorder-complex-%d" % n, reorder(n, True), R, covers=["reordered"], bounded="1..4 real points, 2..3 complex points (values arbitrary)"))
    for p in (None, 1):
        T.append(Task("padding-%s" % ("any" if p is None else p), C16.padding(p), ["matexp_poly.leja_seq_pad_zeros"], covers=["padded"]))
    return T
