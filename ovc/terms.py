"""Scalar terms, booleans and their translation to SMT.

`Sc`  exact scalar: Laurent polynomial with rational coefficients over atoms
      (symbols, applications of functions, reciprocals of polynomials).
`B`   boolean term over Sc comparisons.

Arithmetic is exact real/complex/integer arithmetic: floating point literals of the
verified source are read as the decimal rational they spell.
"""
from fractions import Fraction
import math
import hashlib

import z3


class Unsupported(Exception):
    """The construct is outside the verifier's subset."""


# --------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------
class Atom:
    __slots__ = ("id", "name", "args", "sort", "nonneg", "pos", "z", "num")
    table = {}
    by_id = []

    def __init__(self, name, args, sort, nonneg=False, pos=False):
        self.name, self.args, self.sort = name, args, sort
        self.nonneg, self.pos = nonneg or pos, pos
        self.z = None
        self.num = None
        self.id = len(Atom.by_id)
        Atom.by_id.append(self)

    @staticmethod
    def get(name, args=(), sort="R", **kw):
        key = (name, tuple(_key(a) for a in args), sort)
        a = Atom.table.get(key)
        if a is None:
            a = Atom(name, tuple(args), sort, **kw)
            Atom.table[key] = a
        else:
            if kw.get("nonneg"):
                a.nonneg = True
            if kw.get("pos"):
                a.nonneg = a.pos = True
        return a

    def __repr__(self):
        if self.args:
            return "%s(%s)" % (self.name, ", ".join(map(repr, self.args)))
        return self.name


def _key(a):
    k = getattr(a, "key", None)
    if k is not None:
        return k() if callable(k) else k
    return a


_counter = [0]


def fresh_name(base):
    _counter[0] += 1
    return "%s!%d" % (base, _counter[0])


# --------------------------------------------------------------------------
# Laurent polynomials: dict monomial -> Fraction, monomial = ((atom_id, exp), ...)
# --------------------------------------------------------------------------
ONE = ()


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            del d[a]
    return tuple(sorted(d.items()))


def _needs_reduce(m):
    for a, e in m:
        at = Atom.by_id[a]
        if at.name in ("sqrt",) and (e >= 2 or e <= -2):
            return True
        if at.name == "I" and (e >= 2 or e < 0):
            return True
        if at.name == "inv" and e < 0:
            return True
    return False


def _reduce_poly(p):
    """apply sqrt(x)^2 = x, I^2 = -1, inv(x)^-1 = x"""
    if not any(_needs_reduce(m) for m in p):
        return p
    out = {}
    for m, c in p.items():
        if not _needs_reduce(m):
            _padd(out, m, c)
            continue
        rest, extra = [], {ONE: c}
        for a, e in m:
            at = Atom.by_id[a]
            if at.name == "sqrt" and (e >= 2 or e <= -2):
                h = e // 2 if e > 0 else -((-e) // 2)
                r = e - 2 * h
                base = at.args[0]
                f = base ** h if h > 0 else (Sc.of(1) / base) ** (-h)
                extra = _pmul(extra, f.p)
                if r:
                    rest.append((a, r))
            elif at.name == "I" and (e >= 2 or e < 0):
                r = e % 4
                sgn = 1 if r in (0, 1) else -1
                extra = {k: v * sgn for k, v in extra.items()}
                if r % 2:
                    rest.append((a, 1))
            elif at.name == "inv" and e < 0:
                extra = _pmul(extra, (at.args[0] ** (-e)).p)
            else:
                rest.append((a, e))
        for m2, c2 in extra.items():
            _padd(out, _mono_mul(tuple(sorted(rest)), m2), c2)
    return _reduce_poly(out)


def _padd(d, m, c):
    n = d.get(m, 0) + c
    if n:
        d[m] = n
    elif m in d:
        del d[m]


def _pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            _padd(out, _mono_mul(m1, m2), c1 * c2)
    return out


class Sc:
    """exact scalar term"""
    __slots__ = ("p", "_k")
    __array_priority__ = 1000
    shape = ()
    ndim = 0
    dtype = "real"

    def __init__(self, p):
        self.p = p
        self._k = None

    # -- constructors -----------------------------------------------------
    @staticmethod
    def of(x):
        if isinstance(x, Sc):
            return x
        if isinstance(x, B):
            return x.to_sc()
        if isinstance(x, bool):
            return Sc({ONE: Fraction(int(x))} if x else {})
        if isinstance(x, (int, Fraction)):
            return Sc({ONE: Fraction(x)} if x else {})
        if isinstance(x, float):
            if math.isnan(x) or math.isinf(x):
                return Sc.sym("inf" if x > 0 else ("-inf" if x < 0 else "nan"))
            f = Fraction(repr(x))
            return Sc({ONE: f} if f else {})
        if isinstance(x, complex):
            return Sc.of(x.real) + Sc.of(x.imag) * I_
        if hasattr(x, "item") and getattr(x, "ndim", 1) == 0:
            return Sc.of(x.item())
        raise Unsupported("not a scalar: %s" % type(x).__name__)

    @staticmethod
    def lit(s):
        f = Fraction(s)
        return Sc({ONE: f} if f else {})

    @staticmethod
    def sym(name, sort="R", **kw):
        return Sc({((Atom.get(name, (), sort, **kw).id, 1),): Fraction(1)})

    @staticmethod
    def fresh(base, sort="R", **kw):
        return Sc.sym(fresh_name(base), sort, **kw)

    @staticmethod
    def app(name, *args, sort="R", **kw):
        return Sc({((Atom.get(name, args, sort, **kw).id, 1),): Fraction(1)})

    # -- inspection ---------------------------------------------------------
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.p.items()))
        return self._k

    def is_const(self):
        return not self.p or (len(self.p) == 1 and ONE in self.p)

    def const(self):
        if not self.p:
            return Fraction(0)
        if self.is_const():
            return self.p[ONE]
        return None

    def is_int(self):
        for m, c in self.p.items():
            if c.denominator != 1:
                return False
            for a, e in m:
                if Atom.by_id[a].sort != "I" or e < 0:
                    return False
        return True

    def atoms(self, deep=True, acc=None):
        acc = set() if acc is None else acc
        for m in self.p:
            for a, _ in m:
                if a not in acc:
                    acc.add(a)
                    if deep:
                        for x in Atom.by_id[a].args:
                            if isinstance(x, Sc):
                                x.atoms(True, acc)
        return acc

    def is_monomial(self):
        return len(self.p) == 1

    # -- arithmetic ---------------------------------------------------------
    def __add__(self, o):
        if not _scalarish(o):
            return NotImplemented
        o = Sc.of(o)
        out = dict(self.p)
        for m, c in o.p.items():
            _padd(out, m, c)
        return Sc(out)
    __radd__ = __add__

    def __neg__(self):
        return Sc({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not _scalarish(o):
            return NotImplemented
        return self + (-Sc.of(o))

    def __rsub__(self, o):
        if not _scalarish(o):
            return NotImplemented
        return Sc.of(o) - self

    def __mul__(self, o):
        if not _scalarish(o):
            return NotImplemented
        o = Sc.of(o)
        return Sc(_reduce_poly(_pmul(self.p, o.p)))
    __rmul__ = __mul__

    def inverse(self):
        if not self.p:
            if _lenient_div[0]:
                return Sc.fresh("undefined")
            raise ZeroDivisionError("division by zero")
        if len(self.p) == 1:
            (m, c), = self.p.items()
            note_nonzero(self)
            return Sc(_reduce_poly({tuple((a, -e) for a, e in m): 1 / c}))
        note_nonzero(self)
        lead = min(self.p.items())[1]
        # factor out common monomial content
        common = None
        for m in self.p:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {a: min(e, d.get(a, 0)) for a, e in common.items()
                          if d.get(a, 0) > 0 and e > 0}
        common = tuple(sorted((a, e) for a, e in (common or {}).items() if e > 0))
        inv_c = tuple((a, -e) for a, e in common)
        prim = Sc({_mono_mul(m, inv_c): c / lead for m, c in self.p.items()})
        if prim.is_const():
            return Sc({inv_c: 1 / lead / prim.const()})
        if any(a == I_atom for m in prim.p for a, _ in m):
            # 1/(x + I y) = (x - I y)/(x^2 + y^2): reciprocal atoms stay real
            x, y = real_(prim), imag_(prim)
            return Sc({inv_c: 1 / lead}) * (x - I_ * y) * (x * x + y * y).inverse()
        at = Atom.get("inv", (prim,), "R")
        return Sc(_reduce_poly({_mono_mul(inv_c, ((at.id, 1),)): 1 / lead}))

    def __truediv__(self, o):
        if not _scalarish(o):
            return NotImplemented
        return self * Sc.of(o).inverse()

    def __rtruediv__(self, o):
        if not _scalarish(o):
            return NotImplemented
        return Sc.of(o) * self.inverse()

    def bit_length(self):
        """int.bit_length of a nonnegative integer: the least L with self < 2^L"""
        if self.is_const():
            return Sc.of(int(self.const()).bit_length())
        from .explore import CTX
        if not self.is_int():
            raise AttributeError("bit_length")
        L = Sc.fresh("bits", "I")
        CTX.assume(cmp_("<=", 0, L), None)
        CTX.assume(cmp_("<=", self + 1, Sc.of(2) ** L), None)
        CTX.assume(cmp_("<=", Sc.of(2) ** (L - 1), self) | cmp_("<=", self, 0), None)
        for j in range(3):
            CTX.assume((cmp_("<=", L, j) & cmp_("<=", self + 1, 2 ** j)) | (cmp_("<=", j + 1, L) & cmp_("<=", 2 ** j, self)), None)
        CTX.note("int.bit_length: the least L with x < 2^L (Python)")
        return L

    def __floordiv__(self, o):
        o = Sc.of(o)
        if self.is_const() and o.is_const():
            return Sc.of(self.const() // o.const())
        return floor_(self / o)

    def __mod__(self, o):
        if isinstance(o, (tuple, dict)):
            return NotImplemented
        o = Sc.of(o)
        if self.is_const() and o.is_const():
            return Sc.of(self.const() % o.const())
        return self - o * floor_(self / o)

    def __rmod__(self, o):
        return Sc.of(o) % self

    def __pow__(self, o):
        if not _scalarish(o):
            return NotImplemented
        o = Sc.of(o)
        e = o.const()
        if e is not None and e.denominator == 1:
            e = int(e)
            if e < 0:
                return self.inverse() ** (-e)
            r, b = Sc.of(1), self
            while e:
                if e & 1:
                    r = r * b
                b = b * b if e > 1 else b
                e >>= 1
            return r
        if e is not None and e.denominator == 2:
            return sqrt_(self) ** int(e * 2)
        if self.is_const() and self.const() == 1:
            return Sc.of(1)
        if self.is_const() and self.const() is not None and self.const() > 0:
            return pow_const_base(self, o)
        return Sc.app("pow", self, o)

    def __rpow__(self, o):
        return Sc.of(o) ** self

    def __abs__(self):
        return abs_(self)

    def __float__(self):
        c = self.const()
        if c is None:
            raise Unsupported("concrete float of a symbolic scalar")
        return float(c)

    def __int__(self):
        c = self.const()
        if c is None:
            raise Unsupported("concrete int of a symbolic scalar")
        return int(c)

    def __index__(self):
        c = self.const()
        if c is None or c.denominator != 1:
            raise Unsupported("symbolic scalar used as a concrete index")
        return int(c)

    def __hash__(self):
        return hash(self.key())

    # -- comparison -----------------------------------------------------------
    def __lt__(self, o):
        return NotImplemented if getattr(o, "abstract_array", False) else cmp_("<", self, o)

    def __le__(self, o):
        return NotImplemented if getattr(o, "abstract_array", False) else cmp_("<=", self, o)

    def __gt__(self, o):
        return NotImplemented if getattr(o, "abstract_array", False) else cmp_("<", o, self)

    def __ge__(self, o):
        return NotImplemented if getattr(o, "abstract_array", False) else cmp_("<=", o, self)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if not _scalarish(o):
            return NotImplemented
        return cmp_("==", self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        if not _scalarish(o):
            return NotImplemented
        return ~cmp_("==", self, o)

    def __bool__(self):
        c = self.const()
        if c is not None:
            return c != 0
        return bool(~cmp_("==", self, 0))

    # -- array-like behaviour of 0-d values -------------------------------------
    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    @property
    def real(self):
        return real_(self)

    @property
    def imag(self):
        return imag_(self)

    def astype(self, t, *a, **k):
        return self

    def item(self):
        return self

    def block_until_ready(self):
        return self

    def conj(self):
        return conj_(self)

    def reshape(self, *s, **k):
        raise Unsupported("reshape of a 0-d value")

    def __repr__(self):
        if not self.p:
            return "0"
        s = []
        for m, c in sorted(self.p.items(), key=lambda t: repr(t)):
            t = "*".join("%r%s" % (Atom.by_id[a], "" if e == 1 else "^%d" % e) for a, e in m)
            if not t:
                s.append(str(c))
            elif c == 1:
                s.append(t)
            else:
                s.append("%s*%s" % (c, t))
        return " + ".join(s)

    def __format__(self, spec):
        if self.is_const() and spec:
            return format(float(self.const()), spec)
        return repr(self)


def _scalarish(o):
    import numpy as _np
    return isinstance(o, (Sc, int, float, Fraction, bool, complex, B)) or isinstance(o, _np.generic)


I_ = Sc.sym("I", "C")
PI_ = Sc.sym("pi", "R", pos=True)

# hook set by the explorer: called with a divisor
_nonzero_hook = [None]
_lenient_div = [False]     # array division by exact zero yields an unspecified value


def note_nonzero(s):
    if s.is_const():
        if s.const() == 0:
            raise ZeroDivisionError("division by zero")
        return
    if _nonzero_hook[0] is not None:
        _nonzero_hook[0](s)


# --------------------------------------------------------------------------
# zero test (ring normal form, reciprocals cleared)
# --------------------------------------------------------------------------
def clear_inv(s, depth=0):
    """multiply by the arguments of reciprocal atoms; returns polynomial with same zeros"""
    for _ in range(12):
        best = {}
        for m in s.p:
            for a, e in m:
                if Atom.by_id[a].name == "inv" and e > 0:
                    best[a] = max(best.get(a, 0), e)
        if not best:
            return s
        a = max(best)
        e = best[a]
        q = Atom.by_id[a].args[0]
        pw = [Sc.of(1)]
        for _j in range(e):
            pw.append(pw[-1] * q)
        out = Sc({})
        groups = {}
        for m, c in s.p.items():
            k = 0
            rest = []
            for aa, ee in m:
                if aa == a:
                    k = ee
                else:
                    rest.append((aa, ee))
            groups.setdefault(k, {})[tuple(rest)] = c
        for k, poly in groups.items():
            out = out + Sc(dict(poly)) * pw[e - k]
        s = out
    return s


def is_zero(s):
    if not s.p:
        return True
    if s.is_const():
        return False
    r = clear_inv(s)
    return not r.p or not unify_exp(r).p


def unify_exp(s):
    """exp(x/p)^k over a common denominator p"""
    groups = {}
    for m in s.p:
        for a, _ in m:
            at = Atom.by_id[a]
            if at.name == "exp" and len(at.args) == 1 and len(at.args[0].p) == 1:
                (mm, c), = at.args[0].p.items()
                if c.numerator == 1:
                    groups.setdefault(mm, {})[a] = c.denominator
    repl = {}
    for mm, g in groups.items():
        if len(set(g.values())) > 1:
            L = math.lcm(*g.values())
            some = Atom.by_id[next(iter(g))]
            t = Atom.get("exp", (Sc({mm: Fraction(1, L)}),), some.sort, **({"pos": True} if some.pos else {}))
            for a, p in g.items():
                repl[a] = (t.id, L // p)
    if not repl:
        return s
    out = Sc({})
    for m, c in s.p.items():
        q = {}
        for a, e in m:
            a, e = (repl[a][0], e * repl[a][1]) if a in repl else (a, e)
            q[a] = q.get(a, 0) + e
        out = out + Sc({tuple(sorted((a, e) for a, e in q.items() if e)): c})
    return out


# --------------------------------------------------------------------------
# scalar functions
# --------------------------------------------------------------------------
def _isq(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def sqrt_(s):
    s = Sc.of(s)
    c = s.const()
    if c is not None and c >= 0:
        a, b = _isq(c.numerator), _isq(c.denominator)
        if a is not None and b is not None:
            return Sc.of(Fraction(a, b))
        # rationalise: sqrt(p/q) = sqrt(p q)/q , pull out square factors
        n = c.numerator * c.denominator
        f, k = 1, 2
        while k * k <= n and k < 1000:
            while n % (k * k) == 0:
                n //= k * k
                f *= k
            k += 1
        at = Atom.get("sqrt", (Sc.of(n),), "R", pos=True)
        return Sc({((at.id, 1),): Fraction(f, c.denominator)})
    if s.is_monomial():
        (m, c), = s.p.items()
        if c > 0 and all(e % 2 == 0 for _, e in m):
            r = Sc({tuple((a, e // 2) for a, e in m): Fraction(1)})
            if all(Atom.by_id[a].nonneg for a, _ in m):
                return r * sqrt_(c)
            return abs_(r) * sqrt_(c)
    return Sc.app("sqrt", s, nonneg=True)


def exp_(s):
    s = Sc.of(s)
    if not s.p:
        return Sc.of(1)
    # exp(a+b) = exp(a) exp(b): split on monomials; integer multiples become powers
    out = Sc.of(1)
    for m, c in sorted(s.p.items()):
        if m == ONE:
            at = Atom.get("exp", (Sc.of(Fraction(1, c.denominator)),), "R", pos=True)
            out = out * Sc({((at.id, int(c.numerator)),): Fraction(1)})
        else:
            base = Sc({m: Fraction(1, c.denominator)})
            if I_atom in [a for a, _ in m]:
                at = Atom.get("exp", (base,), "C")
            else:
                at = Atom.get("exp", (base,), "R", pos=True)
            out = out * Sc({((at.id, int(c.numerator)),): Fraction(1)})
    return out


I_atom = next(iter(I_.p))[0][0]


def log_(s):
    s = Sc.of(s)
    if s.is_const() and s.const() == 1:
        return Sc({})
    if s.is_monomial():
        (m, c), = s.p.items()
        ok = c > 0
        out = _log_const(c) if ok else Sc({})
        for a, e in m:
            at = Atom.by_id[a]
            if not at.pos and not at.nonneg:
                ok = False
            if at.name == "exp":
                out = out + at.args[0] * e
            else:
                out = out + Sc.app("log", Sc({((a, 1),): Fraction(1)})) * e
        if ok:
            return out
    return Sc.app("log", s)


def _log_const(c):
    """log of a positive rational as a sum over its prime factors"""
    out = Sc({})
    for n, sgn in ((c.numerator, 1), (c.denominator, -1)):
        if n > 10 ** 9:
            return Sc.app("log", Sc.of(c))
        p = 2
        while n > 1:
            while n % p == 0:
                out = out + Sc.app("log", Sc.of(p), pos=True) * sgn
                n //= p
            p = p + 1 if p * p <= n else max(n, p + 1)
    return out


def pow_const_base(b, o):
    """b ** o for positive constant b: keep as exp2-style atoms with additive exponents"""
    b = Sc.of(b)
    c = b.const()
    out = Sc.of(1)
    for m, k in Sc.of(o).p.items():
        if m == ONE:
            if k.denominator == 1:
                out = out * (b ** int(k))
            else:
                out = out * Sc.app("pow", b, Sc.of(k), pos=True)
        else:
            base = Sc({m: Fraction(1, k.denominator)})
            at = Atom.get("pow", (b, base), "R", pos=True)
            out = out * Sc({((at.id, int(k.numerator)),): Fraction(1)})
    return out


def abs_(s):
    s = Sc.of(s)
    c = s.const()
    if c is not None:
        return Sc.of(abs(c))
    if any(Atom.by_id[a].sort == "C" for a in s.atoms(deep=False)):
        return sqrt_(real_(s) ** 2 + imag_(s) ** 2)
    if s.is_monomial():
        (m, c), = s.p.items()
        if all(Atom.by_id[a].nonneg or e % 2 == 0 for a, e in m):
            return Sc({m: abs(c)})
    # |x| = |-x|: canonical sign
    lead = min(s.p.items())[1]
    if lead < 0:
        s = -s
    return Sc.app("abs", s, nonneg=True, sort="I" if s.is_int() else "R")


def floor_(s):
    s = Sc.of(s)
    if s.is_const():
        return Sc.of(math.floor(s.const()))
    if s.is_int():
        return s
    return Sc.app("floor", s, sort="I")


def ceil_(s):
    s = Sc.of(s)
    if s.is_const():
        return Sc.of(math.ceil(s.const()))
    return -floor_(-s)


def real_(s):
    s = Sc.of(s)
    out = {}
    for m, c in s.p.items():
        for a, e in m:
            at = Atom.by_id[a]
            if at.sort == "C" and a != I_atom:
                raise Unsupported("real part of opaque complex value")
        if not any(a == I_atom for a, _ in m):
            out[m] = c
    return Sc(out)


def imag_(s):
    s = Sc.of(s)
    out = {}
    for m, c in s.p.items():
        for a, e in m:
            at = Atom.by_id[a]
            if at.sort == "C" and a != I_atom:
                raise Unsupported("imag part of opaque complex value")
        if any(a == I_atom for a, _ in m):
            out[tuple(x for x in m if x[0] != I_atom)] = c
    return Sc(out)


def conj_(s):
    return real_(s) - I_ * imag_(s)


def diff(s, x):
    """derivative of a scalar term with respect to the symbol x"""
    s, x = Sc.of(s), Sc.of(x)
    (m0, _), = x.p.items()
    xid = m0[0][0]
    out = Sc({})
    for m, c in s.p.items():
        for k, (a, e) in enumerate(m):
            d = _datom(a, xid, x)
            if not d.p:
                continue
            rest = tuple(t for j, t in enumerate(m) if j != k)
            if e != 1:
                rest = _mono_mul(rest, ((a, e - 1),))
            out = out + Sc({rest: c * e}) * d
    return out


def _datom(a, xid, x):
    if a == xid:
        return Sc.of(1)
    at = Atom.by_id[a]
    if not at.args:
        return Sc({})
    u = at.args[0]
    if not any(isinstance(y, Sc) and xid in y.atoms(True) for y in at.args):
        return Sc({})
    du = diff(u, x)
    me = Sc({((a, 1),): Fraction(1)})
    if at.name == "exp":
        return me * du
    if at.name == "inv":
        return -(me * me) * du
    if at.name == "sqrt":
        return du * me.inverse() / 2
    if at.name == "log":
        return du * u.inverse()
    if at.name == "sin":
        return Sc.app("cos", u) * du
    if at.name == "cos":
        return -Sc.app("sin", u) * du
    if at.name == "tanh":
        return (1 - me * me) * du
    if at.name == "floor":
        return Sc({})       # away from the jumps
    if at.name == "abs":
        return du if bool(cmp_("<=", 0, u)) else -du
    if at.name == "pow" and not diff(at.args[1], x).p:
        return at.args[1] * me / u * du
    raise Unsupported("derivative of " + at.name)


def min_(a, b):
    a, b = Sc.of(a), Sc.of(b)
    return a if bool(a <= b) else b


def max_(a, b):
    a, b = Sc.of(a), Sc.of(b)
    return b if bool(a <= b) else a


def factorial_(s):
    s = Sc.of(s)
    c = s.const()
    if c is not None:
        if c < 0 or c.denominator != 1:
            # scipy.special.factorial of a negative integer is 0 by convention there; jax: gamma pole
            return Sc.sym("inf", pos=True)
        return Sc.of(math.factorial(int(c)))
    return Sc.app("factorial", s, pos=True)


# --------------------------------------------------------------------------
# booleans
# --------------------------------------------------------------------------
class B:
    __slots__ = ("op", "args", "_z")
    shape = ()
    ndim = 0
    __array_priority__ = 1000

    def __init__(self, op, *args):
        self.op, self.args = op, args
        self._z = None

    @staticmethod
    def of(x):
        if isinstance(x, B):
            return x
        if isinstance(x, Sc):
            return ~cmp_("==", x, 0)
        return TRUE if x else FALSE

    def const(self):
        return {"T": True, "F": False}.get(self.op)

    def __and__(self, o):
        o = B.of(o)
        if self.op == "F" or o.op == "F":
            return FALSE
        if self.op == "T":
            return o
        if o.op == "T":
            return self
        return B("and", self, o)
    __rand__ = __and__

    def __or__(self, o):
        o = B.of(o)
        if self.op == "T" or o.op == "T":
            return TRUE
        if self.op == "F":
            return o
        if o.op == "F":
            return self
        return B("or", self, o)
    __ror__ = __or__

    def __invert__(self):
        if self.op == "T":
            return FALSE
        if self.op == "F":
            return TRUE
        if self.op == "not":
            return self.args[0]
        return B("not", self)

    def __eq__(self, o):
        o = B.of(o)
        return (self & o) | (~self & ~o)

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return hash(self.key())

    def key(self):
        return (self.op,) + tuple(_key(a) for a in self.args)

    def __bool__(self):
        c = self.const()
        if c is not None:
            return c
        return decide(self)

    def to_sc(self):
        c = self.const()
        if c is None:
            c = decide(self)
        return Sc.of(int(c))

    def __mul__(self, o):
        return self.to_sc() * o
    __rmul__ = __mul__

    def __add__(self, o):
        return self.to_sc() + o
    __radd__ = __add__

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __repr__(self):
        if self.op in ("T", "F"):
            return {"T": "true", "F": "false"}[self.op]
        if self.op in ("<", "<=", "=="):
            return "(%r %s %r)" % (self.args[0], self.op, self.args[1])
        if self.op == "not":
            return "!%r" % (self.args[0],)
        if self.op == "atom":
            return str(self.args[0])
        return "(%s)" % ((" %s " % self.op).join(map(repr, self.args)))


TRUE, FALSE = B("T"), B("F")

_decider = [None]


def decide(b):
    if _decider[0] is None:
        raise Unsupported("branch on a symbolic condition outside an exploration")
    return _decider[0](b)


def batom(name):
    return B("atom", name)


def cmp_(op, a, b):
    a, b = Sc.of(a), Sc.of(b)
    d = a - b
    c = d.const()
    if c is not None:
        if op == "<":
            return TRUE if c < 0 else FALSE
        if op == "<=":
            return TRUE if c <= 0 else FALSE
        return TRUE if c == 0 else FALSE
    if op == "==" and is_zero(d):
        return TRUE
    if op in ("<", "<="):
        # sign knowledge for single monomials over nonnegative/positive atoms
        if d.is_monomial():
            (m, c), = d.p.items()
            allpos = all(Atom.by_id[x].pos for x, _ in m)
            allnn = all(Atom.by_id[x].nonneg or e % 2 == 0 for x, e in m)
            if allpos:
                return TRUE if c < 0 else FALSE
            if allnn:
                if c < 0 and op == "<=":
                    return TRUE
                if c > 0 and op == "<":
                    return FALSE
    return B(op, a, b)


# --------------------------------------------------------------------------
# z3 translation
# --------------------------------------------------------------------------
_z3fun = {}


def atom_z3(a):
    if a.z is not None:
        return a.z
    sort = z3.IntSort() if a.sort == "I" else z3.RealSort()
    if not a.args:
        a.z = z3.Const(a.name, sort)
        return a.z
    zs = []
    ok = True
    for x in a.args:
        if isinstance(x, Sc):
            zs.append(to_z3(x))
        elif isinstance(x, (int, str)):
            continue
        else:
            ok = False
    tag = a.name + "".join("_" + str(x) for x in a.args if isinstance(x, (int, str)))
    if not ok:
        a.z = z3.Const("%s@%d" % (a.name, a.id), sort)
        return a.z
    if a.name == "abs":
        a.z = z3.If(zs[0] >= 0, zs[0], -zs[0])
        return a.z
    if a.name == "inv":
        a.z = 1 / z3.ToReal(zs[0]) if zs[0].is_int() else 1 / zs[0]
        return a.z
    if a.name == "floor":
        a.z = z3.ToInt(zs[0])
        return a.z
    zs = [z3.ToReal(x) if x.is_int() and a.name not in INT_UF else x for x in zs]
    key = (tag, tuple(str(x.sort()) for x in zs), str(sort))
    f = _z3fun.get(key)
    if f is None:
        f = z3.Function(tag, *[x.sort() for x in zs], sort)
        _z3fun[key] = f
    a.z = f(*zs)
    return a.z


INT_UF = set()


def to_z3(s):
    s = Sc.of(s)
    isint = s.is_int()
    terms = []
    for m, c in s.p.items():
        fs, den = [], []
        for a, e in m:
            z = atom_z3(Atom.by_id[a])
            if not isint and z.is_int():
                z = z3.ToReal(z)
            for _ in range(abs(e)):
                (fs if e > 0 else den).append(z)
        if isint:
            t = z3.IntVal(int(c))
        else:
            t = z3.RealVal(str(c))
        if fs:
            prod = fs[0]
            for f in fs[1:]:
                prod = prod * f
            t = prod if c == 1 else t * prod
        for d in den:
            t = t / d
        terms.append(t)
    if not terms:
        return z3.IntVal(0)
    r = terms[0]
    for t in terms[1:]:
        r = r + t
    return r


def b_z3(b):
    if b._z is not None:
        return b._z
    op = b.op
    if op == "T":
        r = z3.BoolVal(True)
    elif op == "F":
        r = z3.BoolVal(False)
    elif op == "atom":
        r = z3.Bool(str(b.args[0]))
    elif op in ("<", "<=", "=="):
        x, y = to_z3(b.args[0]), to_z3(b.args[1])
        if x.is_int() != y.is_int():
            x = z3.ToReal(x) if x.is_int() else x
            y = z3.ToReal(y) if y.is_int() else y
        r = {"<": lambda: x < y, "<=": lambda: x <= y, "==": lambda: x == y}[op]()
    elif op == "and":
        r = z3.And(*[b_z3(x) for x in b.args])
    elif op == "or":
        r = z3.Or(*[b_z3(x) for x in b.args])
    elif op == "not":
        r = z3.Not(b_z3(b.args[0]))
    else:
        raise Unsupported("bool op " + op)
    b._z = r
    return r


def b_atoms(b, acc):
    for x in b.args:
        if isinstance(x, B):
            b_atoms(x, acc)
        elif isinstance(x, Sc):
            x.atoms(True, acc)
    return acc


def side_axioms(ids):
    """sign facts and defining facts of the atoms that occur"""
    ax = []
    for i in ids:
        a = Atom.by_id[i]
        if a.sort == "C":
            continue
        if a.pos:
            ax.append(atom_z3(a) > 0)
        elif a.nonneg and a.name != "abs":
            ax.append(atom_z3(a) >= 0)
        if a.name == "sqrt":
            z = atom_z3(a)
            t = to_z3(a.args[0])
            t = z3.ToReal(t) if t.is_int() else t
            ax.append(z3.Implies(t >= 0, z * z == t))
        if a.name == "pow" and a.sort == "R" and len(a.args) == 2:
            t = to_z3(a.args[0])
            ax.append(z3.Implies(t > 0, atom_z3(a) > 0))
        if a.name == "pi":
            ax.append(atom_z3(a) > z3.RealVal("3.14159"))
            ax.append(atom_z3(a) < z3.RealVal("3.1416"))
        if a.name == "log" and a.args[0].is_const():
            c = a.args[0].const()
            if c > 0:
                v = Fraction(math.log(c))
                ax.append(atom_z3(a) > z3.RealVal(str(v - Fraction(1, 10**9))))
                ax.append(atom_z3(a) < z3.RealVal(str(v + Fraction(1, 10**9))))
    return ax


# --------------------------------------------------------------------------
# numeric interpretation (for triage of failed equalities)
# --------------------------------------------------------------------------
class Interp:
    def __init__(self, seed, fixed=None):
        self.seed = seed
        self.cache = {}
        self.fixed = fixed or {}

    def rnd(self, *key):
        h = hashlib.sha256(repr((self.seed,) + key).encode()).digest()
        return int.from_bytes(h[:8], "big") / 2.0**64

    def atom(self, a):
        if a.id in self.cache:
            return self.cache[a.id]
        v = self._atom(a)
        self.cache[a.id] = v
        return v

    def _atom(self, a):
        n = a.name
        if a.id in self.fixed:
            return self.fixed[a.id]
        if n == "I":
            return 1j
        if n == "pi":
            return math.pi
        if n == "inf":
            return float("inf")
        vals = [self.sc(x) if isinstance(x, Sc) else x for x in a.args]
        import cmath
        try:
            if n == "sqrt":
                return math.sqrt(vals[0]) if not isinstance(vals[0], complex) and vals[0] >= 0 else cmath.sqrt(vals[0])
            if n == "exp":
                return math.exp(vals[0]) if not isinstance(vals[0], complex) else cmath.exp(vals[0])
            if n == "log":
                return math.log(vals[0])
            if n == "abs":
                return abs(vals[0])
            if n == "inv":
                return 1 / vals[0]
            if n == "floor":
                return math.floor(vals[0])
            if n == "pow":
                return vals[0] ** vals[1]
            if n == "sin":
                return math.sin(vals[0])
            if n == "cos":
                return math.cos(vals[0])
            if n == "factorial":
                return math.gamma(vals[0] + 1)
        except (ValueError, ZeroDivisionError, OverflowError):
            return float("nan")
        r = self.rnd(n, tuple(round(v, 9) if isinstance(v, (int, float)) else repr(_key(x))
                              for v, x in zip(vals, a.args)))
        if a.sort == "I":
            return int(r * 7) + 1
        if a.nonneg:
            return 0.2 + 1.5 * r
        return (r - 0.5) * 3 + (0.05 if r > 0.5 else -0.05)

    def sc(self, s):
        tot = 0.0
        for m, c in Sc.of(s).p.items():
            t = float(c)
            for a, e in m:
                t = t * self.atom(Atom.by_id[a]) ** e
            tot = tot + t
        return tot

    def b(self, b):
        op = b.op
        if op == "T":
            return True
        if op == "F":
            return False
        if op == "atom":
            return self.rnd(str(b.args[0])) > 0.5
        if op == "not":
            return not self.b(b.args[0])
        if op == "and":
            return all(self.b(x) for x in b.args)
        if op == "or":
            return any(self.b(x) for x in b.args)
        x, y = self.sc(b.args[0]), self.sc(b.args[1])
        if isinstance(x, complex) or isinstance(y, complex):
            return abs(x - y) < 1e-9
        if op == "<":
            return x < y
        if op == "<=":
            return x <= y
        return abs(x - y) < 1e-9 * (1 + abs(x))
