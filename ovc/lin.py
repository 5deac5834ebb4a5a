"""Abstract-dimension linear algebra terms.

`Arr`   block matrix (or vector, ndim=1) whose blocks are rational-coefficient linear
        combinations of noncommutative words in operator atoms; all dimensions may be
        symbolic.
`EArr`  explicit numpy object array of scalars (concrete shape, symbolic entries).
`PArr`  one-dimensional array of symbolic length given by an index function.
"""
import math
import numpy as np

from . import terms
from .terms import Sc, B, Atom, Unsupported, is_zero, TRUE, FALSE


def ctx():
    from .explore import CTX
    return CTX


def entails(b):
    b = B.of(b)
    if b.const() is not None:
        return b.const()
    c = ctx()
    k = c.known.get(b.key())
    if k is not None:
        return k
    ids = terms.b_atoms(b, set())
    r, _ = c.check([terms.z3.Not(terms.b_z3(b))], 3000, ids)
    return r == "unsat"


def same(a, b):
    d = Sc.of(a) - Sc.of(b)
    if is_zero(d):
        return True
    if d.is_const():
        return False
    return entails(terms.cmp_("==", d, 0))


# --------------------------------------------------------------------------
# operator atoms
# --------------------------------------------------------------------------
class Op:
    """interned operator atom; kind in sym, phi, inv, diag, T, app"""
    table = {}
    by_id = []
    __slots__ = ("kind", "name", "rows", "cols", "args", "id", "props", "tr")

    @staticmethod
    def get(kind, name, rows, cols, args=(), **props):
        key = (kind, name, tuple(terms._key(a) for a in args), terms._key(rows), terms._key(cols))
        o = Op.table.get(key)
        if o is None:
            o = Op()
            o.kind, o.name, o.rows, o.cols, o.args, o.props = kind, name, rows, cols, tuple(args), props
            o.id = len(Op.by_id)
            o.tr = None
            Op.by_id.append(o)
            Op.table[key] = o
        return o

    def T(self):
        if self.kind == "T":
            return self.args[0]
        if self.kind == "diag" or self.props.get("sym"):
            return self
        if self.tr is None:
            self.tr = Op.get("T", self.name, self.cols, self.rows, (self,))
        return self.tr

    def key(self):
        return ("op", self.id)

    def __repr__(self):
        if self.kind == "T":
            return "%r^T" % (self.args[0],)
        if self.args:
            return "%s[%s]" % (self.name, ",".join(map(repr, self.args)))
        return self.name


class LT:
    """linear combination of words of one block (hashable view used inside atoms)"""
    __slots__ = ("t", "_k")

    def __init__(self, t):
        self.t = t
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted((w, c.key()) for w, c in self.t.items()))
        return self._k

    def __repr__(self):
        return show(self.t)


def show(t):
    if not t:
        return "0"
    return " + ".join("(%r)*%s" % (c, "·".join(repr(Op.by_id[i]) for i in w) or "I")
                      for w, c in sorted(t.items()))


# rewriting hooks: list of functions word -> None | dict(word->Sc)
REWRITES = []


def t_add(d, w, c):
    if c.p:
        n = d.get(w)
        n = c if n is None else n + c
        if n.p and not is_zero(n):
            d[w] = n
        elif w in d:
            del d[w]


def t_lin(t1, t2, c2):
    out = dict(t1)
    for w, c in t2.items():
        t_add(out, w, c * c2)
    return out


def t_scale(t, c):
    c = Sc.of(c)
    if not c.p:
        return {}
    return {w: x * c for w, x in t.items()}


def t_mul(t1, t2):
    out = {}
    for w1, c1 in t1.items():
        for w2, c2 in t2.items():
            for w, c in canon(w1 + w2).items():
                t_add(out, w, c * c1 * c2)
    return out


def t_T(t):
    out = {}
    for w, c in t.items():
        wt = tuple(Op.by_id[i].T().id for i in reversed(w))
        for w2, c2 in canon(wt).items():
            t_add(out, w2, c * c2)
    return out


def _family(op):
    """commuting family key: functions of one and the same operator word"""
    if op.kind == "sym":
        return (op.id,)
    if op.kind in ("phi", "phis", "inv", "pfun"):
        fam = op.props.get("family")
        return fam
    return None


def canon(w, depth=0):
    """normal form of one word: dict word -> coefficient"""
    if depth > 60:
        raise Unsupported("operator word normalisation diverges")
    n = len(w)
    for rw in REWRITES:
        r = rw(w)
        if r is not None:
            out = {}
            for w2, c2 in r.items():
                for w3, c3 in canon(w2, depth + 1).items():
                    t_add(out, w3, c2 * c3)
            return out
    # 1x1 sub-words become scalars
    for i in range(n):
        if _is1(Op.by_id[w[i]].rows):
            for j in range(i, n):
                if _is1(Op.by_id[w[j]].cols):
                    sub = w[i:j + 1]
                    tsub = tuple(Op.by_id[x].T().id for x in reversed(sub))
                    s = min(sub, tsub)
                    nn = {}
                    if len(s) == 2 and s[0] == Op.by_id[s[1]].T().id:
                        nn = {"nonneg": True}
                    c = Sc.app("ip", W(s), **nn)
                    return {k: v * c for k, v in canon(w[:i] + w[j + 1:], depth + 1).items()}
            break
    for i in range(n - 1):
        a, b = Op.by_id[w[i]], Op.by_id[w[i + 1]]
        # inverses
        if b.kind == "inv" or a.kind == "inv":
            iv, ot = (a, b) if a.kind == "inv" else (b, a)
            arg = iv.args[0].t
            if len(arg) == 1:
                (aw, ac), = arg.items()
                if aw == (ot.id,):
                    return {k: v / ac for k, v in canon(w[:i] + w[i + 2:], depth + 1).items()}
            else:
                # (S + c I)^-1 S  =  I - c (S + c I)^-1 , with S a single atom
                ot_c = arg.get((ot.id,))
                if ot_c is not None and set(arg) <= {(ot.id,), ()} and len(arg) == 2:
                    c0 = arg[()]
                    out = {}
                    for k, v in canon(w[:i] + w[i + 2:], depth + 1).items():
                        t_add(out, k, v / ot_c)
                    for k, v in canon(w[:i] + (iv.id,) + w[i + 2:], depth + 1).items():
                        t_add(out, k, -v * c0 / ot_c)
                    return out
        # phi recurrence: S phi_{k+1}(s S) = (phi_k(s S) - I/k!)/s
        ph, ot = (b, a) if b.kind == "phi" else (a, b)
        if ph.kind == "phi" and ph.args[0] >= 1 and ot.kind == "sym":
            arg = ph.args[1].t
            if len(arg) == 1:
                (aw, ac), = arg.items()
                if aw == (ot.id,):
                    k = ph.args[0] - 1
                    p2 = phi_op(k, ph.args[1], ph.rows)
                    out = {}
                    for kk, v in canon(w[:i] + (p2.id,) + w[i + 2:], depth + 1).items():
                        t_add(out, kk, v / ac)
                    for kk, v in canon(w[:i] + w[i + 2:], depth + 1).items():
                        t_add(out, kk, -v / (ac * math.factorial(k)))
                    return out
        # commuting functions of one operator
        fa, fb = _family(a), _family(b)
        if fa is not None and fa == fb and w[i] > w[i + 1]:
            return canon(w[:i] + (w[i + 1], w[i]) + w[i + 2:], depth + 1)
        # Hadamard product symmetry: diag(x) y with y a vector suffix
        if a.kind == "diag":
            y = w[i + 1:]
            if _is1(Op.by_id[w[-1]].cols):
                at = a.args[0].t
                if len(at) == 1:
                    (xw, xc), = at.items()
                    if y < xw:
                        d2 = diag_op(LT({y: Sc.of(1)}), a.rows)
                        return {k: v * xc for k, v in canon(w[:i] + (d2.id,) + xw, depth + 1).items()}
            if b.kind == "diag" and w[i] > w[i + 1]:
                return canon(w[:i] + (w[i + 1], w[i]) + w[i + 2:], depth + 1)
    return {w: Sc.of(1)}


def renormalise(a):
    """apply the rewriting hooks to the words of an array"""
    out = {}
    for k, t in a.bl.items():
        acc = {}
        for w, c in t.items():
            for w2, c2 in canon(w).items():
                t_add(acc, w2, c * c2)
        out[k] = acc
    return Arr(a.ndim, a.rp, a.cp, out)


class W:
    """a word as an atom argument"""
    __slots__ = ("w",)

    def __init__(self, w):
        self.w = tuple(w)

    def key(self):
        return ("w",) + self.w

    def __repr__(self):
        return "·".join(repr(Op.by_id[i]) for i in self.w)


def _is1(x):
    if isinstance(x, int):
        return x == 1
    return x.is_const() and x.const() == 1


def phi_op(k, lt, n):
    """phi_k of a linear combination; the order may be symbolic (kind phis: nothing but commutation is known of it)"""
    fam = None
    if len(lt.t) == 1:
        (aw, _), = lt.t.items()
        if len(aw) == 1:
            fam = aw
    if isinstance(k, Sc):
        return Op.get("phis", "phi[%r]" % k, n, n, (k, lt), family=fam)
    return Op.get("phi", "phi%d" % k, n, n, (k, lt), family=fam)


def inv_op(lt, n):
    fam = None
    ws = [x for x in lt.t if x]
    if len(ws) == 1 and len(ws[0]) == 1:
        fam = ws[0]
    return Op.get("inv", "inv", n, n, (lt,), family=fam)


def diag_op(lt, n):
    return Op.get("diag", "diag", n, n, (lt,))


# --------------------------------------------------------------------------
# block arrays
# --------------------------------------------------------------------------
def _dim(x):
    if isinstance(x, int):
        return Sc.of(x)
    return Sc.of(x)


def psum(p):
    s = Sc.of(0)
    for x in p:
        s = s + x
    return s


def _shape_val(s):
    c = s.const()
    return int(c) if c is not None and c.denominator == 1 else s


class ShapeError(TypeError):
    pass


class Arr:
    __array_priority__ = 2000
    __slots__ = ("ndim", "rp", "cp", "bl", "tag")
    __hash__ = None
    dtype = "real"

    def __init__(self, ndim, rp, cp, bl):
        rp = [_dim(x) for x in rp]
        cp = [_dim(x) for x in cp]
        kr = [i for i, x in enumerate(rp) if x.p]
        kc = [j for j, x in enumerate(cp) if x.p]
        if len(kr) != len(rp) or len(kc) != len(cp):
            bl = {(kr.index(i), kc.index(j)): t for (i, j), t in bl.items() if i in kr and j in kc}
            rp = [rp[i] for i in kr]
            cp = [cp[j] for j in kc]
        self.ndim, self.rp, self.cp = ndim, rp, cp
        self.bl = {k: t for k, t in bl.items() if t}
        self.tag = None

    # -- constructors
    @staticmethod
    def vec(name, n, **props):
        o = Op.get("sym", name, _dim(n), Sc.of(1), (), **props)
        return Arr(1, [n], [1], {(0, 0): {(o.id,): Sc.of(1)}})

    @staticmethod
    def mat(name, r, c=None, **props):
        c = r if c is None else c
        o = Op.get("sym", name, _dim(r), _dim(c), (), **props)
        return Arr(2, [r], [c], {(0, 0): {(o.id,): Sc.of(1)}})

    @staticmethod
    def from_op(o, ndim=2):
        return Arr(ndim, [o.rows], [o.cols], {(0, 0): {(o.id,): Sc.of(1)}})

    @staticmethod
    def zeros(shape):
        if len(shape) == 1:
            return Arr(1, [shape[0]], [1], {})
        return Arr(2, [shape[0]], [shape[1]], {})

    @staticmethod
    def eye(n):
        return Arr(2, [n], [n], {(0, 0): {(): Sc.of(1)}})

    @property
    def shape(self):
        r = _shape_val(psum(self.rp))
        if self.ndim == 1:
            return (r,)
        return (r, _shape_val(psum(self.cp)))

    @property
    def size(self):
        s = self.shape
        return s[0] if self.ndim == 1 else s[0] * s[1]

    @property
    def T(self):
        if self.ndim == 1:
            return self
        return Arr(2, self.cp, self.rp, {(j, i): t_T(t) for (i, j), t in self.bl.items()})

    def transpose(self, *a):
        return self.T

    def key(self):
        return ("arr", self.ndim, tuple(x.key() for x in self.rp), tuple(x.key() for x in self.cp),
                tuple(sorted((k, LT(t).key()) for k, t in self.bl.items())))

    def __repr__(self):
        return "Arr%s{%s}" % (self.shape, "; ".join("%s: %s" % (k, show(t)) for k, t in sorted(self.bl.items())))

    def copy(self):
        return self

    def is_zero(self):
        return all(all(is_zero(c) for c in t.values()) for t in self.bl.values())

    def is_lin(self):
        return len(self.rp) <= 1 and len(self.cp) <= 1

    def lt(self):
        if not self.is_lin():
            raise Unsupported("single block expected: %r" % (self,))
        return LT(self.bl.get((0, 0), {}))

    # -- partition refinement
    def refine_rows(self, cuts):
        return _refine(self, cuts, 0)

    def refine_cols(self, cuts):
        return _refine(self, cuts, 1)

    # -- arithmetic
    def _bin(self, o, f):
        if isinstance(o, EArr):
            o = from_earr(o)
        if isinstance(o, Arr):
            a, b = broadcast(self, o)
            a, b = align(a, b)
            keys = set(a.bl) | set(b.bl)
            return Arr(a.ndim, a.rp, a.cp, {k: f(a.bl.get(k, {}), b.bl.get(k, {})) for k in keys})
        return NotImplemented

    def __add__(self, o):
        if terms._scalarish(o):
            o = Sc.of(o)
            if not o.p:
                return self
            return self + ones_like(self) * o
        return self._bin(o, lambda x, y: t_lin(x, y, Sc.of(1)))
    __radd__ = __add__

    def __sub__(self, o):
        if terms._scalarish(o):
            return self + (-Sc.of(o))
        return self._bin(o, lambda x, y: t_lin(x, y, Sc.of(-1)))

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return self * -1

    def __pos__(self):
        return self

    def __mul__(self, o):
        if terms._scalarish(o):
            return Arr(self.ndim, self.rp, self.cp, {k: t_scale(t, o) for k, t in self.bl.items()})
        if isinstance(o, EArr):
            o = from_earr(o)
        if isinstance(o, Arr):
            return hadamard(self, o)
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o):
        if terms._scalarish(o):
            return self * Sc.of(o).inverse()
        if isinstance(o, Arr):
            return hadamard(self, o, inv=True)
        return NotImplemented

    def __rtruediv__(self, o):
        if terms._scalarish(o):
            return hadamard(ones_like(self) * o, self, inv=True)
        return NotImplemented

    def __matmul__(self, o):
        if isinstance(o, EArr):
            o = from_earr(o)
        if not isinstance(o, Arr):
            return NotImplemented
        return matmul(self, o)

    def __rmatmul__(self, o):
        if isinstance(o, EArr):
            return matmul(from_earr(o), self)
        return NotImplemented

    def dot(self, o):
        return matmul(self, o)

    def __lt__(self, o):
        return EntryCmp(self, "<", o)

    def __le__(self, o):
        return EntryCmp(self, "<=", o)

    def __gt__(self, o):
        return EntryCmp(self, ">", o)

    def __ge__(self, o):
        return EntryCmp(self, ">=", o)

    def __pow__(self, k):
        c = Sc.of(k).const() if terms._scalarish(k) else None
        if self.ndim != 1 or c is None or c.denominator != 1 or not 1 <= c <= 6:
            raise Unsupported("elementwise power of an abstract array")
        r = self
        for _ in range(int(c) - 1):
            r = hadamard(r, self)
        return r

    def __getitem__(self, ix):
        return getitem(self, ix)

    @property
    def at(self):
        return At(self)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape, order)

    def flatten(self, order="C"):
        return reshape(self, (-1,), order)

    ravel = flatten

    def todense(self):
        return self

    def astype(self, *a):
        return self

    def block_until_ready(self):
        return self

    def diagonal(self):
        raise Unsupported("diagonal of abstract matrix")

    def __len__(self):
        raise Unsupported("len of abstract array (use ovc len)")

    def __iter__(self):
        raise Unsupported("iteration over an abstract array")

    def __bool__(self):
        raise Unsupported("truth value of an abstract array")

    def __eq__(self, o):
        raise Unsupported("elementwise comparison of abstract arrays")

    @property
    def real(self):
        return real_arr(self)


def _cuts_of(p):
    c, out = Sc.of(0), []
    for x in p[:-1]:
        c = c + x
        out.append(c)
    return out


def _merge(p, q):
    """common refinement of two partitions of the same total"""
    p, q = list(p), list(q)
    if not same(psum(p), psum(q)):
        raise ShapeError("dimension mismatch: %r vs %r" % (psum(p), psum(q)))
    out = []
    while p and q:
        a, b = p[0], q[0]
        if same(a, b):
            out.append(a)
            p.pop(0)
            q.pop(0)
        elif entails(terms.cmp_("<", a, b)):
            out.append(a)
            p.pop(0)
            q[0] = b - a
        elif entails(terms.cmp_("<", b, a)):
            out.append(b)
            q.pop(0)
            p[0] = a - b
        else:
            # fork
            if bool(terms.cmp_("<", a, b)):
                out.append(a); p.pop(0); q[0] = b - a
            elif bool(terms.cmp_("==", a, b)):
                out.append(a); p.pop(0); q.pop(0)
            else:
                out.append(b); q.pop(0); p[0] = a - b
    return out


def _split_to(a, axis, newp):
    """repartition axis of `a` to newp, a refinement of its partition"""
    old = a.rp if axis == 0 else a.cp
    if len(old) == len(newp):
        return a
    # map each old part to list of new indexes
    groups, k = [], 0
    for x in old:
        acc, g = Sc.of(0), []
        while not same(acc, x):
            if k >= len(newp):
                raise ShapeError("bad refinement")
            acc = acc + newp[k]
            g.append(k)
            k += 1
        groups.append(g)
    # identity blocks force the same split on the other axis
    for i, g in enumerate(groups):
        if len(g) == 1:
            continue
        for (r, c), t in a.bl.items():
            me, ot = (r, c) if axis == 0 else (c, r)
            if me != i:
                continue
            if any(w == () for w in t) and not _is1(old[i]):
                oth = a.cp if axis == 0 else a.rp
                # does the other axis already have the finer split?  no: split it as well
                parts = [newp[j] for j in g]
                newo = list(oth[:ot]) + parts + list(oth[ot + 1:])
                a2 = _raw_split(a, axis, groups, newp, 1 - axis, ot, len(parts), newo, i)
                return _split_to(a2, axis, newp)
    bl = {}
    for (r, c), t in a.bl.items():
        me = r if axis == 0 else c
        g = groups[me]
        if len(g) == 1:
            bl[(g[0], c) if axis == 0 else (r, g[0])] = t
        else:
            t2 = [_split_term(w, cf, axis, [newp[j] for j in g]) for w, cf in t.items()]
            for pos, j in enumerate(g):
                acc = {}
                for parts in t2:
                    w, cf = parts[pos]
                    if cf is not None:
                        for w2, c2 in canon(w).items():
                            t_add(acc, w2, cf * c2)
                bl[(j, c) if axis == 0 else (r, j)] = acc
    rp, cp = (newp, a.cp) if axis == 0 else (a.rp, newp)
    return Arr(a.ndim, rp, cp, bl)


def _split_term(w, cf, axis, parts):
    """split a word along an axis: uses the explicit sub-block projection of its first/last atom"""
    o = Op.by_id[w[0] if axis == 0 else w[-1]]
    out = []
    off = Sc.of(0)
    for d in parts:
        if axis == 0:
            s = Op.get("rows", "%r[%r:+%r]" % (o, off, d), d, o.cols, (o, off, d))
            out.append(((s.id,) + w[1:], cf))
        else:
            s = Op.get("cols", "%r[:,%r:+%r]" % (o, off, d), o.rows, d, (o, off, d))
            out.append((w[:-1] + (s.id,), cf))
        off = off + d
    return out


def _raw_split(a, axis, groups, newp, oaxis, ot, npart, newo, i):
    """split part i of `axis` and part ot of the other axis simultaneously (identity block)"""
    g = groups[i]
    old = a.rp if axis == 0 else a.cp
    mid = list(old[:i]) + [newp[j] for j in g] + list(old[i + 1:])
    bl = {}
    n = len(g)

    def me_idx(m):
        return m if m < i else (None if m == i else m + n - 1)

    def ot_idx(o):
        return o if o < ot else (None if o == ot else o + npart - 1)
    for (r, c), t in a.bl.items():
        me, oo = (r, c) if axis == 0 else (c, r)
        a_is, o_is = me == i, oo == ot
        if a_is and o_is:
            if any(w != () for w in t):
                raise Unsupported("split of a non-identity block")
            for q in range(n):
                k = (i + q, ot + q)
                bl[k if axis == 0 else (k[1], k[0])] = dict(t)
        elif not a_is and not o_is:
            k = (me_idx(me), ot_idx(oo))
            bl[k if axis == 0 else (k[1], k[0])] = t
        else:
            raise Unsupported("split crosses an opaque block")
    if axis == 0:
        return Arr(a.ndim, mid, newo, bl)
    return Arr(a.ndim, newo, mid, bl)


def _refine(a, cuts, axis):
    p = a.rp if axis == 0 else a.cp
    q, prev = [], Sc.of(0)
    for c in cuts:
        if not same(c, prev):
            q.append(c - prev)
            prev = c
    tot = psum(p)
    if not same(prev, tot):
        q.append(tot - prev)
    return _split_to(a, axis, _merge(p, q))


def _split_both(a, rp, cp):
    a = _split_to(a, 0, _merge(a.rp, rp))       # an identity block may split the columns as well
    return _split_to(a, 1, _merge(a.cp, cp))


def align(a, b):
    rp, cp = _merge(a.rp, b.rp), _merge(a.cp, b.cp)
    for _ in range(4):
        a = _split_both(a, rp, cp)
        b = _split_both(b, rp, cp)
        rp2, cp2 = _merge(a.rp, b.rp), _merge(a.cp, b.cp)
        if len(rp2) == len(rp) and len(cp2) == len(cp) and len(a.rp) == len(b.rp) and len(a.cp) == len(b.cp):
            break
        rp, cp = rp2, cp2
    return a, b


def broadcast(a, b):
    if a.ndim == b.ndim:
        return a, b
    if a.ndim == 1 and b.ndim == 2:
        raise Unsupported("vector/matrix broadcast")
    raise Unsupported("vector/matrix broadcast")


class MArr(Arr):
    """array whose elements may be assigned, until its value is read for the first time (reading may alias)"""
    __slots__ = ("_bl", "_read")
    __hash__ = None

    def __init__(self, a):
        self.ndim, self.rp, self.cp, self.tag = a.ndim, a.rp, a.cp, None
        self._bl, self._read = dict(a.bl), False

    @property
    def bl(self):
        self._read = True
        return self._bl

    def __setitem__(self, ix, v):
        if self._read:
            raise Unsupported("assignment to an array that has been read")
        r = setitem(Arr(self.ndim, self.rp, self.cp, self._bl), ix, v)
        self.rp, self.cp, self._bl = r.rp, r.cp, r.bl

    def copy(self):
        return MArr(self)


def seqcols(v, g, n):
    """matrix whose column j is v with g := j, for j = 0..n-1: linear in v, with the factors that do not depend on g taken out"""
    from . import subst
    if not v.is_lin():
        raise Unsupported("columns of a sequence of blocks")
    gi, = g.atoms(False)
    r = Arr.zeros((v.rp[0], n))
    for w, c in v.bl.get((0, 0), {}).items():
        o = Op.by_id[w[-1]] if w else None
        head = Arr(2, v.rp, [o.rows], {(0, 0): {w[:-1]: c}}) if o is not None else None
        sb = subst.Subst({gi: Sc.sym("seq.other", "I", nonneg=True)})
        if o is None or sb.sc(c).key() != c.key() or o.kind != "app" or len(o.args) != 1 or not isinstance(o.args[0], Sc) \
                or any(sb.op(Op.by_id[i]) != {(i,): Sc.of(1)} for i in w[:-1]):
            raise Unsupported("columns of a sequence")
        ix = o.args[0]
        at = lambda x, ix=ix: subst.Subst({gi: Sc.of(x)}).sc(ix)
        c0 = at(0)
        c1 = at(1) - c0
        if not is_zero(ix - c0 - c1 * g):
            raise Unsupported("columns of a sequence")
        s = Op.get("seqcols", o.name, o.rows, Sc.of(n), (c0, c1))
        r = r + (head @ Arr.from_op(s) if w[:-1] else Arr.from_op(s) * c)
    return r


class EntryCmp:
    """entrywise comparison of a vector with a scalar"""

    def __init__(self, v, op, c):
        self.v, self.op, self.c = v, op, Sc.of(c)

    def _ext(self, most):
        a = abs_arg(self.v)
        if most and a is not None:
            return a[0] * norm(a[1], "inf")
        v = self.v
        if not isinstance(v, Arr) or v.ndim != 1:
            raise Unsupported("entrywise comparison")
        return Sc.app("amax" if most else "amin", KA(v))

    def _cmp(self, e):
        c, f = self.c, terms.cmp_
        return {"<": lambda: f("<", e, c), "<=": lambda: f("<=", e, c), ">": lambda: f("<", c, e), ">=": lambda: f("<=", c, e)}[self.op]()

    def all(self, **k):
        return self._cmp(self._ext(self.op in ("<", "<=")))

    def any(self, **k):
        return self._cmp(self._ext(self.op in (">", ">=")))


# values of v @ v met so far: sqrt(v @ v) is the norm of v
SQUARES = {}


def vsum(x):
    """sum of the entries of a vector; the sum of an elementwise product is the inner product"""
    out = Sc.of(0)
    rest = {}
    for (i, j), t in x.bl.items():
        for w, c in t.items():
            o = Op.by_id[w[0]] if w else None
            if o is not None and o.kind == "diag" and len(w) > 1:
                n = o.rows
                out = out + matmul(Arr(1, [n], [1], {(0, 0): dict(o.args[0].t)}), Arr(1, [n], [1], {(0, 0): {w[1:]: c}}))
            else:
                rest.setdefault((i, j), {})[w] = c
    y = Arr(1, x.rp, x.cp, rest)
    return out + matmul(ones_like(x), y) if rest else out


def abs_arg(x):
    """(c, v) when x = c |v| entrywise with c >= 0, else None"""
    if x.ndim != 1 or list(x.bl) != [(0, 0)] or len(x.rp) != 1 or len(x.bl[(0, 0)]) != 1:
        return None
    (w, c), = x.bl[(0, 0)].items()
    if len(w) != 1:
        return None
    o = Op.by_id[w[0]]
    if o.kind != "app" or o.name != "absv" or not entails(terms.cmp_("<=", 0, c)):
        return None
    return c, o.args[0].a


def matmul(a, b):
    ap = a
    if a.ndim == 1:
        ap = Arr(2, [1], a.rp, {(j, i): t_T(t) for (i, j), t in a.bl.items()})
    p = _merge(ap.cp, b.rp)
    for _ in range(4):
        ap = _split_to(ap, 1, p)
        bp = _split_to(b, 0, p)
        p2 = _merge(ap.cp, bp.rp)
        if len(p2) == len(p):
            break
        p, b = p2, bp
    out = {}
    for (i, k), t in ap.bl.items():
        for (k2, j), u in bp.bl.items():
            if k == k2:
                r = t_mul(t, u)
                out[(i, j)] = t_lin(out.get((i, j), {}), r, Sc.of(1))
    res = Arr(2, ap.rp, bp.cp, out)
    if a.ndim == 1 and b.ndim == 1:
        r = scalar_of(res)
        if a is b or a.key() == b.key():
            SQUARES[r.key()] = a
        return r
    if a.ndim == 1:
        return Arr(1, res.cp, res.rp, {(j, i): t_T(t) for (i, j), t in res.bl.items()})
    res.ndim = b.ndim
    return res


def scalar_of(a):
    t = a.bl.get((0, 0), {})
    s = Sc.of(0)
    for w, c in t.items():
        if w != ():
            raise Unsupported("not a scalar word")
        s = s + c
    return s


def ones_like(a):
    if a.ndim == 1:
        bl = {}
        for i, d in enumerate(a.rp):
            o = Op.get("sym", "ones", d, Sc.of(1), (), ones=True)
            bl[(i, 0)] = {((o.id,) if not _is1(d) else ()): Sc.of(1)}
        return Arr(1, a.rp, [1], bl)
    raise Unsupported("ones matrix")


def hadamard(a, b, inv=False):
    if a.ndim == 2 and b.ndim == 2 and len(b.cp) == 1 and _is1(b.cp[0]) and not inv:
        raise Unsupported("hadamard broadcast")
    if b.ndim == 2 and a.ndim == 2:
        if len(b.cp) == 1 and _is1(b.cp[0]) and inv:
            d = diaginv(Arr(1, b.rp, [1], b.bl))
            return matmul(d, a)
        raise Unsupported("hadamard product of matrices")
    if a.ndim == 1 and b.ndim == 1:
        a, b = align(a, b)
        bl = {}
        for i, n in enumerate(a.rp):
            ta, tb = a.bl.get((i, 0), {}), b.bl.get((i, 0), {})
            acc = {}
            if inv:
                if not tb:
                    raise ZeroDivisionError("division by a zero vector")
                if _is1(n):
                    acc = t_scale(ta, _sc(tb).inverse())
                else:
                    d = Op.get("diaginv", "diaginv", n, n, (LT(tb),))
                    acc = t_mul({(d.id,): Sc.of(1)}, ta)
            elif _is1(n):
                acc = t_scale(ta, _sc(tb))
            else:
                for wb, cb in tb.items():
                    d = diag_op(LT({wb: Sc.of(1)}), n)
                    acc = t_lin(acc, t_mul({(d.id,): cb}, ta), Sc.of(1))
            bl[(i, 0)] = acc
        return Arr(1, a.rp, a.cp, bl)
    raise Unsupported("hadamard shapes")


def _sc(t):
    s = Sc.of(0)
    for w, c in t.items():
        if w:
            raise Unsupported("opaque 1x1 word")
        s = s + c
    return s


def diaginv(v):
    n = psum(v.rp)
    return Arr.from_op(Op.get("diaginv", "diaginv", n, n, (v.lt(),)))


def diag(v):
    bl = {}
    for i, n in enumerate(v.rp):
        t = v.bl.get((i, 0), {})
        acc = {}
        for w, c in t.items():
            if _is1(n):
                t_add(acc, (), c)
            elif w and Op.by_id[w[0]].props.get("ones") and len(w) == 1:
                t_add(acc, (), c)
            else:
                t_add(acc, (diag_op(LT({w: Sc.of(1)}), n).id,), c)
        bl[(i, i)] = acc
    return Arr(2, v.rp, v.rp, bl)


def _norm_ix(x, tot):
    """normalise one slice bound"""
    x = Sc.of(x)
    if entails(terms.cmp_("<", x, 0)):
        x = tot + x
    return x


def _range(ix, tot):
    lo = Sc.of(0) if ix.start is None else _norm_ix(ix.start, tot)
    hi = tot if ix.stop is None else _norm_ix(ix.stop, tot)
    if ix.step is not None and not (Sc.of(ix.step).is_const() and Sc.of(ix.step).const() == 1):
        raise Unsupported("strided slice of abstract array")
    if not entails(terms.cmp_("<=", hi, tot)):
        hi = terms.min_(hi, tot)
    return lo, hi


def take(a, axis, lo, hi):
    a = _refine(a, [lo, hi], axis)
    p = a.rp if axis == 0 else a.cp
    c, keep = Sc.of(0), []
    for k, d in enumerate(p):
        if entails(terms.cmp_("<=", lo, c)) and entails(terms.cmp_("<=", c + d, hi)):
            keep.append(k)
        c = c + d
    newp = [p[k] for k in keep]
    bl = {}
    for (i, j), t in a.bl.items():
        m = i if axis == 0 else j
        if m in keep:
            n = keep.index(m)
            bl[(n, j) if axis == 0 else (i, n)] = t
    if axis == 0:
        return Arr(a.ndim, newp, a.cp, bl)
    return Arr(a.ndim, a.rp, newp, bl)


def getitem(a, ix):
    if not isinstance(ix, tuple):
        ix = (ix,)
    if Ellipsis in ix:
        raise Unsupported("ellipsis index")
    if a.ndim == 1 and len(ix) == 2 and ix[1] is None:
        if not (isinstance(ix[0], slice) and ix[0] == slice(None)):
            a = getitem(a, ix[0])
        return Arr(2, a.rp, a.cp, a.bl)
    if a.ndim == 1 and len(ix) == 1 and isinstance(ix[0], (np.ndarray, list)):
        arr = np.asarray(ix[0])
        if arr.size == 0:
            return Arr.zeros((0,))
        raise Unsupported("fancy index")
    squeeze = []
    r = a
    for ax, x in enumerate(ix):
        tot = psum(r.rp if ax == 0 else r.cp)
        if isinstance(x, slice):
            if x.start is None and x.stop is None and x.step is None:
                continue
            lo, hi = _range(x, tot)
            r = take(r, ax, lo, hi)
        else:
            x = _norm_ix(x, tot)
            r = take(r, ax, x, x + 1)
            squeeze.append(ax)
    if a.ndim == 1:
        return scalar_of(r) if squeeze else r
    if squeeze == [0, 1]:
        return scalar_of(r)
    if squeeze == [1]:
        return Arr(1, r.rp, r.cp, r.bl)
    if squeeze == [0]:
        t = r.T
        return Arr(1, t.rp, t.cp, t.bl)
    return r


class At:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, ix):
        return AtIx(self.a, ix)


class AtIx:
    def __init__(self, a, ix):
        self.a, self.ix = a, ix

    def get(self):
        return self.a[self.ix]

    def set(self, v, **k):
        return setitem(self.a, self.ix, v)

    def add(self, v, **k):
        return setitem(self.a, self.ix, getitem(self.a, self.ix) + v)


def setitem(a, ix, v):
    if not isinstance(ix, tuple):
        ix = (ix,)
    if len(ix) == 1 and isinstance(ix[0], np.ndarray) and ix[0].size == 0:
        return a
    los, his = [], []
    for ax in range(2):
        tot = psum(a.rp if ax == 0 else a.cp)
        if ax >= len(ix):
            los.append(Sc.of(0)); his.append(tot)
            continue
        x = ix[ax]
        if isinstance(x, slice):
            lo, hi = (Sc.of(0), tot) if (x.start is None and x.stop is None) else _range(x, tot)
        else:
            lo = _norm_ix(x, tot)
            hi = lo + 1
            # out-of-bounds updates are dropped by the array library
            if not entails(terms.cmp_("<", lo, tot)):
                if bool(terms.cmp_("<=", tot, lo)):
                    return a
        los.append(lo); his.append(hi)
    a = _refine(_refine(a, [los[0], his[0]], 0), [los[1], his[1]], 1)
    if terms._scalarish(v):
        v = Sc.of(v)
        vv = None
    else:
        if isinstance(v, EArr):
            v = from_earr(v)
        vv = v
        if vv.ndim == 1 and a.ndim == 2:
            if not isinstance(ix[0], slice):
                vv = Arr(2, [1], vv.rp, {(j, i): t_T(t) for (i, j), t in vv.bl.items()})
            else:
                vv = Arr(2, vv.rp, [1], vv.bl)
        for _ in range(8):
            n0 = (len(a.rp), len(a.cp), len(vv.rp), len(vv.cp))
            sel = take(take(a, 0, los[0], his[0]), 1, los[1], his[1])
            vv = _split_both(vv, sel.rp, sel.cp)
            a = _refine(_refine(a, [los[0]] + [los[0] + c for c in _cuts_of(vv.rp)] + [his[0]], 0),
                        [los[1]] + [los[1] + c for c in _cuts_of(vv.cp)] + [his[1]], 1)
            if n0 == (len(a.rp), len(a.cp), len(vv.rp), len(vv.cp)):
                break
        else:
            raise Unsupported("common partition of an array and its update")
    bl = dict(a.bl)
    c0 = Sc.of(0)
    ri = 0
    for i, d in enumerate(a.rp):
        inr = entails(terms.cmp_("<=", los[0], c0)) and entails(terms.cmp_("<=", c0 + d, his[0]))
        if inr:
            c1 = Sc.of(0)
            ci = 0
            for j, e in enumerate(a.cp):
                inc = entails(terms.cmp_("<=", los[1], c1)) and entails(terms.cmp_("<=", c1 + e, his[1]))
                if inc:
                    if vv is None:
                        if v.p and not (_is1(d) and _is1(e)):
                            if a.ndim == 1 or _is1(e):
                                o = Op.get("sym", "ones", d, Sc.of(1), (), ones=True)
                                bl[(i, j)] = {(o.id,): v}
                            else:
                                raise Unsupported("fill with a nonzero scalar")
                        else:
                            bl[(i, j)] = {(): v} if v.p else {}
                    else:
                        bl[(i, j)] = vv.bl.get((ri, ci), {})
                    ci += 1
                c1 = c1 + e
            ri += 1
        c0 = c0 + d
    return Arr(a.ndim, a.rp, a.cp, bl)


def reshape(a, shape, order="C"):
    if len(shape) == 1:
        s = shape[0]
        if a.ndim == 1:
            if not (Sc.of(s).is_const() and Sc.of(s).const() == -1) and not same(s, psum(a.rp)):
                raise ShapeError("reshape")
            return a
        if _is1(psum(a.cp)):
            return Arr(1, a.rp, a.cp, a.bl)
        if _is1(psum(a.rp)):
            t = a.T
            return Arr(1, t.rp, t.cp, t.bl)
        raise Unsupported("flatten of an abstract matrix")
    if len(shape) == 2:
        r, c = shape
        tot = psum(a.rp) * psum(a.cp)
        m1 = lambda x: Sc.of(x).is_const() and Sc.of(x).const() == -1
        if m1(r) and same(c, 1):
            r = tot
        if m1(c) and same(r, tot):
            c = 1
        if same(c, psum(a.cp)) and same(r, psum(a.rp)):
            return Arr(2, a.rp, a.cp, a.bl)
        if same(r, 1) and same(c, psum(a.rp)) and _is1(psum(a.cp)):
            return Arr(2, a.rp, a.cp, a.bl).T
        raise Unsupported("reshape of an abstract array")
    if len(shape) == 3 and a.ndim == 2:
        r, k, c = shape
        if not same(r, psum(a.rp)) or not same(Sc.of(k) * c, psum(a.cp)):
            raise ShapeError("reshape")
        k = int(Sc.of(k))
        parts = [take(a, 1, Sc.of(c) * i, Sc.of(c) * (i + 1)) for i in range(k)]
        return Stack3(parts, 1)
    raise Unsupported("reshape of an abstract array")


class Stack3:
    """3-d array: list of matrices stacked along `axis`"""
    ndim = 3

    def __init__(self, parts, axis):
        self.parts, self.axis = parts, axis

    def swapaxes(self, i, j):
        if {i, j} == {0, 1} and self.axis in (0, 1):
            return Stack3(self.parts, 1 - self.axis)
        raise Unsupported("swapaxes")

    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = tuple(ax[0])
        if tuple(ax) == (1, 0, 2) and self.axis in (0, 1):
            return Stack3(self.parts, 1 - self.axis)
        raise Unsupported("transpose")

    def __getitem__(self, i):
        if self.axis == 0:
            if isinstance(i, slice):
                return Stack3(self.parts[i], 0)
            if isinstance(i, tuple):
                return self.parts[int(i[0])][i[1:]]
            return self.parts[int(i)]
        if self.axis == 1 and isinstance(i, tuple) and i[0] == slice(None):
            return self.parts[int(i[1])]
        raise Unsupported("index of a stacked array")

    def __len__(self):
        return len(self.parts)

    @property
    def shape(self):
        s = self.parts[0].shape
        if self.axis == 0:
            return (len(self.parts),) + s
        return (s[0], len(self.parts), s[1])


def concat(parts):
    """concatenate vectors"""
    rp, bl = [], {}
    for a in parts:
        if isinstance(a, EArr):
            a = from_earr(a)
        if a.ndim != 1:
            raise Unsupported("concat of matrices")
        for (i, j), t in a.bl.items():
            bl[(i + len(rp), 0)] = t
        rp = rp + list(a.rp)
    return Arr(1, rp, [1], bl)


def hcat(parts):
    parts = [from_earr(a) if isinstance(a, EArr) else a for a in parts]
    parts = [a if a.ndim == 2 else Arr(2, a.rp, a.cp, a.bl) for a in parts]
    rp = parts[0].rp
    for a in parts[1:]:
        rp = _merge(rp, a.rp)
    for _ in range(3):
        parts = [_split_to(a, 0, _merge(a.rp, rp)) for a in parts]
        for a in parts:
            rp = _merge(rp, a.rp)
    cp, bl = [], {}
    for a in parts:
        for (i, j), t in a.bl.items():
            bl[(i, j + len(cp))] = t
        cp = cp + list(a.cp)
    return Arr(2, rp, cp, bl)


def vcat(parts):
    parts = [from_earr(a) if isinstance(a, EArr) else a for a in parts]
    ps = []
    for a in parts:
        if a.ndim == 1:
            a = Arr(2, a.rp, a.cp, a.bl).T
        ps.append(a.T)
    return hcat(ps).T


def block(rows):
    rs = []
    for r in rows:
        r = r if isinstance(r, (list, tuple)) else [r]
        r = [x for x in r if not _empty(x)]
        if r:
            rs.append(hcat(r) if len(r) > 1 else (r[0] if not isinstance(r[0], EArr) else from_earr(r[0])))
    rs = [r for r in rs if not _empty(r)]
    return vcat(rs) if len(rs) > 1 else rs[0]


def _empty(x):
    s = x.shape
    return any(Sc.of(d).is_const() and Sc.of(d).const() == 0 for d in s)


def _has_i(x, depth=0):
    if isinstance(x, Sc):
        return terms.I_atom in x.atoms(True)
    if isinstance(x, LT):
        return any(_has_i(c) or any(_has_i(Op.by_id[i]) for i in w) for w, c in x.t.items())
    if isinstance(x, KA):
        return any(_has_i(LT(t)) for t in x.a.bl.values())
    if isinstance(x, Op):
        return any(_has_i(y) for y in x.args)
    return False


def conj_op(o):
    """complex conjugate of an operator atom (symbols are real)"""
    if not _has_i(o):
        return o
    if o.kind == "T":
        return conj_op(o.args[0]).T()
    if o.kind == "inv":
        return inv_op(LT(conj_t(o.args[0].t)), o.rows)
    if o.kind in ("phi", "phis"):
        return phi_op(o.args[0], LT(conj_t(o.args[1].t)), o.rows)
    if o.kind == "diag":
        return diag_op(LT(conj_t(o.args[0].t)), o.rows)
    raise Unsupported("complex conjugate of %r" % (o,))


def conj_t(t):
    out = {}
    for w, c in t.items():
        for w2, c2 in canon(tuple(conj_op(Op.by_id[i]).id for i in w)).items():
            t_add(out, w2, c2 * terms.conj_(c))
    return out


def real_arr(a):
    bl = {}
    for k, t in a.bl.items():
        if _has_i(LT(t)):
            bl[k] = t_scale(t_lin(t, conj_t(t), Sc.of(1)), terms.Fraction(1, 2))
        else:
            bl[k] = t
    return Arr(a.ndim, a.rp, a.cp, bl)


# --------------------------------------------------------------------------
# norms, inner products, matrix functions
# --------------------------------------------------------------------------
def norm(v, ordr=None):
    if isinstance(v, EArr):
        return earr_norm(v, ordr)
    if isinstance(v, PArr):
        return Sc.app("pnorm%s" % (ordr,), v.ident(), nonneg=True)
    o = "2" if ordr is None or (terms._scalarish(ordr) and Sc.of(ordr).is_const() and Sc.of(ordr).const() == 2) else str(ordr)
    if v.is_zero():
        return Sc.of(0)
    # pull out a common positive factor through the leading coefficient
    items = sorted((k, w) for k, t in v.bl.items() for w in t)
    k0, w0 = items[0]
    lead = v.bl[k0][w0]
    if len(items) == 1:
        c = terms.abs_(lead)
        u = Arr(v.ndim, v.rp, v.cp, {k0: {w0: Sc.of(1)}})
        if w0 == () and v.ndim == 1:
            return c
        return c * Sc.app("norm%s" % o, KA(u), nonneg=True)
    q = lead.const()
    if q is not None:
        u = v * (1 / q)
        return Sc.app("norm%s" % o, KA(u), nonneg=True) * abs(q)
    # try to factor the leading scalar out of all coefficients
    u = v * (Sc.of(1) / lead) if lead.is_monomial() else v
    if lead.is_monomial():
        return terms.abs_(lead) * Sc.app("norm%s" % o, KA(u), nonneg=True)
    return Sc.app("norm%s" % o, KA(v), nonneg=True)


class KA:
    """array as an atom argument"""
    __slots__ = ("a", "_k")

    def __init__(self, a):
        self.a = a
        self._k = None

    def key(self):
        if self._k is None:
            self._k = self.a.key()
        return self._k

    def __repr__(self):
        return repr(self.a)


def phi(k, m):
    """phi_k of a square block matrix (block exponential lemma for [[Z,B],[0,K]], K nilpotent)"""
    if isinstance(m, EArr):
        m = from_earr(m)
    if isinstance(k, Sc):
        c = k.const()
        k = int(c) if c is not None and c.denominator == 1 else k
    if m.is_lin():
        n = psum(m.rp)
        t = m.bl.get((0, 0), {})
        if not t:
            return Arr.eye(n) * Sc.of(1) / terms.factorial_(k)
        if set(t) == {()}:
            if _is1(n):
                return Arr(2, [1], [1], {(0, 0): {(): phi_scalar(k, t[()])}})
        return Arr.from_op(phi_op(k, LT(t), n))
    if isinstance(k, Sc) or k != 0:
        raise Unsupported("phi_k, k>0, of a block matrix")
    f = shift_form(m)
    if f is not None:
        return ShiftExp(*f)
    # align row and column partition
    p = _merge(m.rp, m.cp)
    for _ in range(4):
        m = _split_to(_split_to(m, 0, _merge(m.rp, p)), 1, _merge(m.cp, p))
        p = _merge(m.rp, m.cp)
        if len(p) == len(m.rp) == len(m.cp):
            break
    n = len(p)
    for (i, j), t in m.bl.items():
        if i > j and t:
            raise Unsupported("block matrix is not block upper triangular")
        if i == j and i > 0 and t:
            raise Unsupported("block matrix has more than one nonzero diagonal block")
    Z = Arr(2, [p[0]], [p[0]], {(0, 0): m.bl.get((0, 0), {})})
    ctx().note("lemma block-exponential: exp[[Z,B],[0,K]] = [[exp Z, sum_m phi_{m+1}(Z) B K^m],[0, exp K]] for nilpotent K (lean/BlockExp.lean)")
    bl = {}
    for i in range(n):
        # sum over strictly increasing chains i -> ... -> j
        chains = {i: [({(): Sc.of(1)}, 0)]}
        for j in range(i, n):
            for (tt, length) in chains.get(j, []):
                for (a, b), t in m.bl.items():
                    if a == j and b > j and t:
                        chains.setdefault(b, []).append((t_mul(tt, t) if tt != {(): Sc.of(1)} or True else t, length + 1))
        for j, lst in chains.items():
            acc = {}
            for tt, length in lst:
                if i == 0:
                    f = phi(length, Z).bl.get((0, 0), {})
                else:
                    f = {(): Sc.of(1) / math.factorial(length)}
                acc = t_lin(acc, t_mul(f, tt), Sc.of(1))
            bl[(i, j)] = acc
    return Arr(2, p, p, bl)


def shift_form(m):
    """(Z, B, n, M, S) when m = [[Z, B, 0], [0, 0, I_S], [0, 0, 0]] with rows n|S|M and columns n|M|S, S/M symbolic"""
    if len(m.rp) != 3:
        return None
    n, S, M = m.rp
    k1 = S * M.inverse() if M.is_monomial() else None
    if k1 is None or k1.is_const() or not same(psum(m.rp), psum(m.cp)):
        return None
    try:
        m = _split_to(m, 1, _merge(m.cp, [n, M, S]))
    except (Unsupported, ShapeError):
        return None
    if len(m.cp) != 3 or not all(same(x, y) for x, y in zip(m.cp, (n, M, S))):
        return None
    if set(m.bl) - {(0, 0), (0, 1), (1, 2)} or m.bl.get((1, 2)) != {(): Sc.of(1)}:
        return None
    return Arr(2, [n], [n], {(0, 0): m.bl.get((0, 0), {})}), Arr(2, [n], [M], {(0, 0): m.bl.get((0, 1), {})}), n, M, S


def shift_sum(Z, C):
    """sum over j < p of phi_{j+1}(Z) C e_j for an n x p matrix of columns (p symbolic), kept as one operator per word"""
    n, p = psum(C.rp), psum(C.cp)
    r = Arr.zeros((n,))
    for w, c in C.lt().t.items():
        o = Op.get("phisum", "phisum", n, Sc.of(1), (Z.lt(), LT({w: Sc.of(1)}), p))
        r = r + Arr.from_op(o, 1) * c
    return r


def flip_cols(C):
    """the columns in opposite order"""
    p = psum(C.cp)
    out = Arr.zeros(C.shape)
    for w, c in C.lt().t.items():
        o = Op.by_id[w[-1]] if w else None
        if o is None or o.kind != "seqcols":
            raise Unsupported("columns in opposite order")
        c0, c1 = o.args
        f = Op.get("seqcols", o.name, o.rows, o.cols, (c0 + c1 * (p - 1), -c1))
        out = out + Arr(2, C.rp, C.cp, {(0, 0): {w[:-1] + (f.id,): c}})
    return out


class ShiftExp:
    """exponential of [[Z, B, 0], [0, 0, I], [0, 0, 0]] (k block columns of width M, k symbolic): its first block row is
    (exp Z, phi_1(Z) B, ..., phi_k(Z) B) by the block exponential lemma"""
    ndim = 2
    abstract_array = True
    dtype = "real"

    def __init__(self, Z, B, n, M, S):
        self.Z, self.B, self.n, self.M, self.S = Z, B, n, M, S
        self.k = S * M.inverse() + 1
        ctx().note("lemma block-exponential: first block row of exp[[Z,B,0],[0,0,I],[0,0,0]] is (exp Z, phi_1(Z) B, .., phi_k(Z) B)")

    @property
    def shape(self):
        t = _shape_val(self.n + self.M + self.S)
        return (t, t)

    def first_row(self, x):
        if not isinstance(x, slice) or x.step is not None or x.stop is None:
            return False
        lo, hi = _range(x, self.n + self.M + self.S)
        return same(lo, Sc.of(0)) and same(hi, self.n)

    def __getitem__(self, ix):
        if not isinstance(ix, tuple) or len(ix) != 2 or not self.first_row(ix[0]):
            raise Unsupported("part of a symbolic block exponential")
        c, tot = ix[1], self.n + self.M + self.S
        if isinstance(c, slice) and c.start is None and c.stop is None and c.step is None:
            return ShiftRow(self)
        one = not isinstance(c, slice)
        if one:
            c = _norm_ix(c, tot)
            lo, hi = Sc.of(c), Sc.of(c) + 1
        else:
            lo, hi = (Sc.of(x) for x in _range(c, tot))
        if same(lo, Sc.of(0)) and same(hi, self.n):
            r = phi(0, self.Z)
        else:
            j = (lo - self.n) * self.M.inverse() + 1
            if not same(hi - lo, self.M) or not (j.is_const() or (self.k - j).is_const()) or not entails(terms.cmp_("<=", 1, j) & terms.cmp_("<=", j, self.k)):
                raise Unsupported("part of a symbolic block exponential")
            r = matmul(phi(j, self.Z), self.B)
        return getitem(r, (slice(None), 0)) if one else r


class ShiftRow:
    """first block row; as an n x (k+1) x n array when B is the identity"""
    abstract_array = True
    dtype = "real"

    def __init__(self, e, order=None):
        self.e, self.order = e, order

    def reshape(self, *s, **k):
        s = tuple(s[0]) if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        e = self.e
        if k or self.order is not None or len(s) != 3 or not (e.B - Arr.eye(e.n)).is_zero() or not same(e.M, e.n):
            raise Unsupported("reshape of a symbolic block exponential")
        want = (e.n, e.k + 1, e.n)
        if not all(same(Sc.of(a), b) or Sc.of(a).is_const() and Sc.of(a).const() == -1 for a, b in zip(s, want)):
            raise ShapeError("reshape")
        return ShiftRow(e, (0, 1, 2))

    def transpose(self, *p):
        p = tuple(int(Sc.of(x)) for x in (p[0] if len(p) == 1 and isinstance(p[0], (tuple, list)) else p))
        if self.order is None or sorted(p) != [0, 1, 2]:
            raise Unsupported("transpose of a symbolic block exponential")
        return ShiftRow(self.e, tuple(self.order[x] for x in p))

    def swapaxes(self, a, b):
        p = [0, 1, 2]
        a, b = int(Sc.of(a)) % 3, int(Sc.of(b)) % 3
        p[a], p[b] = p[b], p[a]
        return self.transpose(p)

    @property
    def shape(self):
        if self.order is None:
            raise Unsupported("shape of a symbolic block exponential")
        d = (self.e.n, self.e.k + 1, self.e.n)
        return tuple(_shape_val(d[o]) for o in self.order)

    def __getitem__(self, j):
        e = self.e
        j = Sc.of(j) if terms._scalarish(j) else None
        if j is None or self.order is None or self.order[0] != 1:
            raise Unsupported("part of a symbolic block exponential")
        if j.is_const() and j.const() < 0:
            j = e.k + 1 + j
        ctx().prove("order within those computed", terms.cmp_("<=", 0, j) & terms.cmp_("<=", j, e.k))
        r = phi(j, e.Z)
        if self.order == (1, 0, 2):
            return r
        return r.T


def phi_scalar(k, z):
    """phi_k of a scalar: through the recurrence from exp when z is syntactically nonzero"""
    return Sc.app("phi", Sc.of(k), z)


def solve(a, b):
    """a^-1 b"""
    if isinstance(a, EArr) or isinstance(b, EArr):
        raise Unsupported("explicit solve")
    n = psum(a.rp)
    iv = Arr.from_op(inv_op(a.lt(), n))
    ctx().note("matrix handed to a linear solve is nonsingular")
    return matmul(iv, b)


# --------------------------------------------------------------------------
# explicit arrays
# --------------------------------------------------------------------------
class EArr(np.ndarray):
    __array_priority__ = 1500

    @property
    def at(self):
        return EAt(self)

    def block_until_ready(self):
        return self

    @property
    def real(self):
        return emap(terms.real_, self)

    @property
    def imag(self):
        return emap(terms.imag_, self)

    def todense(self):
        return self

    def conj(self):
        return emap(terms.conj_, self)

    def __setitem__(self, ix, v):
        np.ndarray.__setitem__(self, _cix(ix), _cell(v))

    def __getitem__(self, ix):
        return np.ndarray.__getitem__(self, _cix(ix))

    def __matmul__(self, o):
        if isinstance(o, (Arr, PArr)):
            return NotImplemented
        r = np.ndarray.__matmul__(self, o)
        return r

    def _sc(self, f, o):
        return f(self, o)

    def sum(self, axis=None, **k):
        return np.add.reduce(self, axis=axis) if axis is not None else sum((x for x in self.flat), Sc.of(0))

    def prod(self, axis=None, **k):
        if axis is None:
            r = Sc.of(1)
            for x in self.flat:
                r = r * x
            return r
        return np.multiply.reduce(self, axis=axis)

    def mean(self, axis=None, **k):
        if axis is None:
            return self.sum() / self.size
        return np.add.reduce(self, axis=axis) / Sc.of(self.shape[axis])

    def astype(self, t, *a, **k):
        return self

    @property
    def dtype_(self):
        return "real"


def _cell(v):
    return v


def _cix(ix):
    if isinstance(ix, tuple):
        return tuple(_cix1(x) for x in ix)
    return _cix1(ix)


def _cix1(x):
    if isinstance(x, Sc):
        return int(x)
    if isinstance(x, slice):
        f = lambda y: None if y is None else int(y)
        return slice(f(x.start), f(x.stop), f(x.step))
    if isinstance(x, EArr):
        return np.array([int(y) for y in x.flat], dtype=int).reshape(x.shape) if x.size else np.zeros(x.shape, int)
    if isinstance(x, list):
        return [_cix1(y) for y in x]
    return x


class EAt:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, ix):
        return EAtIx(self.a, ix)


class EAtIx:
    def __init__(self, a, ix):
        self.a, self.ix = a, ix

    def get(self):
        return self.a[self.ix].copy() if isinstance(self.a[self.ix], np.ndarray) else self.a[self.ix]

    def set(self, v, **k):
        r = self.a.copy()
        try:
            r[self.ix] = v
        except IndexError:
            return self.a.copy()
        return r

    def add(self, v, **k):
        r = self.a.copy()
        r[self.ix] = r[self.ix] + v
        return r


def earr(x):
    a = np.array(x, dtype=object)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = Sc.of(a[i]) if not isinstance(a[i], (Sc, B)) else a[i]
    return out.view(EArr)


def emap(f, a):
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = f(np.ndarray.__getitem__(a, i))
    return out.view(EArr)


def evec(name, n, sort="R", **kw):
    return earr([Sc.sym("%s_%d" % (name, i), sort, **kw) for i in range(n)])


def from_earr(a):
    """explicit array -> block array of 1x1 blocks"""
    if a.ndim == 1:
        return Arr(1, [1] * a.shape[0], [1], {(i, 0): ({(): Sc.of(a[i])} if Sc.of(a[i]).p else {}) for i in range(a.shape[0])})
    return Arr(2, [1] * a.shape[0], [1] * a.shape[1],
               {(i, j): ({(): Sc.of(a[i, j])} if Sc.of(a[i, j]).p else {})
                for i in range(a.shape[0]) for j in range(a.shape[1])})


def earr_norm(v, ordr):
    o = None if ordr is None else str(ordr)
    if v.ndim == 1:
        if o in (None, "2"):
            s = Sc.of(0)
            for x in v.flat:
                s = s + (terms.real_(x) ** 2 + terms.imag_(x) ** 2 if any(Atom.by_id[a].sort == "C" for a in x.atoms(False)) else x * x)
            return terms.sqrt_(s)
        if o == "1":
            s = Sc.of(0)
            for x in v.flat:
                s = s + terms.abs_(x)
            return s
        if o in ("inf", "oo"):
            s = Sc.of(0)
            for x in v.flat:
                s = terms.max_(s, terms.abs_(x))
            return s
    raise Unsupported("norm of explicit matrix")


# --------------------------------------------------------------------------
# pointwise arrays of symbolic length
# --------------------------------------------------------------------------
class PArr:
    """1-d array of symbolic length n: element i is f(i)"""
    __array_priority__ = 2500
    ndim = 1
    dtype = "real"
    __hash__ = None

    def __init__(self, n, f, name=None):
        self.n, self.f, self.name = Sc.of(n), f, name

    @staticmethod
    def sym(name, n, sort="R", **kw):
        terms.INT_UF.add(name)
        return PArr(n, lambda i: Sc.app(name, Sc.of(i), sort=sort, **kw), name)

    @property
    def shape(self):
        return (_shape_val(self.n),)

    @property
    def size(self):
        return _shape_val(self.n)

    def ident(self):
        if self.name:
            return self.name
        self.name = terms.fresh_name("parr")
        return self.name

    def _ix(self, i):
        i = Sc.of(i)
        if i.is_const():
            return self.n + i if i.const() < 0 else i
        if entails(terms.cmp_("<=", 0, i)):
            return i
        if bool(terms.cmp_("<", i, 0)):
            return self.n + i
        return i

    def __getitem__(self, ix):
        if isinstance(ix, slice):
            if ix.step is not None:
                raise Unsupported("strided slice")
            lo = Sc.of(0) if ix.start is None else self._ix(ix.start)
            hi = self.n if ix.stop is None else self._ix(ix.stop)
            f = self.f
            return PArr(hi - lo, lambda i: f(lo + i))
        return self.f(self._ix(ix))

    def _z(self, o, g):
        f = self.f
        if terms._scalarish(o):
            o = Sc.of(o)
            return PArr(self.n, lambda i: g(f(i), o))
        if isinstance(o, PArr):
            if not same(self.n, o.n):
                raise ShapeError("length mismatch %r vs %r" % (self.n, o.n))
            h = o.f
            return PArr(self.n, lambda i: g(f(i), h(i)))
        return NotImplemented

    def __add__(self, o):
        return self._z(o, lambda x, y: x + y)
    __radd__ = __add__

    def __sub__(self, o):
        return self._z(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._z(o, lambda x, y: y - x)

    def __mul__(self, o):
        return self._z(o, lambda x, y: x * y)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._z(o, lambda x, y: x / y)

    def __rtruediv__(self, o):
        return self._z(o, lambda x, y: y / x)

    def __neg__(self):
        return self * -1

    def __pow__(self, k):
        f = self.f
        return PArr(self.n, lambda i: f(i) ** k)

    def map(self, g):
        f = self.f
        return PArr(self.n, lambda i: g(f(i)))

    @property
    def real(self):
        return self.map(terms.real_)

    @property
    def imag(self):
        return self.map(terms.imag_)

    @property
    def at(self):
        return PAt(self)

    def flatten(self):
        return self

    def copy(self):
        return PArr(self.n, self.f)

    def __len__(self):
        raise Unsupported("len")

    def __bool__(self):
        raise Unsupported("truth value of an array")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic-length array")

    def __setitem__(self, ix, v):
        r = self.at[ix].set(v)
        self.f = r.f
        self.name = None


class PAt:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, ix):
        return PAtIx(self.a, ix)


class PAtIx:
    def __init__(self, a, ix):
        self.a, self.ix = a, ix

    def get(self):
        r = self.a[self.ix]
        return PArr(r.n, r.f, r.name) if isinstance(r, PArr) else r

    def set(self, v, **kw):
        a, ix = self.a, self.ix
        f = a.f
        if isinstance(ix, slice):
            if ix.step is not None:
                raise Unsupported("strided slice")
            lo = Sc.of(0) if ix.start is None else a._ix(ix.start)
            hi = a.n if ix.stop is None else a._ix(ix.stop)
            if terms._scalarish(v):
                g = lambda i: Sc.of(v)
            elif isinstance(v, PArr):
                if not same(v.n, hi - lo):
                    raise ShapeError("length mismatch in slice assignment: %r vs %r" % (v.n, hi - lo))
                g = lambda i: v.f(i - lo)
            elif isinstance(v, (list, tuple, np.ndarray)):
                vs = [Sc.of(x) for x in v]
                if not same(len(vs), hi - lo):
                    raise ShapeError("length mismatch in slice assignment")

                def g(i):
                    for k, x in enumerate(vs):
                        if bool(terms.cmp_("==", i, lo + k)):
                            return x
                    return vs[-1]
            else:
                raise Unsupported("slice assignment")
            return PArr(a.n, lambda i: g(i) if bool(terms.cmp_("<=", lo, i) & terms.cmp_("<", i, hi)) else f(i))
        k = a._ix(ix)
        v = Sc.of(v)
        return PArr(a.n, lambda i: v if bool(terms.cmp_("==", i, k)) else f(i))

    def add(self, v, **kw):
        return self.set(self.a[self.ix] + v)


# --------------------------------------------------------------------------
# comparison of two results
# --------------------------------------------------------------------------
def _zero_suffixes(c):
    """words w with path |= norm(w) = 0"""
    out = []
    for i in list(c.ids):
        a = Atom.by_id[i]
        if a.name.startswith("norm") and a.args and isinstance(a.args[0], KA):
            arr = a.args[0].a
            if arr.is_lin() and arr.bl:
                t = arr.bl[(0, 0)]
                if len(t) == 1 and entails(terms.cmp_("==", Sc({((i, 1),): terms.Fraction(1)}), 0)):
                    out.append(next(iter(t)))
    return out


_subst_depth = [0]


def compare(c, a, b):
    """(status, (backend, why)) of the goal a == b under the current path"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return "refuted", ("ring", "different lengths %d vs %d" % (len(a), len(b)))
        back = "ring"
        for x, y in zip(a, b):
            st, why = compare(c, x, y)
            if st != "proved":
                return st, why
            back = why[0] if why[0] == "z3" else back
        return "proved", (back, "")
    if isinstance(a, EArr) and isinstance(b, EArr):
        if a.shape != b.shape:
            return "refuted", ("ring", "shape %s vs %s" % (a.shape, b.shape))
        back = "ring"
        for i in np.ndindex(a.shape):
            st, be, why = c.scalar_zero(Sc.of(a[i]) - Sc.of(b[i]))
            if st != "proved":
                return st, (be, "entry %s: %r vs %r; %s" % (i, a[i], b[i], why))
            back = be if be == "z3" else back
        return "proved", (back, "")
    if terms._scalarish(a) and terms._scalarish(b):
        st, be, why = c.scalar_zero(Sc.of(a) - Sc.of(b))
        return st, (be, why)
    if isinstance(a, PArr) and isinstance(b, PArr):
        if not same(a.n, b.n):
            return "refuted", ("z3", "lengths %r vs %r" % (a.n, b.n))
        i = Sc.fresh("ix", "I", nonneg=True)
        c.assume(terms.cmp_("<", i, a.n))
        st, be, why = c.scalar_zero(a.f(i) - b.f(i))
        return st, (be, why)
    if isinstance(a, Stack3) or isinstance(b, Stack3):
        pa = a.parts if isinstance(a, Stack3) else list(a)
        pb = b.parts if isinstance(b, Stack3) else list(b)
        return compare(c, pa, pb)
    if isinstance(a, EArr) and isinstance(b, Arr):
        a = from_earr(a)
    if isinstance(b, EArr) and isinstance(a, Arr):
        b = from_earr(b)
    if isinstance(a, Arr) and terms._scalarish(b) and Sc.of(b).is_const() and not Sc.of(b).p:
        b = Arr.zeros(a.shape)
    if isinstance(b, Arr) and terms._scalarish(a) and Sc.of(a).is_const() and not Sc.of(a).p:
        a = Arr.zeros(b.shape)
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.ndim != b.ndim:
            return "refuted", ("ring", "rank %d vs %d" % (a.ndim, b.ndim))
        try:
            d = a - b
        except ShapeError as e:
            return "refuted", ("z3", "shape: %s" % e)
        back = "ring"
        zs = None
        bad = []
        for k, t in sorted(d.bl.items()):
            for w, cf in t.items():
                if is_zero(cf):
                    continue
                if zs is None:
                    zs = _zero_suffixes(c)
                if any(w[len(w) - len(z):] == z for z in zs):
                    back = "z3"
                    continue
                st, be, why = c.scalar_zero(cf)
                if st == "proved":
                    back = "z3"
                    continue
                bad.append((k, w, cf, st, why))
        if not bad:
            return "proved", (back, "")
        if _subst_depth[0] == 0:
            from . import subst
            sb = subst.from_path(c.bs)
            if sb is not None:
                _subst_depth[0] += 1
                sd = None
                try:
                    sd = sb.arr(d)
                    st, why = compare(c, sd, Arr.zeros(d.shape))
                except Unsupported:
                    st = None
                finally:
                    _subst_depth[0] -= 1
                if st == "proved":
                    return st, ("path-equalities", "")
                if st == "refuted":
                    return st, why
                if sd is not None:
                    try:
                        if numeric_differs(c, sd, zs or [], [sb.b(x) for x in c.bs]):
                            return "refuted", ("ring", "under the path equalities: %s" % show(next(iter(sd.bl.values()), {})))
                    except Unsupported:
                        pass
        desc = "; ".join("block %s word %s coefficient %r" % (k, "·".join(repr(Op.by_id[i]) for i in w) or "I", cf)
                         for k, w, cf, _, _ in bad[:3])
        # numeric triage of the whole difference
        ok = numeric_differs(c, d, zs or [])
        if ok is None:
            return "unknown", ("ring", desc)
        return ("refuted" if ok else "unknown"), ("ring", desc)
    raise Unsupported("cannot compare %s with %s" % (type(a).__name__, type(b).__name__))


# --------------------------------------------------------------------------
# numeric evaluation of block arrays (triage only)
# --------------------------------------------------------------------------
class NumArr:
    def __init__(self, it, zero=()):
        self.it = it
        self.ops = {}
        self.zero = zero

    def dim(self, s):
        v = self.it.sc(Sc.of(s))
        return max(0, int(round(v)))

    def op(self, o):
        if o.id in self.ops:
            return self.ops[o.id]
        r, c = self.dim(o.rows), self.dim(o.cols)
        if o.kind == "T":
            m = self.op(o.args[0]).T
        elif o.kind == "phis":
            m = phi_num(self.dim(o.args[0]), self.lt(o.args[1], r, c))
        elif o.kind == "phi":
            m = phi_num(o.args[0], self.lt(o.args[1], r, c))
        elif o.kind == "inv":
            m = np.linalg.inv(self.lt(o.args[0], r, c))
        elif o.kind == "diag":
            m = np.diag(self.lt(o.args[0], r, 1).reshape(-1))
        elif o.kind == "diaginv":
            m = np.diag(1 / self.lt(o.args[0], r, 1).reshape(-1))
        elif o.kind == "rows":
            off = self.dim(o.args[1])
            m = self.op(o.args[0])[off:off + r, :]
        elif o.kind == "cols":
            off = self.dim(o.args[1])
            m = self.op(o.args[0])[:, off:off + c]
        elif o.kind == "seqcols":
            c0, c1 = (float(np.real(self.it.sc(x))) for x in o.args)
            m = np.array([[self.it.rnd(o.name, (round(c0 + c1 * j, 8),), i, 0) - 0.5 for j in range(c)] for i in range(r)])
        elif o.kind == "phisum":
            z, b = self.lt(o.args[0], r, r), self.lt(o.args[1], r, self.dim(o.args[2]))
            m = sum(phi_num(i + 1, z) @ b[:, i:i + 1] for i in range(b.shape[1]))
        elif o.kind == "app" and o.name == "absv":
            m = np.abs(self.arr(o.args[0].a))
        elif o.kind == "app" and o.name == "diagof":
            m = np.diag(self.arr(o.args[0].a)).reshape(-1, 1)
        elif o.kind == "sym" and o.name == "offdiag":
            d = int(round(float(self.it.sc(o.args[0]))))
            m = np.diag(self.lt(o.args[1], r - abs(d), 1).reshape(-1), d)
        elif o.kind == "app":
            vals = []
            for a in o.args:
                if isinstance(a, Sc):
                    vals.append(round(float(np.real(self.it.sc(a))), 8))
                elif isinstance(a, KA):
                    vals.append(tuple(np.round(self.arr(a.a).reshape(-1), 7)))
                else:
                    vals.append(repr(terms._key(a)))
            m = np.array([[self.it.rnd(o.name, tuple(vals), i, j) - 0.5 for j in range(c)] for i in range(r)])
        elif o.props.get("ones"):
            m = np.ones((r, c))
        else:
            m = np.array([[self.it.rnd(o.name, i, j) - 0.5 for j in range(c)] for i in range(r)])
        m = m.reshape(r, c)
        self.ops[o.id] = m
        return m

    def lt(self, lt, r, c):
        m = np.zeros((r, c), dtype=complex)
        for w, cf in lt.t.items():
            if any(w[len(w) - len(z):] == z for z in self.zero if z):
                continue
            t = np.eye(r) if not w else None
            for i in w:
                t = self.op(Op.by_id[i]) if t is None else t @ self.op(Op.by_id[i])
            m = m + t * self.scal(cf)
        return m.real if np.allclose(m.imag, 0) else m

    def scal(self, s):
        self.it.numarr = self
        for i in Sc.of(s).atoms(True):
            a = Atom.by_id[i]
            if a.id in self.it.cache:
                continue
            if a.name == "ip":
                m = None
                for o in a.args[0].w:
                    m = self.op(Op.by_id[o]) if m is None else m @ self.op(Op.by_id[o])
                self.it.cache[a.id] = complex(m[0, 0]) if np.iscomplexobj(m) else float(m[0, 0])
            elif a.name.startswith("norm") and a.args and isinstance(a.args[0], KA):
                v = self.arr(a.args[0].a)
                kind = a.name[4:]
                o = {"2": 2, "1": 1, "inf": np.inf}.get(kind, 2)
                self.it.cache[a.id] = float(np.linalg.norm(v.reshape(-1) if a.args[0].a.ndim == 1 else v, o))
            elif a.name in ("mean", "amax", "amin") and a.args and isinstance(a.args[0], KA):
                self.it.cache[a.id] = getattr(np, a.name)(self.arr(a.args[0].a)).item()
        return self.it.sc(s)

    def arr(self, a, mag=False):
        """value of a block array; with mag the sum of the magnitudes of its terms"""
        rs = [self.dim(x) for x in a.rp]
        cs = [self.dim(x) for x in a.cp]
        m = np.zeros((sum(rs), sum(cs)), dtype=complex)
        ro = np.concatenate([[0], np.cumsum(rs)]).astype(int)
        co = np.concatenate([[0], np.cumsum(cs)]).astype(int)
        for (i, j), t in a.bl.items():
            m[ro[i]:ro[i + 1], co[j]:co[j + 1]] = (sum(np.abs(self.lt(LT({w: cf}), rs[i], cs[j])) for w, cf in t.items())
                                                   if mag else self.lt(LT(t), rs[i], cs[j]))
        return m.real if np.allclose(m.imag, 0) else m


def phi_num(k, z):
    import scipy.linalg as sl
    n = z.shape[0]
    if k == 0:
        return sl.expm(z)
    e = np.zeros(((k + 1) * n, (k + 1) * n), dtype=z.dtype)
    e[:n, :n] = z
    for i in range(k):
        e[i * n:(i + 1) * n, (i + 1) * n:(i + 2) * n] = np.eye(n)
    return sl.expm(e)[:n, -n:]


def numeric_differs(c, d, zero, bs=None):
    """True: differs at an interpretation satisfying the path, False: never differs, None: no sample"""
    from .terms import Interp
    seen = False
    for seed in range(80):
        it = Interp("n%d" % seed)
        na = NumArr(it, zero)
        try:
            ids = set(c.ids)
            # evaluate array-dependent atoms first
            for b in (c.bs if bs is None else bs):
                _touch(b, na)
            if not all(_near(it, b, zero) for b in (c.bs if bs is None else bs)):
                continue
            m = na.arr(d)
        except (ValueError, ZeroDivisionError, OverflowError, np.linalg.LinAlgError, IndexError, TypeError):
            continue
        if not np.all(np.isfinite(m)):
            continue
        seen = True
        if m.size and np.max(np.abs(m)) > 1e-7:
            return True
    for fixed in _path_models(c, c.bs if bs is None else bs):
        it = Interp("pm", fixed)
        na = NumArr(it, zero)
        try:
            for b in (c.bs if bs is None else bs):
                _touch(b, na)
            if not all(it.b(b) for b in (c.bs if bs is None else bs)):
                continue
            m = na.arr(d)
            big = na.arr(d, True)
        except (ValueError, ZeroDivisionError, OverflowError, np.linalg.LinAlgError, IndexError, TypeError):
            continue
        if not np.all(np.isfinite(m)) or not m.size:
            continue
        seen = True
        if np.max(np.abs(m)) > 1e-10 * (1 + np.max(big)):
            return True
    return False if seen else None


def _path_models(c, bs):
    """values of the free real scalars satisfying the path and different from each other: narrow
    path conditions (|a - b| < 1e-8) are out of reach of random sampling"""
    z3 = terms.z3
    ids = set(c.ids)
    free = [i for i in sorted(ids) if not Atom.by_id[i].args and Atom.by_id[i].sort == "R" and Atom.by_id[i].name not in ("pi", "inf", "I")]
    if len(free) < 2 or len(free) > 14:
        return
    zs = [terms.atom_z3(Atom.by_id[i]) for i in free]
    wide = [z3.And(z <= 2, z >= -2) for z in zs]
    for gap in (0, terms.Fraction(1, 10 ** 9), terms.Fraction(1, 10 ** 7), terms.Fraction(1, 100)):
        gs = [z3.Or(x - y > z3.RealVal(str(gap)), y - x > z3.RealVal(str(gap))) for k, x in enumerate(zs) for y in zs[:k]]
        r, model = c.check(gs + wide, 3000, ids)
        if r != "sat" or model is None:
            continue
        fixed = {}
        try:
            for i, z in zip(free, zs):
                v = model.eval(z, model_completion=True)
                fixed[i] = float(v.as_fraction()) if not z3.is_algebraic_value(v) else float(v.approx(14).as_fraction())
        except Exception:
            continue
        yield fixed


def _near(it, b, zero):
    return it.b(b)


def _touch(b, na):
    for x in b.args:
        if isinstance(x, B):
            _touch(x, na)
        elif isinstance(x, Sc):
            na.scal(x)
