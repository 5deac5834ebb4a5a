"""Substitution of scalar atoms throughout scalars, operators and arrays (used to
rewrite with the equalities of a path)."""
from . import terms, lin
from .terms import Sc, Atom, B
from .lin import Op, LT, KA, Arr, W


class Subst:
    def __init__(self, mp):
        self.mp = mp
        self.ma, self.mo = {}, {}

    def sc(self, s):
        out = Sc({})
        for m, c in s.p.items():
            t = Sc.of(c)
            for a, e in m:
                x = self.atom(a)
                t = t * (x ** e if e != 1 else x)
            out = out + t
        return out

    def atom(self, i):
        if i in self.mp:
            return self.mp[i]
        r = self.ma.get(i)
        if r is None:
            r = self.ma[i] = self._atom(i)
        return r

    def _atom(self, i):
        a = Atom.by_id[i]
        me = Sc({((i, 1),): terms.Fraction(1)})
        if not a.args:
            return me
        new = [self.arg(x) for x in a.args]
        if a.name == "ip":
            return new[0]
        if [terms._key(x) for x in new] == [terms._key(x) for x in a.args]:
            return me
        f = dict(inv=lambda x: Sc.of(1) / x, sqrt=terms.sqrt_, exp=terms.exp_, log=terms.log_, abs=terms.abs_,
                 floor=terms.floor_, factorial=terms.factorial_).get(a.name)
        if f is not None and len(new) == 1:
            return f(new[0])
        at = Atom.get(a.name, tuple(new), a.sort, nonneg=a.nonneg, pos=a.pos)
        return Sc({((at.id, 1),): terms.Fraction(1)})

    def arg(self, x):
        if isinstance(x, Sc):
            return self.sc(x)
        if isinstance(x, KA):
            return KA(self.arr(x.a))
        if isinstance(x, LT):
            return LT(self.t(x.t))
        if isinstance(x, W):
            t = self.word(x.w)
            if set(t) <= {()}:
                return t.get((), Sc.of(0))
            raise terms.Unsupported("substitution in an inner product")
        if isinstance(x, Op):
            t = self.op(x)
            if len(t) == 1:
                (w, c), = t.items()
                if len(w) == 1 and c.const() == 1:
                    return Op.by_id[w[0]]
            raise terms.Unsupported("substitution in an operator argument")
        return x

    def op(self, o):
        r = self.mo.get(o.id)
        if r is None:
            r = self.mo[o.id] = self._op(o)
        return r

    def _op(self, o):
        if not o.args:
            rows, cols = self.sc(Sc.of(o.rows)), self.sc(Sc.of(o.cols))
            if rows.key() == Sc.of(o.rows).key() and cols.key() == Sc.of(o.cols).key():
                return {(o.id,): Sc.of(1)}
            n = Op.get(o.kind, o.name, rows, cols, (), **o.props)
            return {(n.id,): Sc.of(1)}
        if o.kind == "T":
            return lin.t_T(self.op(o.args[0]))
        new = [self.arg(x) for x in o.args]
        if [terms._key(x) for x in new] == [terms._key(x) for x in o.args]:
            return {(o.id,): Sc.of(1)}
        rows, cols = self.sc(Sc.of(o.rows)), self.sc(Sc.of(o.cols))
        if o.kind in ("phi", "phis"):
            return lin.phi(new[0], Arr(2, [rows], [rows], {(0, 0): new[1].t})).bl.get((0, 0), {})
        if o.kind == "inv":
            return {(lin.inv_op(new[0], rows).id,): Sc.of(1)}
        if o.kind == "diag":
            return {(lin.diag_op(new[0], rows).id,): Sc.of(1)}
        n = Op.get(o.kind, o.name, rows, cols, tuple(new), **o.props)
        return {(n.id,): Sc.of(1)}

    def word(self, w):
        t = {(): Sc.of(1)}
        for i in w:
            t = lin.t_mul(t, self.op(Op.by_id[i]))
        return t

    def t(self, t):
        out = {}
        for w, c in t.items():
            for w2, c2 in self.word(w).items():
                lin.t_add(out, w2, c2 * self.sc(c))
        return out

    def b(self, b):
        """the condition after substitution"""
        if b.op in ("T", "F", "atom"):
            return b
        if b.op == "not":
            return ~self.b(b.args[0])
        if b.op in ("and", "or"):
            x = [self.b(y) for y in b.args]
            r = x[0]
            for y in x[1:]:
                r = (r & y) if b.op == "and" else (r | y)
            return r
        return terms.cmp_(b.op, self.sc(b.args[0]), self.sc(b.args[1]))

    def arr(self, a):
        return Arr(a.ndim, [self.sc(x) for x in a.rp], [self.sc(x) for x in a.cp], {k: self.t(t) for k, t in a.bl.items()})


def from_path(bs):
    """triangular substitution implied by the equalities of a path, or None"""
    mp = {}
    for b in bs:
        if b.op != "==":
            continue
        d = terms.clear_inv(Sc.of(b.args[0]) - Sc.of(b.args[1]))
        if mp:
            d = Subst(mp).sc(d)
        if not d.p or d.is_const():
            continue
        best = None
        for m, c in d.p.items():
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                rest = d - Sc({m: c})
                if Atom.by_id[a].sort == "C" or a in rest.atoms(True):
                    continue
                if Atom.by_id[a].args and any(a2 == a for a2 in rest.atoms(True)):
                    continue
                if best is None or (not Atom.by_id[a].args, a) > (not Atom.by_id[best[0]].args, best[0]):
                    best = (a, rest * (terms.Fraction(-1) / c))
        if best is None:
            continue
        one = Subst({best[0]: best[1]})
        mp = {k: one.sc(v) for k, v in mp.items()}
        mp[best[0]] = best[1]
    return Subst(mp) if mp else None


class _Unabs(Subst):
    def _atom(self, i):
        a = Atom.by_id[i]
        if a.name == "abs":
            u = self.sc(a.args[0])
            return u if bool(terms.cmp_("<=", 0, u)) else -u
        return Subst._atom(self, i)


def without_abs(s):
    """s with every absolute value replaced by its argument or the negative of it,
    by a case distinction on the sign of the argument"""
    return _Unabs({}).sc(Sc.of(s))
