"""C11: the Arnoldi process.  Unbounded: arbitrary operator, dimension, number of columns, orthogonalisation depth.

Ghost state: q(j) the basis vectors, h(i,k) the coefficients, S(k,i) = sum_{l<i} h(l,k) q(l) the part already removed
from s A q(k) when the inner loop reaches i, so that w(k,i) = s A q(k) - S(k,i) is the working vector."""
from .common import *
from ovc.lin import Op


class Sym2:
    """two-dimensional array of symbolic extents, by columns (vectors) or by entries"""
    ndim = 2
    __array_priority__ = 3000
    dtype = "real"

    def __init__(self, r, c, kind=None, f=None):
        self.r, self.c, self.kind, self.f = Sc.of(r), Sc.of(c), kind, f

    @property
    def shape(self):
        return (lin._shape_val(self.r), lin._shape_val(self.c))

    def copy(self):
        return Sym2(self.r, self.c, self.kind, self.f)

    def entry(self, i, j):
        if self.kind is None:
            return Sc.of(0)
        if self.kind != "grid":
            raise Unsupported("entry of a matrix given by columns")
        return Sc.of(self.f(Sc.of(i), Sc.of(j)))

    def column(self, j):
        if self.kind is None:
            return Arr.zeros((self.r,))
        if self.kind != "cols":
            raise Unsupported("column of a matrix given by entries")
        return self.f(Sc.of(j))

    @staticmethod
    def full(s):
        return isinstance(s, slice) and s.start is None and s.stop is None and s.step is None

    @staticmethod
    def lead(s, n):
        if not isinstance(s, slice) or s.step is not None or not (s.start is None or lin.entails(cmp_("==", Sc.of(s.start), 0))):
            raise Unsupported("slice of a symbolic matrix")
        if s.stop is None:
            return n
        k = Sc.of(s.stop)
        if k.is_const() and k.const() < 0:
            k = n + k
        if not lin.entails(cmp_("<=", 0, k)):
            raise Unsupported("slice end may be negative")
        return k if lin.entails(cmp_("<=", k, n)) else terms.min_(k, n)

    def __getitem__(self, ix):
        if not isinstance(ix, tuple) or len(ix) != 2:
            raise Unsupported("index of a symbolic matrix")
        a, b = ix
        if isinstance(b, slice):
            if not isinstance(a, slice):
                raise Unsupported("row of a symbolic matrix")
            return Sym2(self.lead(a, self.r), self.lead(b, self.c), self.kind, self.f)
        b = self._in(b, self.c)
        if isinstance(a, slice):
            if self.kind == "grid":
                return Col(self.lead(a, self.r), lambda i: self.entry(i, b))
            if not self.full(a):
                raise Unsupported("part of a column")
            return self.column(b)
        return self.entry(self._in(a, self.r), b)

    def _in(self, i, n):
        i = Sc.of(i)
        if lin.entails(cmp_("<", i, 0)):
            i = n + i
        CTX.prove("index within the array", cmp_("<=", 0, i) & cmp_("<", i, n))
        return i

    @property
    def at(self):
        return _At(self)


class Col:
    """leading part of a column given by its entries"""
    ndim = 1
    __array_priority__ = 3000
    dtype = "real"

    def __init__(self, r, f):
        self.r, self.f = Sc.of(r), f

    @property
    def shape(self):
        return (lin._shape_val(self.r),)

    def entry(self, i):
        return Sc.of(self.f(Sc.of(i)))

    def __getitem__(self, ix):
        if isinstance(ix, slice):
            return Col(Sym2.lead(ix, self.r), self.f)
        return self.entry(Sym2._in(self, ix, self.r))

    @property
    def at(self):
        return _At(self)


class _At:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, ix):
        return (_AtCol if isinstance(self.a, Col) else _AtIx)(self.a, ix)


class _AtCol:
    def __init__(self, a, ix):
        self.a, self.ix = a, ix

    def get(self, **k):
        if k:
            raise Unsupported("indexed read with a mode")
        return self.a[self.ix]

    def set(self, v, mode=None, **kw):
        if mode not in (None, "drop", "promise_in_bounds") or any(n not in lib.BENIGN for n in kw):
            raise Unsupported("indexed update with other arguments")
        old = self.a
        if isinstance(self.ix, slice):
            n = Sym2.lead(self.ix, old.r)
            if not isinstance(v, Col) or not lin.entails(cmp_("==", v.r, n)):
                raise Unsupported("part of a column")
            return Col(old.r, lambda a: v.entry(a) if bool(cmp_("<", a, n)) else old.entry(a))
        i, v = Sc.of(self.ix) if mode == "drop" else Sym2._in(old, self.ix, old.r), Sc.of(v)
        return Col(old.r, lambda a: v if bool(cmp_("==", a, i)) else old.entry(a))

    def add(self, v, **kw):
        return self.set(self.a[self.ix] + v, **kw)


class _AtIx:
    def __init__(self, a, ix):
        self.a, self.ix = a, ix

    def get(self, **k):
        if k:
            raise Unsupported("indexed read with a mode")
        return self.a[self.ix]

    def set(self, v, mode=None, **kw):
        if mode not in (None, "drop", "promise_in_bounds") or any(n not in lib.BENIGN for n in kw):
            raise Unsupported("indexed update with other arguments")
        m = self.a
        i, j = self.ix
        inb = lambda x, n: x if mode == "drop" else m._in(x, n)
        j = inb(Sc.of(j), m.c)
        if isinstance(i, slice):
            if isinstance(v, Col) and m.kind != "cols":
                old, n = m, Sym2.lead(i, m.r)
                if not lin.entails(cmp_("==", v.r, n)):
                    raise lin.ShapeError("column of another length")
                return Sym2(m.r, m.c, "grid", lambda a, c: v.entry(a) if bool(cmp_("==", c, j) & cmp_("<", a, n)) else old.entry(a, c))
            if not Sym2.full(i) or not isinstance(v, Arr):
                raise Unsupported("column assignment")
            if m.kind == "grid":
                raise Unsupported("column of a matrix given by entries")
            old = m
            return Sym2(m.r, m.c, "cols", lambda c: v if bool(cmp_("==", c, j)) else old.column(c))
        i = inb(Sc.of(i), m.r)
        if m.kind == "cols":
            raise Unsupported("entry of a matrix given by columns")
        old, v = m, Sc.of(v)
        return Sym2(m.r, m.c, "grid", lambda a, c: v if bool(cmp_("==", a, i) & cmp_("==", c, j)) else old.entry(a, c))

    def add(self, v, **kw):
        return self.set(self.a[self.ix] + v, **kw)


# ---------------------------------------------------------------- ghost state
class G:
    def __init__(self, d):
        self.d = d
        n = d["n"]
        self.q0 = d["b"] / lib.norm(d["b"])
        self.n = n
        self.M = d["A"] * d["s"]
        self.done = set()

    def q(self, j):
        j = Sc.of(j)
        if lin.entails(cmp_("==", j, 0)):
            return self.q0
        return vec_app("q", self.n, j)

    def depth(self, k):
        return terms.max_(Sc.of(k) - self.d["iom"], Sc.of(0))

    def h(self, i, k):
        return Sc.app("h", Sc.of(i), Sc.of(k))

    def Aq(self, k):
        return self.M @ self.q(k)

    def S(self, k, i, lo):
        """removed so far"""
        if lin.entails(cmp_("==", Sc.of(i), Sc.of(lo))):
            return Arr.zeros((self.n,))
        return vec_app("removed", self.n, Sc.of(k), Sc.of(i))

    # ---- instances of the induction hypotheses
    def orth(self, i, j):
        """basis vectors at most iom+1 apart are orthonormal"""
        i, j = Sc.of(i), Sc.of(j)
        if lin.entails(cmp_("==", i, j)):
            CTX.assume(cmp_("==", self.q(i) @ self.q(i), 1))
        else:
            CTX.assume(cmp_("==", self.q(i) @ self.q(j), 0))


def near(g, i, j):
    """|i - j| <= iom + 1"""
    t = g.d["iom"] + 1
    return cmp_("<=", i - j, t) & cmp_("<=", j - i, t)


# ---------------------------------------------------------------- inner loop
def inner(g, q):
    d = g.d
    lo, hi, body, init = Sc.of(q["lower"]), Sc.of(q["upper"]), q["body"], q["init"]
    k = d.get("k")
    if k is None or d.get("inner"):
        raise Unsupported("loop outside the column loop")
    d["inner"] = True
    pos_ = {}
    init = type(init)(init) if isinstance(init, list) else tuple(init)
    vecs = [x for x in init if isinstance(x, Arr)]
    if len(vecs) == 2:
        # coefficients of the new column, started from zero, next to the working vector
        z = [x for x in vecs if isinstance(x, Arr) and x is not vecs[0] and x.is_zero()] or [x for x in vecs if x.is_zero()]
        if z:
            init = [Col(d["hs"].r, lambda i: Sc.of(0)) if x is z[0] else x for x in init]
            init = init if isinstance(q["init"], list) else tuple(init)
    for p, x in enumerate(init):
        r = "C" if isinstance(x, Col) else ("H" if x is d["hs"] else "Q" if x is d["qs"] else None) if isinstance(x, Sym2) else "w" if isinstance(x, Arr) else None
        if r is None or r in pos_:
            raise Unsupported("state of the orthogonalisation loop not recognised")
        pos_[r] = p
    if set(pos_) - {"Q"} not in ({"H", "w"}, {"C", "w"}):
        raise Unsupported("state of the orthogonalisation loop not recognised")

    def state(**v):
        s = [None] * len(init)
        for r, x in v.items():
            if r in pos_:
                s[pos_[r]] = x
        return s if isinstance(init, list) else tuple(s)
    CTX.prove_eq("column starts from the scaled operator applied to the newest basis vector", init[pos_["w"]], g.Aq(k))
    CTX.prove_eq("orthogonalisation starts at the depth", lo, g.depth(k))
    CTX.prove_eq("orthogonalisation includes the newest vector", hi, k + 1)
    H0, Q0 = d["hs"], d["qs"]
    if "C" in pos_:
        c0 = init[pos_["C"]]
        a = integer(terms.fresh_name("r"), 0)
        CTX.prove_eq("the carried column has all rows", c0.r, H0.r)
        if CTX.choose("column of coefficients"):
            CTX.assume(cmp_("<", a, H0.r))
            CTX.prove_eq("the carried column is the new column", c0.entry(a), H0.entry(a, k))
            raise PathEnd()

    def Hi(i):
        return Sym2(H0.r, H0.c, "grid", lambda a, c: g.h(a, k) if bool(cmp_("==", c, k) & cmp_("<=", lo, a) & cmp_("<", a, i)) else H0.entry(a, c))
    if CTX.choose("orthogonalisation pass"):
        i = integer(terms.fresh_name("i"), 0)
        CTX.assume(cmp_("<=", lo, i) & cmp_("<", i, hi))
        for e in (lo, k, Sc.of(0)):
            if bool(cmp_("==", i, e)):
                i = e
                break
        S = g.S(k, i, lo)
        w = g.Aq(k) - S
        out = body(i, state(H=Hi(i), C=Col(H0.r, lambda a: Hi(i).entry(a, k)), Q=Q0, w=w))
        if "C" in pos_:
            cn = out[pos_["C"]]
            if not isinstance(cn, Col):
                raise Unsupported("state of the orthogonalisation loop not recognised")
            hn = Sym2(H0.r, H0.c, "grid", lambda a, c: cn.entry(a) if bool(cmp_("==", c, k)) else H0.entry(a, c))
        else:
            hn = out[pos_["H"]]
        wn = out[pos_["w"]]
        if not isinstance(hn, Sym2):
            raise Unsupported("state of the orthogonalisation loop not recognised")
        g.orth(i, i)
        CTX.assume(cmp_("==", S @ g.q(i), 0))
        hv = hn.entry(i, k)
        CTX.prove("coefficient is the projection onto the basis vector", cmp_("==", hv, w @ g.q(i)))
        CTX.prove("coefficient is the entry of Q^T (s A) Q", cmp_("==", hv, g.Aq(k) @ g.q(i)))
        CTX.prove_eq("projection removed", wn, w - g.q(i) * hv)
        if "Q" in pos_ and out[pos_["Q"]] is not Q0:
            raise Unsupported("basis changed during orthogonalisation")
        if CTX.choose("entries"):
            sub("pass", hn, lambda a, c: hv if bool(cmp_("==", a, i) & cmp_("==", c, k)) else Hi(i).entry(a, c), g)
            raise PathEnd()
        # orthogonality gained and kept (for an arbitrary window index)
        CTX.prove("remainder orthogonal to the vector just treated", cmp_("==", (w - g.q(i) * hv) @ g.q(i), 0))
        j = integer(terms.fresh_name("j"), 0)
        CTX.assume(cmp_("<=", lo, j) & cmp_("<=", j, k))
        if bool(cmp_("<", j, i)):
            j = Sc.of(0) if bool(cmp_("==", j, 0)) else j
            CTX.prove("window vectors are within the local orthonormality", near(g, i, j))
            g.orth(i, j)
            CTX.assume(cmp_("==", w @ g.q(j), 0))
            CTX.prove("remainder stays orthogonal to the earlier ones", cmp_("==", (w - g.q(i) * hv) @ g.q(j), 0))
        elif bool(cmp_("<", i, j)):
            j = k if bool(cmp_("==", j, k)) else j
            CTX.prove("window vectors are within the local orthonormality", near(g, i, j))
            g.orth(i, j)
            CTX.assume(cmp_("==", S @ g.q(j), 0))
            CTX.prove("removed part orthogonal to the later ones", cmp_("==", (S + g.q(i) * hv) @ g.q(j), 0))
        CTX.cover("orthogonalisation pass")
        raise PathEnd()
    d["W"] = g.Aq(k) - vec_app("removed", g.n, k, k + 1)
    d["lo"] = lo
    h2 = Hi(k + 1)
    d["H1"] = h2
    return state(H=h2, C=Col(H0.r, lambda a: h2.entry(a, k)), Q=Q0, w=d["W"])


def sub(lab, got, want, g):
    """entries agree at an arbitrary place"""
    i, j = integer(terms.fresh_name("r"), 0), integer(terms.fresh_name("c"), 0)
    CTX.assume(cmp_("<", i, got.r) & cmp_("<", j, got.c))
    CTX.prove_eq(lab + ": entry", got.entry(i, j), want(i, j))


# ---------------------------------------------------------------- column loop
def outer(g, q):
    d = g.d
    init, cond, body = q["init"], q["cond"], q["body"]
    m = d["m"]
    if d.get("seen"):
        raise Unsupported("second column loop")
    d["seen"] = True
    n2 = [p for p, x in enumerate(init) if isinstance(x, Sym2)]
    pq = [p for p in n2 if init[p].kind == "cols"]
    ph = [p for p in n2 if p not in pq]
    pf = [p for p, x in enumerate(init) if isinstance(x, (B, bool))]
    pk = [p for p, x in enumerate(init) if p not in n2 and p not in pf and terms._scalarish(x)]
    if [len(x) for x in (pq, ph, pf, pk)] != [1, 1, 1, 1] or len(init) != 4:
        raise Unsupported("state of the column loop not recognised")
    pq, ph, pf, pk = pq[0], ph[0], pf[0], pk[0]

    def state(H, Q, k, flag):
        s = [None] * 4
        s[ph], s[pq], s[pk], s[pf] = H, Q, k, flag
        return s if isinstance(init, list) else tuple(s)
    k0 = Sc.of(init[pk])
    CTX.prove_eq("no column built at the start", k0, Sc.of(0))
    CTX.prove_eq("number of rows of the basis", init[pq].r, g.n)
    CTX.prove("never more columns than requested or than rows", cmp_("<=", init[pq].c, d["m0"]) & cmp_("<=", init[pq].c, g.n) & cmp_("==", init[pq].c, m))
    sub("start", init[ph], lambda i, j: Sc.of(0), g)
    if d["zero"]:
        CTX.prove("zero start vector builds nothing", ~B.of(cond(init)))
        d["exit"] = Sc.of(0)
        return init
    CTX.prove_eq("first basis vector is the normalised start vector", init[pq].column(Sc.of(0)), g.q0)
    CTX.prove("process starts", B.of(cond(init)))

    def H(k):
        def f(i, j):
            band = cmp_("<", j, k) & cmp_("<=", g.depth(j), i) & cmp_("<=", i, j + 1)
            return g.h(i, j) if bool(band) else Sc.of(0)
        return Sym2(m, m, "grid", f)

    def Q(k):
        return Sym2(g.n, m, "cols", lambda j: g.q(j) if bool(cmp_("<=", j, k)) else Arr.zeros((g.n,)))
    if CTX.choose("column"):
        k = integer(terms.fresh_name("k"), 0)
        CTX.assume(cmp_("<", k, m))
        if bool(cmp_("==", k, 0)):
            k = Sc.of(0)
        hs, qs = H(k), Q(k)
        CTX.assume(B.of(cond(state(hs, qs, k, B.of(True)))))
        d.update(k=k, hs=hs, qs=qs)
        out = body(state(hs, qs, k, B.of(True)))
        hn, qn, kn, fn_ = out[ph], out[pq], Sc.of(out[pk]), B.of(out[pf])
        if "W" not in d:
            raise Unsupported("orthogonalisation loop not recognised")
        Wv, lo = d["W"], d["lo"]
        N = lib.norm(Wv)
        CTX.assume(cmp_("<=", 0, N) & cmp_("==", N * N, Wv @ Wv))
        ok = bool(fn_)
        last = not bool(cmp_("<", k + 1, m))
        CTX.prove_eq("column counted", kn, k + 1)
        part = "entries" if CTX.choose("entries") else "basis"
        if not ok:
            CTX.prove("breakdown only for a vanishing remainder", cmp_("<=", N, Sc.of(1) / 10 ** 8))
            CTX.cover("breakdown")
        if last:
            CTX.cover("last column")
        CTX.cover("column")
        if part == "basis":
            basis(g, qn, k, lo, m, ok, N, Wv)
            raise PathEnd()
        # coefficients
        i, j = integer(terms.fresh_name("r"), 0), integer(terms.fresh_name("c"), 0)
        CTX.assume(cmp_("<", i, m) & cmp_("<", j, m))
        got = hn.entry(i, j)
        if bool(cmp_("==", j, k)):
            if bool(cmp_("==", i, k + 1)):
                CTX.prove_eq("subdiagonal entry is the norm of the remainder", got, N)
            elif bool(cmp_("<=", lo, i) & cmp_("<=", i, k)):
                CTX.prove_eq("coefficients of the orthogonalisation", got, g.h(i, k))
            else:
                CTX.prove_eq("zero outside the band", got, Sc.of(0))
        else:
            CTX.prove_eq("other columns untouched", got, hs.entry(i, j))
        raise PathEnd()
    k = integer(terms.fresh_name("built"), 1)
    CTX.assume(cmp_("<=", k, m))
    flag = B.of(CTX.choose("not broken down"))
    st = state(H(k), Q(k if flag.const() else k - 1), k, flag)
    CTX.assume(~B.of(cond(st)))
    CTX.prove("stops at the last column or on breakdown", cmp_("==", k, m) | ~flag)
    d["exit"] = k
    return st


def basis(g, qn, k, lo, m, ok, N, Wv):
    # basis
    c = integer(terms.fresh_name("c"), 0)
    CTX.assume(cmp_("<", c, m))
    if bool(cmp_("<=", c, k)):
        CTX.prove_eq("earlier basis vectors untouched", qn.column(c), g.q(c))
    elif ok and bool(cmp_("==", c, k + 1)):
        CTX.prove("no breakdown declared without a remainder", cmp_("<", 0, N))
        new = qn.column(c)
        CTX.prove_eq("Arnoldi relation: norm times new vector is the remainder", new * N, Wv)
        if lin.entails(cmp_("<", 0, N)):
            CTX.prove("new vector has unit length", cmp_("==", new @ new, 1))
            t = integer(terms.fresh_name("j"), 0)
            CTX.assume(cmp_("<=", lo, t) & cmp_("<=", t, k))
            for e in (Sc.of(0), k):
                if bool(cmp_("==", t, e)):
                    t = e
                    break
            CTX.assume(cmp_("==", Wv @ g.q(t), 0))
            CTX.prove("new vector orthogonal to the window", cmp_("==", new @ g.q(t), 0))
            u = integer(terms.fresh_name("j"), 0)
            CTX.assume(cmp_("<=", u, k) & cmp_("<=", k + 1 - u, g.d["iom"] + 1))
            CTX.prove("the window covers everything within the depth", cmp_("<=", lo, u))
            full = cmp_("<=", m, g.d["iom"] + 1)
            CTX.prove("full depth orthogonalises against everything", ~full | cmp_("<=", lo, 0))
            CTX.cover("next vector")


def arnoldi(wide):
    """m0 > n (wide) or m0 <= n"""
    W_ = make_world()
    aj, ode = W_.load("ormatex_py.arnoldi_jax"), W_.load("ormatex_py.ode_sys")
    n, m0, iom = integer("n", 1), integer("mdim", 1), integer("iom", 0)
    A, s = Arr.mat("A", n), real("s")
    d = dict(n=n, m0=m0, iom=iom, A=A, s=s)
    d["zero"] = CTX.choose("zero start vector")
    d["b"] = Arr.zeros((n,)) if d["zero"] else Arr.vec("b", n)
    if not d["zero"]:
        N = lib.norm(d["b"])
        CTX.assume(cmp_("<", 0, N) & cmp_("==", N * N, d["b"] @ d["b"]))
    CTX.assume(cmp_("<", n, m0) if wide else cmp_("<=", m0, n))
    d["m"] = n if wide else m0

    class Any(ode.LinOp):
        def _matvec(self, x):
            return A @ x

        def _dense(self):
            return A
    g = G(d) if not d["zero"] else Zero(d)

    def hook(kind, q):
        if kind == "while":
            return outer(g, q)
        return inner(g, q)

    def zeros(shape, dtype=None, **k):
        if any(n not in lib.BENIGN for n in k):
            raise Unsupported("zeros with other arguments")
        if isinstance(shape, (tuple, list)) and len(shape) == 2:
            return Sym2(*shape)
        return lib.zeros(shape, dtype)
    for nm in ("jax.numpy", "numpy"):
        W_.libs[nm].zeros = zeros
    lib.LOOPS[:] = [hook]
    try:
        Qr, Hr = call("arnoldi_lop", aj.arnoldi_lop, Any(), s, d["b"], m0, iom)
    finally:
        lib.LOOPS[:] = []
    if "exit" not in d:
        raise Unsupported("column loop not recognised")
    k, m = d["exit"], d["m"]
    CTX.prove_eq("basis: rows", Qr.shape[0], n)
    CTX.prove_eq("basis: exactly the columns built", Qr.shape[1], k)
    CTX.prove_eq("projection: rows", Hr.shape[0], k)
    CTX.prove_eq("projection: columns", Hr.shape[1], k)
    if d["zero"]:
        CTX.cover("zero")
        return
    i, j = integer("i", 0), integer("j", 0)
    CTX.assume(cmp_("<", i, k) & cmp_("<", j, k))
    if bool(cmp_("<=", g.depth(j), i) & cmp_("<=", i, j + 1)):
        CTX.prove_eq("projection: band entry", Hr.entry(i, j), g.h(i, j))
    else:
        CTX.prove_eq("projection: zero outside the band", Hr.entry(i, j), Sc.of(0))
    CTX.prove_eq("basis: column", Qr.column(j), g.q(j))
    CTX.cover("returned")


class Zero(G):
    def __init__(self, d):
        self.d, self.n = d, d["n"]


def tasks():
    F = ["arnoldi_jax.arnoldi_lop", "arnoldi_jax.arnoldi_lop_jit", "arnoldi_jax.arnoldi_mgs_lop"]
    cov = ["orthogonalisation pass", "next vector", "breakdown", "last column", "column", "returned", "zero"]
    return [Task("at-most-n-columns", lambda: arnoldi(False), F, covers=cov),
            Task("more-columns-than-rows-asked", lambda: arnoldi(True), F, covers=cov)]
