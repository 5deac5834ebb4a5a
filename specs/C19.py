"""C19: decay and transmutation matrices, analytic decay chain."""
from .common import *
from ovc.terms import diff, exp_, is_zero

app = Sc.app


class PMat:
    """d x d array given by its entries (mutable, element updates)"""
    abstract_array = True

    def __init__(self, d, f):
        self.d, self.f = d, f
        self.shape = (d, d)

    def _ix(self, ix):
        if not (isinstance(ix, tuple) and len(ix) == 2):
            raise Unsupported("index of an abstract matrix")
        r, c = Sc.of(ix[0]), Sc.of(ix[1])
        for v in (r, c):
            CTX.prove("index within the matrix", cmp_("<=", 0, v) & cmp_("<", v, self.d))
        return r, c

    def __getitem__(self, ix):
        return self.f(*self._ix(ix))

    def __setitem__(self, ix, v):
        r, c = self._ix(ix)
        old, v = self.f, Sc.of(v)
        self.f = lambda i, j: v if bool(cmp_("==", j, c)) and bool(cmp_("==", i, r)) else old(i, j)

    def _map(self, g):
        f = self.f
        return PMat(self.d, lambda i, j: g(f(i, j)))

    def __mul__(self, o):
        return self._map(lambda x: x * Sc.of(o))
    __rmul__ = __mul__

    def __neg__(self):
        return self._map(lambda x: -x)

    def __truediv__(self, o):
        return self._map(lambda x: x / Sc.of(o))


class Key:
    """the species at position i of the list"""

    def __init__(self, i):
        self.i = Sc.of(i)

    def abstract_key(self, val):
        if not (isinstance(val, Sc) and (val - self.i).is_const() and not (val - self.i).p):
            raise Unsupported("dictionary of something else than positions")
        return index_of

    def __hash__(self):
        raise Unsupported("hash of an abstract key")

    def __eq__(self, o):
        if isinstance(o, str):
            return B.of(False)
        if isinstance(o, (Key, Child)):
            return cmp_("==", index_of(self), index_of(o)) if not isinstance(o, Child) or not bool(o == "none") else B.of(False)
        raise Unsupported("comparison of an abstract key")

    def __ne__(self, o):
        return ~B.of(self == o)


class Child:
    """daughter of branch b of species i: 'none' or one of the list"""

    def __init__(self, i, b):
        self.i, self.b = Sc.of(i), Sc.of(b)

    def none(self):
        return cmp_("==", app("leaves", self.i, self.b, sort="I"), 1)

    def __hash__(self):
        raise Unsupported("hash of an abstract key")

    def __eq__(self, o):
        if isinstance(o, str):
            return self.none() if o == "none" else B.of(False)
        if isinstance(o, Key):
            return o == self
        raise Unsupported("comparison of an abstract key")

    def __ne__(self, o):
        return ~B.of(self == o)


DIM = [None]


def index_of(k):
    if isinstance(k, Key):
        return k.i
    if isinstance(k, Child):
        CTX.prove("only listed daughters are looked up", ~k.none())
        c = app("daughter", k.i, k.b, sort="I")
        CTX.assume(cmp_("<=", 0, c) & cmp_("<", c, DIM[0]))
        return c
    raise Unsupported("lookup of something else")


def lam(i, b):
    return app("lambda", Sc.of(i), Sc.of(b))


def branch(i, b):
    return (Child(i, b), lam(i, b))


class Branches(load.AbsSeq, tuple):
    """(child, constant) pairs of one species"""

    def __new__(cls, i):
        return tuple.__new__(cls)

    def __init__(self, i):
        n = app("branches", i, sort="I")
        CTX.assume(cmp_("<=", 1, n))
        load.AbsSeq.__init__(self, n, lambda b: branch(i, b))
        self.i = i

    __len__ = load.AbsSeq.__len__
    __getitem__ = load.AbsSeq.__getitem__
    __iter__ = load.AbsSeq.__iter__


class Library:
    def __getitem__(self, k):
        i = index_of(k)
        if bool(cmp_("==", app("several", i, sort="I"), 1)):
            return Branches(i)
        CTX.assume(cmp_("==", app("branches", i, sort="I"), 1))
        return branch(i, 0)


def term(r, i, b):
    """contribution of branch b of species i to entry (r, i)"""
    out = Sc.of(0)
    if not bool(Child(i, b).none()) and bool(cmp_("==", index_of(Child(i, b)), r)):
        out = out + lam(i, b)
    if bool(cmp_("==", r, i)):
        out = out - lam(i, b)
    return out


def partial(r, i, b):
    """sum of the contributions of the first b branches"""
    b = Sc.of(b)
    if not b.p:
        return Sc.of(0)
    if not (b - 1).p or lin.entails(cmp_("==", b, 1)):
        return term(r, i, 0)
    return app("P", r, i, b)


def step_lemma(r, i, b):
    """definition of the partial sums at one place: P(r,i,b+1) = P(r,i,b) + term(r,i,b)"""
    return partial(r, i, b) + term(r, i, b)


class Species:
    """loop over the species: columns before i are complete, the others zero"""

    def __init__(self, loc, d):
        self.d = d
        self.find(loc)

    def find(self, loc):
        m = [k for k, v in loc.items() if isinstance(v, PMat) or (isinstance(v, Arr) and v.ndim == 2)]
        if len(m) != 1:
            raise Unsupported("matrix of the species loop not recognised")
        return m[0]

    def want(self, i):
        return lambda r, c: partial(r, c, app("branches", c, sort="I")) if bool(cmp_("<", c, i)) else Sc.of(0)

    def check(self, loc, i, lab):
        check_matrix(loc[self.find(loc)], self.want(i), self.d, "species loop " + lab)

    def havoc(self, loc, i):
        return {self.find(loc): PMat(self.d, self.want(i))}


class BranchLoop(Species):
    """loop over the branches of species i: the first b are added to column i"""

    def __init__(self, loc, d, it):
        Species.__init__(self, loc, d)
        self.i = it.i
        self.before = loc[self.find(loc)]
        self.f0 = self.before.f if isinstance(self.before, PMat) else (lambda r, c: Sc.of(0))

    def want(self, b):
        def f(r, c):
            x = self.f0(r, c)
            return x + partial(r, self.i, b) if bool(cmp_("==", c, self.i)) else x
        return f

    def check(self, loc, b, lab):
        m, i, d = loc[self.find(loc)], self.i, self.d
        r, c = arbitrary(d)
        if lab == "preserved":
            k = Sc.of(b) - 1
            w = self.f0(r, c)
            if bool(cmp_("==", c, i)):
                w = w + step_lemma(r, i, k)
        else:
            w = self.want(b)(r, c)
        CTX.prove_eq("branch loop " + lab, entry(m, r, c), w)

    def havoc(self, loc, b):
        return {self.find(loc): PMat(self.d, self.want(b))}


def arbitrary(d):
    r, c = Sc.fresh("row", "I"), Sc.fresh("column", "I")
    CTX.assume(cmp_("<=", 0, r) & cmp_("<", r, d) & cmp_("<=", 0, c) & cmp_("<", c, d))
    return r, c


def entry(m, r, c):
    if isinstance(m, PMat):
        return m.f(r, c)
    if isinstance(m, Arr) and m.ndim == 2 and m.is_zero():
        return Sc.of(0)
    raise Unsupported("entry of a matrix of another kind")


def check_matrix(m, want, d, lab):
    r, c = arbitrary(d)
    CTX.prove_eq(lab, entry(m, r, c), want(r, c))


def contracts(d):
    def f(key, kind, it, loc):
        if kind != "for":
            return None
        if isinstance(it, Branches):
            return BranchLoop(loc, d, it)
        if isinstance(it, load.AbsSeq):
            return Species(loc, d)
        if isinstance(it, load.SymRange):
            return Species(loc, d)
    return f


def keymap(d):
    k = load.AbsSeq(d, Key)
    k.generic = integer("g", 0)
    return k


def c_bateman(keymap_, lib_):
    CTX.prove("gen_bateman_matrix gets the species list and the library", B.of(isinstance(keymap_, load.AbsSeq) and isinstance(lib_, Library)))
    return PMat(DIM[0], lambda r, c: partial(r, c, app("branches", c, sort="I")))


def build(transmute):
    def fn():
        W = make_world()
        bs = W.load("ormatex_py.progression.bateman_sys")
        d = integer("d", 1)
        DIM[0] = d
        old = load.LOOP_CONTRACTS[:]
        load.LOOP_CONTRACTS[:] = [contracts(d)]
        try:
            if transmute:
                # the caller is checked against the contract of gen_bateman_matrix
                W.replace(bs.gen_bateman_matrix, c_bateman)
                flux = real("flux")
                m = call("gen_transmute_matrix", bs.gen_transmute_matrix, keymap(d), Library(), flux)
            else:
                flux = None
                m = call("gen_bateman_matrix", bs.gen_bateman_matrix, keymap(d), Library())
        finally:
            load.LOOP_CONTRACTS[:] = old
        r, c = arbitrary(d)
        w = partial(r, c, app("branches", c, sort="I"))
        if transmute:
            CTX.prove("a matrix", B.of(isinstance(m, PMat)))
        CTX.prove_eq("entry (child, parent)", entry(m, r, c), -flux * w if transmute else w)
        CTX.note("lemma (lean/Bateman.lean, column_sum): the column of a parent sums to minus what it loses to 'none'")
        CTX.cover("matrix")
    return fn


def default_flux():
    W = make_world()
    bs = W.load("ormatex_py.progression.bateman_sys")
    a, b = real("a"), real("b")
    lib_ = {"p": (("q", a), ("none", b)), "q": ("none", a)}
    m1 = bs.gen_transmute_matrix(["p", "q"], lib_)
    m0 = bs.gen_bateman_matrix(["p", "q"], lib_)
    CTX.prove_eq("the default flux is one", m1, -m0)
    CTX.cover("matrix")


# --------------------------------------------------------------- concrete lists
def conserve(names, lib_):
    """what leaves a parent = what its daughters gain + what leaves to 'none'"""
    def fn():
        W = make_world()
        bs = W.load("ormatex_py.progression.bateman_sys")
        L, out = {}, {}
        k = 0
        for s in names:
            br = []
            for c in lib_[s]:
                br.append((c, real("l%d" % k)))
                k += 1
            out[s] = sum((x for c, x in br if c == "none"), Sc.of(0))
            L[s] = tuple(br) if len(br) > 1 else br[0]
        m = call("gen_bateman_matrix", bs.gen_bateman_matrix, list(names), L)
        for j, s in enumerate(names):
            CTX.prove_eq("column sum of %s: what leaves the system" % s, sum((m[i, j] for i in range(len(names))), Sc.of(0)), -out[s])
            for i, p in enumerate(names):
                br = L[s] if isinstance(L[s][0], tuple) else (L[s],)
                w = sum((x for c, x in br if c == p), Sc.of(0)) - (sum((x for _, x in br), Sc.of(0)) if i == j else 0)
                CTX.prove_eq("entry (%s, %s)" % (p, s), m[i, j], w)
        CTX.cover("matrix")
    return fn


# ---------------------------------------------------------------- analytic chain
def chain(ns):
    def fn():
        W = make_world()
        bs = W.load("ormatex_py.progression.bateman_sys")
        l = [real("l%d" % i) for i in range(ns)]
        for i in range(ns):
            for j in range(i):
                CTX.assume(~cmp_("==", l[i] - l[j], 0))
        t, n0 = real("t"), real("n0")
        m = lib.zeros((ns, ns))
        for i in range(ns):
            m[i, i] = -l[i]
            if i + 1 < ns:
                m[i + 1, i] = l[i]
        N = call("analytic_bateman_single_parent", bs.analytic_bateman_single_parent, lib.array([t, Sc.of(0)]), m, n0)
        CTX.prove("one row per time, one column per species", B.of(tuple(int(Sc.of(x).const()) for x in N.shape) == (2, ns)))
        for i in range(ns):
            w = -l[i] * N[0, i] + (l[i - 1] * N[0, i - 1] if i else 0)
            CTX.prove_eq("decay equation of species %d" % i, diff(N[0, i], t), w)
            CTX.prove_eq("initial amount of species %d" % i, N[1, i], n0 if i == 0 else Sc.of(0))
        CTX.cover("chain")
    return fn


# ------------------------------------------------- analytic chain, any number of species and times
class PTab(PMat):
    """n x d array given by its entries; columns can be replaced"""

    def __init__(self, n, d, f):
        self.n, self.d, self.f = Sc.of(n), Sc.of(d), f
        self.shape = (n, d)

    def __setitem__(self, ix, v):
        if not (isinstance(ix, tuple) and len(ix) == 2 and isinstance(ix[0], slice) and ix[0] == slice(None)):
            raise Unsupported("update of a table by something else than columns")
        c = Sc.of(ix[1])
        CTX.prove("index within the table", cmp_("<=", 0, c) & cmp_("<", c, self.d))
        if not isinstance(v, lin.PArr) or not lin.same(v.n, self.n):
            raise Unsupported("column of a table")
        old, h = self.f, v.f
        self.f = lambda i, j: h(i) if bool(cmp_("==", j, c)) else old(i, j)

    def _map(self, g):
        f = self.f
        return PTab(self.n, self.d, lambda i, j: g(f(i, j)))


class PChain(PMat):
    """the matrix of a decay chain: -rate(c) on the diagonal, rate(c) below it"""

    def __init__(self, d):
        def f(r, c):
            if bool(cmp_("==", r, c)):
                return -rate(c)
            return rate(c) if bool(cmp_("==", r, c + 1)) else Sc.of(0)
        PMat.__init__(self, d, f)

    def diagonal(self, offset=0):
        if offset == 0:
            return lin.PArr(self.d, lambda i: -rate(i))
        if offset == -1:
            return lin.PArr(self.d - 1, lambda i: rate(i))
        if offset == 1:
            return lin.PArr(self.d - 1, lambda i: Sc.of(0))
        raise Unsupported("another diagonal")


def rate(i):
    return app("rate", Sc.of(i))


def base(i, at0, x):
    """x at a positive count, at0 at zero"""
    return at0 if lin.entails(cmp_("==", i, 0)) else x


def weight(i):
    """product of the first i rates"""
    return base(i, Sc.of(1), app("Weight", Sc.of(i)))


def gaps(n, i, j):
    """product of rate(l) - rate(i) over l < j, l != i (distinct rates: not zero); n only names the chain"""
    d = app("Gaps", Sc.of(i), Sc.of(j))
    CTX.assume(~cmp_("==", d, 0))
    return base(j, Sc.of(1), d)


def gaps_step(n, i, j):
    if bool(cmp_("==", i, j)):
        return gaps(n, i, j)
    CTX.assume(~cmp_("==", rate(j) - rate(i), 0))
    return gaps(n, i, j) * (rate(j) - rate(i))


def terms_of(n, i, r):
    """sum over k < i of exp(-rate(k) t_r)/Gaps(k, n)"""
    return base(i, Sc.of(0), app("Terms", Sc.of(n), Sc.of(i), Sc.of(r)))


class ChainLoop:
    """loop over the species: the columns before are complete"""

    def __init__(self, loc, d, nt, n0, t):
        self.d, self.nt, self.n0, self.t = d, nt, n0, t
        self.span = (Sc.of(1), d + 1)
        self.find(loc)

    def find(self, loc):
        m = [k for k, v in loc.items() if isinstance(v, PTab)]
        if len(m) != 1:
            raise Unsupported("table of the chain not recognised")
        return m[0]

    def at(self, r, c):
        return self.n0 * weight(c) * terms_of(c + 1, c + 1, r)

    def check(self, loc, i, lab):
        if lin.entails(cmp_("==", Sc.of(i), 1)):
            return  # no column is complete yet
        r, c = Sc.fresh("row", "I"), Sc.fresh("column", "I")
        CTX.assume(cmp_("<=", 0, r) & cmp_("<", r, self.nt) & cmp_("<=", 0, c) & cmp_("<", c, Sc.of(i) - 1))
        CTX.prove_eq("species loop " + lab, loc[self.find(loc)].f(r, c), self.at(r, c))

    def havoc(self, loc, i):
        i = Sc.of(i)

        def f(r, c):
            return self.at(r, c) if bool(cmp_("<", c, i - 1)) else app("later", r, c)
        return {self.find(loc): PTab(self.nt, self.d, f)}


def chain_contracts(d, nt, n0, t):
    seen = {}

    class Noted(load.Tracked):
        numbers = True

        def havoc(self, loc, i):
            if self.kind not in seen:
                seen[self.kind] = Sc.of(i)
            return {}

    def f(key, kind, it, loc):
        if kind != "for" or not isinstance(it, load.SymRange):
            return None
        if "n" not in seen:
            con = ChainLoop(loc, d, nt, n0, t)
            hv = con.havoc

            def havoc(loc, i):
                seen.setdefault("n", Sc.of(i))
                return hv(loc, i)
            con.havoc = havoc
            return con
        n = seen["n"]
        size = Sc.of(it.hi) - Sc.of(it.lo)
        if lin.same(size, n - 1):
            con = Noted((Sc.of(0), n - 1), load.Quantity(weight, lambda i: weight(i) * rate(i)))
            con.kind = "weight"
        elif lin.same(size, n) and "i" not in seen:
            def S(i):
                return lin.PArr(nt, lambda r: terms_of(n, i, r))

            def step(i):
                g = gaps(n, i, n)
                return lin.PArr(nt, lambda r: terms_of(n, i, r) + exp_(-rate(i) * t.f(r)) / g)
            con = Noted((Sc.of(0), n), load.Quantity(S, step))
            con.kind = "i"
        elif lin.same(size, n):
            k = seen["i"]
            con = Noted((Sc.of(0), n), load.Quantity(lambda j: gaps(n, k, j), lambda j: gaps_step(n, k, j)))
            con.kind = "j"
        else:
            raise Unsupported("loop of another length")
        return con
    return f


def any_chain():
    W = make_world()
    bs = W.load("ormatex_py.progression.bateman_sys")
    d, nt, n0 = integer("d", 1), integer("nt", 1), real("n0")
    t = lin.PArr.sym("t", nt)
    oldf = lib.FILL_HOOK[:]

    def fill(shape, v):
        if len(shape) == 2 and not Sc.of(v).p:
            return PTab(shape[0], shape[1], lambda r, c: Sc.of(0))
        return lin.PArr(shape[0], lambda i: Sc.of(v)) if len(shape) == 1 else None
    old = load.LOOP_CONTRACTS[:]
    load.LOOP_CONTRACTS[:] = [chain_contracts(d, nt, n0, t)]
    lib.FILL_HOOK[:] = [fill]
    try:
        N = call("analytic_bateman_single_parent", bs.analytic_bateman_single_parent, t, PChain(d), n0)
    finally:
        load.LOOP_CONTRACTS[:] = old
        lib.FILL_HOOK[:] = oldf
    CTX.prove("one row per time, one column per species", B.of(isinstance(N, PTab)) & cmp_("==", N.shape[0], nt) & cmp_("==", N.shape[1], d))
    r, c = Sc.fresh("row", "I"), Sc.fresh("column", "I")
    CTX.assume(cmp_("<=", 0, r) & cmp_("<", r, nt) & cmp_("<=", 0, c) & cmp_("<", c, d))
    CTX.prove_eq("amount of species c: n0 Weight(c) Terms(c+1, c+1)", N.f(r, c), n0 * weight(c) * terms_of(c + 1, c + 1, r))
    CTX.note("lemma (lean/Bateman.lean): with distinct rates these amounts solve the decay equations of the chain and start from n0 of the parent")
    CTX.cover("table")


def not_chain(kind):
    def fn():
        W = make_world()
        bs = W.load("ormatex_py.progression.bateman_sys")
        l = [pos("l%d" % i) for i in range(3)]
        m = lib.zeros((3, 4) if kind == "not square" else (3, 3))
        for i in range(3):
            m[i, i] = -l[i]
        m[1, 0] = l[0]
        m[2, 1] = l[1]
        if kind == "branching":
            m[1, 0] = l[0] / 2
        if kind == "last link":
            m[2, 1] = l[1] * 2
        try:
            bs.analytic_bateman_single_parent(lib.array([real("t")]), m, real("n0"))
        except (AssertionError, ValueError, TypeError, IndexError, lin.ShapeError):
            CTX.cover("rejected")
            return
        # accepted: the entries agree to the tolerance of the comparison
        tol = lambda x: Sc.of(Q(1, 10 ** 8)) + Q(1, 10 ** 5) * x
        d = {"not square": Sc.of(1), "branching": l[0] / 2, "last link": l[1]}[kind]
        CTX.prove("a matrix that is not a chain (%s) is rejected" % kind, B.of(False) if kind == "not square" else cmp_("<=", d, tol(l[0] if kind == "branching" else l[1])))
    return fn


def tasks():
    f1, f2, f3 = ("bateman_sys.gen_bateman_matrix",), ("bateman_sys.gen_bateman_matrix", "bateman_sys.gen_transmute_matrix"), ("bateman_sys.analytic_bateman_single_parent",)
    T = [Task("matrix-any-size", build(False), f1, covers=["matrix", "loop-body"]),
         Task("transmute-any-size", build(True), f2, covers=["matrix"]),
         Task("transmute-default", default_flux, f2, covers=["matrix"])]
    shapes = {
        "chain": ("abc", {"a": ["b"], "b": ["c"], "c": ["none"]}),
        "branches": ("abcd", {"a": ["b", "none", "d"], "b": ["c", "a"], "c": ["none", "none"], "d": ["c", "c"]}),
        "reversed": ("cba", {"a": ["b"], "b": ["c", "none"], "c": ["none"]}),
        "one": ("a", {"a": ["none"]}), "self": ("ab", {"a": ["a", "b"], "b": ["a"]}),
    }
    for k, (nm, lb) in shapes.items():
        T.append(Task("conserve-" + k, conserve(nm, lb), f1, covers=["matrix"]))
    for ns in (1, 2, 3, 4):
        T.append(Task("chain-%d" % ns, chain(ns), f3, covers=["chain"], bounded="chains of this length only"))
    T.append(Task("chain-any-size", any_chain, f3, covers=["table", "loop-body"]))
    for k in ("not square", "branching", "last link"):
        T.append(Task("reject-" + k.replace(" ", "-"), not_chain(k), f3, covers=["rejected"]))
    return T
