"""C16: substepping of the Leja interpolation (ghost state of the accepted substeps, unbounded loops)."""
from .common import *

LIMIT = 1000


class Ghost:
    """what the attempts made so far amount to"""

    def __init__(self, w, tau, big, eff, cnt, last):
        self.w, self.tau, self.big, self.eff, self.cnt, self.last = w, Sc.of(tau), Sc.of(big), Sc.of(eff), Sc.of(cnt), last


SCAL = {"covered": lambda g: g.tau, "remaining": lambda g: Sc.of(1) - g.tau, "largest": lambda g: g.big, "effort": lambda g: g.eff}


class Loop:
    """invariant of the substep loop.  Which local plays which role is found on unrolled prefixes (no names are assumed);
    the inductive proof then starts from an arbitrary state of these roles."""

    def __init__(self, d, kind, it):
        self.d, self.kind, self.it = d, kind, it
        self.mode = True
        self.done = False
        self.probe = CTX.quiet = CTX.choose("probe")
        self.heads = 0
        if not self.probe:
            self.pass_ = self.kind == "while" or CTX.choose("substep")

    # ---- role discovery
    def scan(self, loc, names):
        d, g = self.d, self.d["g"]
        snap = {k: loc[k] for k in names if k in loc and not isinstance(loc[k], load.Unknown)}
        c = d["cand"]
        for k, x in snap.items():
            new = set()
            if isinstance(x, (B, bool)):
                new = {("last",)} if B.of(x).const() is not None and B.of(x).const() == g.last else set()
            elif terms._scalarish(x):
                x = Sc.of(x)
                for r, f in SCAL.items():
                    if lin.entails(cmp_("==", x, f(g))):
                        new.add((r,))
                for s in (1, -1):
                    off = x - g.cnt * s
                    if off.is_const() and off.const().denominator == 1:
                        new.add(("count", s, off.const()))
                new |= {("next",), ("wanted",)}
            elif isinstance(x, Arr):
                new = {("vector",)} if lin.compare(CTX, x, g.w)[0] == "proved" else set()
            c[k] = c[k] & new if k in c else new
        d["snap"] = snap

    def attempted(self, dt):
        """the step size handed to the interpolation, in terms of the locals at the loop head"""
        d, c = self.d, self.d["cand"]
        r = Sc.of(1) - d["g"].tau
        for k, x in d.get("snap", {}).items():
            if ("next",) in c[k] and not lin.entails(cmp_("==", x, dt)):
                c[k].discard(("next",))
            if ("wanted",) in c[k]:
                x = Sc.of(x)
                short = cmp_("<=", x, r)
                if not (lin.entails(~short | cmp_("==", x, dt)) and lin.entails(short | cmp_("==", r, dt))):
                    c[k].discard(("wanted",))

    def roles(self):
        c = self.d["cand"]
        order = ["next", "wanted", "vector", "effort", "covered", "remaining", "largest", "count", "last"]
        out = {}
        for k, s in c.items():
            l = sorted(s, key=lambda r: order.index(r[0]))
            if l:
                out[k] = l[0]
        have = [r[0] for r in out.values()]
        if "next" not in have and "wanted" not in have:
            raise Unsupported("no local holds the next substep size")
        if "next" in have:       # an unclipped size is only used when nothing else determines the step
            out = {k: r for k, r in out.items() if r[0] != "wanted"}
        return out

    # ---- inductive state
    def havoc(self, loc, names):
        d = self.d
        f = terms.fresh_name
        tau, h = Sc.sym(f("covered"), nonneg=True), pos(f("next"))
        CTX.assume(cmp_("<", tau, 1))
        big = Sc.sym(f("largest"), nonneg=True)
        CTX.assume(cmp_("<=", big, 1))
        eff, cnt = integer(f("effort"), 0), integer(f("attempts"), 0)
        g = d["g"] = Ghost(vec_app(f("accepted"), d["dim"], cnt), tau, big, eff, cnt, B.of(CTX.choose("last converged")))
        roles = self.roles()
        st = {}
        if any(r[0] == "wanted" for r in roles.values()):
            x = h
            r = Sc.of(1) - tau
            h = x if bool(cmp_("<=", x, r)) else r
        else:
            x = h
            CTX.assume(cmp_("<=", tau + h, 1))
        g.h = h
        for k, r in roles.items():
            if r[0] in SCAL:
                st[k] = SCAL[r[0]](g)
            elif r[0] == "count":
                st[k] = cnt * r[1] + r[2]
            elif r[0] == "last":
                st[k] = g.last
            elif r[0] == "vector":
                st[k] = g.w
            else:
                st[k] = x
        return tuple(st.get(n, load.UNDEF) for n in names)

    def check(self, loc, lab):
        """the invariant after a pass (or on entry)"""
        d, g = self.d, self.d["g"]
        for k, r in self.roles().items():
            x = loc.get(k)
            if r[0] in SCAL:
                CTX.prove_eq("%s: %s" % (lab, r[0]), x, SCAL[r[0]](g))
            elif r[0] == "count":
                CTX.prove_eq("%s: attempts counted" % lab, x, g.cnt * r[1] + r[2])
            elif r[0] == "last":
                CTX.prove("%s: last outcome" % lab, (B.of(x) & B.of(g.last)) | (~B.of(x) & ~B.of(g.last)))
            elif r[0] == "vector":
                CTX.prove_eq("%s: accepted vector" % lab, x, g.w)
            else:
                x = Sc.of(x)
                CTX.prove("%s: next substep positive" % lab, cmp_("<", 0, x))
                if r[0] == "next":
                    CTX.prove("%s: next substep within the remaining interval" % lab, cmp_("<=", x + g.tau, 1))
                if lab == "after a substep" and g.failed is not None:
                    nxt = x
                    if r[0] == "wanted":
                        nxt = terms.min_(x, Sc.of(1) - g.tau)
                    CTX.prove_eq("failed substep shrinks by the fixed factor", nxt * 6, g.failed * 5)
        CTX.prove("%s: interval not yet covered" % lab, cmp_("<", g.tau, 1))
        CTX.prove("%s: covered part not negative" % lab, cmp_("<=", 0, g.tau))
        if lab != "entry":
            CTX.prove("attempts within the limit", cmp_("<=", g.cnt, LIMIT + 1))
            CTX.prove("largest substep", cmp_("<=", 0, g.big) & cmp_("<=", g.big, 1))

    # ---- hooks called by the rewritten loop
    def __iter__(self):
        n = 0
        while self.probe:
            yield self.it[n] if not isinstance(self.it, load.SymRange) else self.it.lo + n
            n += 1
        if self.pass_:
            lo, hi = self.bounds()
            i = lo + self.cnt0()
            CTX.assume(cmp_("<", i, hi))
            yield i
            raise Unsupported("loop body did not close")
        self.done = True

    def bounds(self):
        if isinstance(self.it, load.SymRange):
            return self.it.lo, self.it.hi
        if isinstance(self.it, range) and self.it.step == 1:
            return Sc.of(self.it.start), Sc.of(self.it.stop)
        raise Unsupported("substep loop over another sequence")

    def cnt0(self):
        self.d["precount"] = integer(terms.fresh_name("attempts"), 0)
        return self.d["precount"]

    def enter(self, loc, names):
        if self.probe:
            self.scan(loc, names)
            self.heads += 1
            if self.heads > 3:
                raise PathEnd()
            return tuple(loc.get(n, load.UNDEF) for n in names)
        if self.d.get("in"):
            raise Unsupported("while loop body did not close")
        self.d["in"] = True
        self.check(loc, "entry")
        st = self.havoc(loc, names)
        if "precount" in self.d:
            CTX.assume(cmp_("==", self.d["g"].cnt, self.d["precount"]))
        return st

    def leave(self, loc, names):
        if self.probe or not self.done:
            return tuple(loc.get(n, load.UNDEF) for n in names)
        st = self.havoc(loc, names)
        lo, hi = self.bounds()
        CTX.assume(cmp_("==", self.d["g"].cnt, hi - lo))
        return st

    def test(self, c):
        return bool(B.of(c)) if isinstance(c, (B, Sc)) else bool(c)

    def close(self, loc):
        if self.probe:
            return
        self.check(loc, "after a substep")
        CTX.cover("substep")
        raise PathEnd()


def body(conj, substep, dd, cand, zeros="some"):
    W = make_world()
    ml, mp, ode = W.load("ormatex_py.matexp_leja"), W.load("ormatex_py.matexp_poly"), W.load("ormatex_py.ode_sys")
    dim = integer("dim", 1)
    n = integer("n", 1)
    CTX.assume(cmp_("<=", n, dim))
    lop = ode.MatrixLinOp(Arr.mat("A", dim))
    v, N = Arr.vec("v", dim), integer("points", 1)
    xs = PArr.sym("x", N)
    shift, scale, tol, dt0 = real("shift"), real("scale"), pos("tol"), pos("initial")
    R, Z = integer("real_points", 0), integer("zeros", 1) if zeros == "some" else 0
    padded = PArr.sym("padded", N + Z) if conj and zeros == "some" else xs
    coef = {k: PArr.sym("coefficients_" + k, N + Z) for k in ("taylor", "pade", "recursive")}
    g = Ghost(v, 0, 0, 0, 0, False)
    g.failed, g.h = None, None
    d = dict(g=g, cand=cand, dim=dim)
    state = {}
    j = integer("j", 0)

    def pad(x, p=2):
        CTX.prove_eq("near-zero points are put before the given points", x[j], xs[j])
        CTX.prove_eq("number of near-zero points", p, Z)
        return padded

    def coeffs(kind):
        def f(x, a=0.0, b=1.0, h=1.0):
            CTX.prove_eq("coefficients: points", x[j], padded[j])
            for nm, q, w in (("shift", a, shift), ("scale", b, scale), ("step", h, Sc.of(1))):
                CTX.prove_eq("coefficients: %s" % nm, q, w)
            return coef[kind]
        return f
    W.replace(mp.leja_seq_pad_zeros, pad)
    for f, kind in ((mp.dd_exp_taylor, "taylor"), (mp.leja_coeffs_exp, "pade"), (mp.leja_coeffs_exp_dd, "recursive")):
        W.replace(f, coeffs(kind))
    kind = dd if dd in coef else "taylor"

    def attempt(op, dt, u, sh, sc, x, cs, tl, *rest, **kw):
        g = d["g"]
        if rest or kw:
            raise Unsupported("abort level")
        CTX.prove("attempt: operator", B.of(op is lop))
        for nm, q, w in (("shift", sh, shift), ("scale", sc, scale), ("tolerance", tl, tol)):
            CTX.prove_eq("attempt: %s" % nm, q, w)
        CTX.prove_eq("attempt: points", x[j], padded[j])
        CTX.prove_eq("attempt: coefficients", cs[j], coef[kind][j])
        CTX.prove_eq("attempt starts from the last accepted vector", u, g.w)
        dt = Sc.of(dt)
        if substep:
            CTX.prove("attempt: positive substep", cmp_("<", 0, dt))
            CTX.prove("attempt: substep within the remaining interval", cmp_("<=", dt + g.tau, 1))
            L = state.get("loop")
            if L is not None and L.probe:
                L.attempted(dt)
        else:
            CTX.prove_eq("attempt over the whole interval", dt, Sc.of(1))
        w = vec_app(terms.fresh_name("w"), dim, dt)
        it = integer(terms.fresh_name("it"), 1)
        ok = CTX.choose("converged")
        new = Ghost(g.w, g.tau, g.big, g.eff + it, g.cnt + 1, ok)
        new.failed, new.h = dt, None
        if ok:
            new.w, new.tau, new.failed = w, g.tau + dt, None
            new.big = terms.max_(g.big, dt)
        d["g"] = new
        d["last"] = (w, it, ok)
        return w, it, B.of(ok)

    if conj:
        def stub(op, dt, u, sh, sc, x, nr, cs, tl, *rest, **kw):
            CTX.prove_eq("attempt: number of leading real points", nr, R + Z)
            return attempt(op, dt, u, sh, sc, x, cs, tl, *rest, **kw)
        W.replace(ml.complex_conj_leja_expmv, stub)
    else:
        W.replace(ml.real_leja_expmv, attempt)

    def loop(key, kind, it, loc):
        if state.get("loop") is not None:
            raise Unsupported("second loop")
        state["loop"] = Loop(d, kind, it)
        return state["loop"]
    old_for, old_while = load.o_for, load.o_while
    a = (lop, dt0, v, xs) + ((R,) if conj else ()) + (n, shift, scale)
    kw = dict(tol=tol, substep=substep)
    if conj:
        kw["leja_n_zeros"] = Z
    if dd != "default":
        kw["dd_method"] = dd
    f = ml.complex_conj_leja_expmv_substep if conj else ml.real_leja_expmv_substep
    load.LOOP_OBJECTS[:] = [loop]
    try:
        try:
            got = f(*a, **kw)
        except RuntimeError as e:
            if isinstance(e, Unsupported):
                raise
            if state.get("loop") is not None and state["loop"].probe:
                raise PathEnd()
            CTX.prove("raises only when the substep limit is reached", cmp_("<=", LIMIT, d["g"].cnt))
            CTX.cover("raises")
            raise PathEnd()
    finally:
        load.LOOP_OBJECTS[:] = []
    if state.get("loop") is not None and state["loop"].probe:
        raise PathEnd()
    w, eff, ok, size = got
    g = d["g"]
    if substep:
        if state.get("loop") is None:
            raise Unsupported("substep loop not recognised")
        CTX.prove_eq("accepted substeps sum to one", g.tau, Sc.of(1))
        CTX.prove_eq("returns the leading block of the accepted vector", w, g.w[0:n])
        CTX.prove("reports convergence", B.of(ok))
        CTX.prove_eq("reported size is the largest accepted substep", size, g.big)
    else:
        if "last" not in d:
            raise Unsupported("interpolation not called")
        CTX.prove_eq("exactly one attempt", g.cnt, Sc.of(1))
        CTX.prove_eq("returns the leading block of the result", w, d["last"][0][0:n])
        CTX.prove("passes on the flag", B.of(ok) if d["last"][2] else ~B.of(ok))
        if d["last"][2]:
            CTX.prove_eq("reported size is the whole interval", size, Sc.of(1))
    CTX.prove_eq("reported effort is the total over all attempts", eff, g.eff)
    CTX.cover("returned")


def steps(conj, dd="default", zeros="some"):
    cand = {}

    def fn():
        body(conj, True, dd, cand, zeros)
    return fn


def single(conj, dd="default", zeros="some"):
    def fn():
        body(conj, False, dd, {}, zeros)
    return fn


def padding(p):
    def fn():
        W = make_world()
        mp = W.load("ormatex_py.matexp_poly")
        N = integer("points", 1)
        P = integer("zeros", 2) if p is None else p
        xs = PArr.sym("x", N)
        z = call("leja_seq_pad_zeros", mp.leja_seq_pad_zeros, xs, P)
        i, j = integer("i", 0), integer("j", 0)
        CTX.assume(cmp_("<", i, P))
        CTX.assume(cmp_("<", j, N))
        if p is None:
            CTX.assume(cmp_("<=", P, 1000000))
        CTX.prove_eq("length", z.shape[0], N + P)
        CTX.prove("leading points next to zero", cmp_("<=", 0, z[i]) & cmp_("<=", z[i] * 10 ** 6, 1))
        CTX.prove_eq("then the given points", z[P + j], xs[j])
        CTX.cover("padded")
    return fn


def tasks():
    T = []
    for p in (None, 1):
        T.append(Task("padding-%s" % ("any" if p is None else p), padding(p), ["matexp_poly.leja_seq_pad_zeros"], covers=["padded"]))
    R, C = ["matexp_leja.real_leja_expmv_substep"], ["matexp_leja.complex_conj_leja_expmv_substep"]
    cov = ["substep", "returned", "raises"]
    T.append(Task("real", steps(False), R, covers=cov))
    T.append(Task("conjugate", steps(True), C, covers=cov))
    T.append(Task("conjugate-no-zeros", steps(True, zeros="none"), C, covers=cov))
    for dd in ("default", "taylor", "pade", "recursive", "unknown"):
        T.append(Task("real-single-%s" % dd, single(False, dd), R, covers=["returned"]))
        T.append(Task("conjugate-single-%s" % dd, single(True, dd), C, covers=["returned"]))
    T.append(Task("conjugate-single-no-zeros", single(True, zeros="none"), C, covers=["returned"]))
    return T
