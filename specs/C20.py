"""C20: reactive transport systems.  Generic node, any number of nodes, any state; the transport operator is an abstract
linear operator on nodal vectors, the Dirichlet set and the nodal coordinates are arbitrary."""
from .fields import *
from ovc.terms import exp_, abs_, max_

P = "ormatex_py.progression."


def world(*names):
    W = install(make_world())
    return (W,) + tuple(W.load(P + n) for n in names)


class Assembler:
    """contract of AdDiffSEM: some operator, positive lumped mass, load, nodal coordinates, optional Dirichlet nodes"""

    def __init__(self, N, dirichlet):
        self.N, self.kw = N, None
        self.A = NodeOp("A", N)
        self.Ml = Fd((N,), lambda i: Sc.app("mass", i, pos=True))
        self.b = Fd((N,), lambda i: Sc.app("load", i))
        self.xs = Fd((N,), lambda i: Sc.app("x", i))
        self.isD = lambda i: cmp_("==", Sc.app("isD", Sc.of(i), sort="I"), 1)
        self.dirichlet_bd = IdxSet(self.isD) if dirichlet else None

    def assemble(self, **kw):
        used("AdDiffSEM.assemble")
        return self.A, self.Ml, self.b

    def collocation_points(self):
        return self.xs


def state(N, n):
    return Fd((N * n,), lambda q: Sc.app("u", q))


def node(N, name="i"):
    i = integer(name, 0)
    CTX.assume(cmp_("<", i, N))
    return i


def is_dirichlet(S, i, dirichlet):
    return dirichlet and bool(S.isD(i))


def build(modname, dirichlet, nspec):
    W, m = world(modname)
    N = integer("N", 1)
    S = Assembler(N, dirichlet)
    sys_ = call("RAD_SEM.__init__", m.RAD_SEM, S)
    return W, m, N, S, sys_, state(N, nspec)


# -- what the sources are (reference, per node; u = list of the species at the node)
def ref_nonlin(ua, ug, k, k_g=1, k_a=1, k_s=None):
    k_s = Sc.lit("1e-12") if k_s is None else k_s
    return Sc.of(k) * (max_(Sc.of(ug), Sc.lit("1e-16")) ** (Sc.of(2) / 3) + k_s) * (k_g * ug - k_a * ua)


def half_flux(x):
    """cos-shaped flux of the reactor region 0 <= x <= 1"""
    if bool(cmp_("<=", 0, x)) and bool(cmp_("<=", x, 1)):
        return lib.cos_(terms.PI_ * (x - Sc.of(1) / 2))
    return Sc.of(0)


def sources(modname, m, u, x):
    n = len(u)
    s = [Sc.of(0)] * n
    if modname == "rad_1d_2s":
        t = ref_nonlin(u[0], u[1], 2)
        s[0], s[1] = t, -t
    if modname == "rad_1d_9s":
        xe, cs = ref_nonlin(u[5], u[7], 10000), ref_nonlin(u[6], u[8], 900)
        s[5], s[7], s[6], s[8] = xe, -xe, cs, -cs
        th = lambda z: Sc.app("tanh", z)
        lo, hi = Sc.lit("3.8"), Sc.lit("4.2")
        prof = th((x - lo) * 10) * -th((x - hi) * 10) / 2 + Sc.of(1) / 2
        eff = Sc.lit("0.16")
        s[7] = s[7] - eff * u[7] * prof
        s[8] = s[8] - eff * u[8] * prof
        phi = half_flux(x)
        fis, tr = as_fd(m.fission_mat), as_fd(m.transmute_mat)
        for j in range(n):
            s[j] = s[j] + phi * sum((fis(j, l) for l in range(n)), Sc.of(0)) + phi * sum((u[l] * tr(j, l) for l in range(n)), Sc.of(0))
    return s


def rhs(modname, nspec, j, dirichlet):
    def fn():
        W, m, N, S, sys_, u = build(modname, dirichlet, nspec)
        d = call("RAD_SEM.frhs", sys_.frhs, real("t"), u)
        CTX.prove_eq("flat result of the length of the state", Sc.of(d.size), N * nspec)
        i = node(N)
        got = d(i + N * j)
        if is_dirichlet(S, i, dirichlet):
            CTX.prove_eq("Dirichlet node: the rate of species %d is zero" % j, got, Sc.of(0))
            CTX.cover("Dirichlet")
            return
        ui = [u(i + N * l) for l in range(nspec)]
        bat = as_fd(sys_.bat_mat)
        want = sum((bat(j, l) * ui[l] for l in range(nspec)), Sc.of(0))
        want = want - S.A.apply(lambda kap: u.f(kap + N * j), i) / S.Ml(i)
        want = want + sources(modname, m, ui, S.xs(i))[j]
        CTX.prove_eq("species %d: decay + sources - transport" % j, got, want)
        CTX.cover("interior")
    return fn


PAIRS = {"rad_1d_2s": (("_source_nonlin_evap", ((0, 1),)), ("_source_poly", ((0, 1),))), "rad_1d_9s": (("_nonlin_evap", ((5, 7), (6, 8))),)}


def transfer(modname, nspec, meth, pairs):
    def fn():
        W, m, N, S, sys_, u = build(modname, False, nspec)
        f = getattr(sys_, meth, None)
        if f is None:
            CTX.cover("transfer")     # folded into the right-hand side: covered by its contract
            return
        un = Fd((N, nspec), lambda i, j: Sc.app("c", i, j))
        s = call("RAD_SEM." + meth, f, un)
        i = node(N)
        for a, b in pairs:
            CTX.prove_eq("what leaves species %d enters species %d" % (a, b), s(i, a) + s(i, b), Sc.of(0))
        rest = [j for j in range(nspec) if not any(j in p for p in pairs)]
        for j in rest:
            CTX.prove_eq("species %d does not take part" % j, s(i, j), Sc.of(0))
        CTX.cover("transfer")
    return fn


def linear_part(modname, nspec, j):
    def fn():
        W, m, N, S, sys_, u = build(modname, True, nspec)
        L = call("RAD_SEM.fl", sys_.fl, real("t"), u)
        v = Fd((N * nspec,), lambda q: Sc.app("v", q))
        got = call("MatrixLinOp.matvec", L.matvec, v)
        i = node(N)
        CTX.prove_eq("linear part: transport of species %d alone" % j, got(i + N * j),
                     -S.A.apply(lambda kap: v.f(kap + N * j), i) / S.Ml(i))
        CTX.cover("linear part")
    return fn


def layout(modname):
    def fn():
        W, m = world(modname) if modname != "ode_utils" else (None, None)
        if m is None:
            W = install(make_world())
            m = W.load("ormatex_py.ode_utils")
        N, n = integer("N", 1), 3
        for n in (1, 2, 3, 9):
            i = node(N, "i%d" % n)
            u = Fd((N * n,), lambda q: Sc.app("u", q))
            st = call("stack_u", m.stack_u, u, n)
            CTX.prove("one column per species", B.of(len(st.dims) == 2 and same(st.dims[0], N) and same(st.dims[1], n)))
            G = Fd((N, n), lambda i, j: Sc.app("g", i, j))
            fl = call("flatten_u", m.flatten_u, G)
            for j in range(n):
                CTX.prove_eq("stacked: node i, species %d of %d" % (j, n), st(i, j), u(i + N * j))
                CTX.prove_eq("flattened: species after species", fl(i + N * j), G(i, j))
                CTX.prove_eq("flatten(stack(u)) = u", m.flatten_u(st)(i + N * j), u(i + N * j))
                CTX.prove_eq("stack(flatten(U)) = U", m.stack_u(fl, n)(i, j), G(i, j))
        CTX.cover("layout")
    return fn


# ------------------------------------------------------------ transfer models
def models():
    W, m = world("species_source_sink")
    ua, ug = real("u_a"), real("u_g")
    k, kg, ka = real("k"), real("k_g"), real("k_a")
    a, ks = real("a"), real("k_s")
    got = call("mxf_liq_vapor_lin", m.mxf_liq_vapor_lin, ua, ug, k, kg, ka, a)
    CTX.prove_eq("linear transfer: k a (k_g u_g - k_a u_a)", got, k * a * (kg * ug - ka * ua))
    CTX.prove_eq("defaults", m.mxf_liq_vapor_lin(ua, ug), Sc.lit("0.01") * (ug - ua))
    ks = pos("k_s")
    got = call("mxf_liq_vapor_nonlin", m.mxf_liq_vapor_nonlin, ua, ug, k, kg, ka, ks)
    CTX.prove_eq("nonlinear transfer: k (max(u_g, 1e-16)^(2/3) + k_s) (k_g u_g - k_a u_a)", got, ref_nonlin(ua, ug, k, kg, ka, ks))
    al = real("alpha_s")
    got = call("mxf_diffusion_sorption", m.mxf_diffusion_sorption, ua, ug, pos("alpha_s"), k, a)
    CTX.prove_eq("sorption: -k a (u_a - u_s / alpha_s)", got, -k * a * (ua - ug / pos("alpha_s")))
    CTX.cover("models")


def arrhenius(case):
    def fn():
        W, m = world("species_source_sink")
        ua, ub, e, ap, T = (pos if case == "real" else real)("u_a"), (pos if case == "real" else real)("u_b"), real("e"), real("apre"), pos("T")
        if case == "default":
            got = call("mxf_arrhenius", m.mxf_arrhenius, ua, ub, e, ap)
            ma, mb, T = Sc.of(1), Sc.of(1), Sc.of(900)
        else:
            ma, mb = (Sc.of(2), Sc.of(3)) if case == "integers" else (real("m_a"), real("m_b"))
            got = call("mxf_arrhenius", m.mxf_arrhenius, ua, ub, e, ap, ma, mb, T)
        CTX.prove_eq("u_a^m_a u_b^m_b A exp(-e / (R T))", got, (ua ** ma) * (ub ** mb) * ap * exp_(-e / (Sc.lit("8.3145") * T)))
        CTX.cover("models")
    return fn


def area(u_g, cvol, al, nb, ak, T, P_):
    R = Sc.lit("8.3145")
    vol = (cvol * al + ak * (cvol * u_g / (P_ * Sc.lit("1e-6"))) * R * T) / nb
    r = (Sc.of(3) / 4 * vol / terms.PI_) ** (Sc.of(1) / 3)
    return nb * 4 * terms.PI_ * r * r


def bubble(default):
    def fn():
        W, m = world("species_source_sink")
        ua, ug, cvol = pos("u_a"), pos("u_g"), pos("cvol")
        if default:
            al, nb, T, k, h, ak, P_ = Sc.lit("0.01"), Sc.of(10), Sc.of(900), Sc.lit("0.01"), Sc.lit("1e-4"), Sc.lit("0.1"), Sc.of(101300)
            ar = call("bubble_surface_area", m.bubble_surface_area, ug, cvol)
            rt = call("mxf_liq_vapor_bubble_ig", m.mxf_liq_vapor_bubble_ig, ua, ug, cvol)
        else:
            al, nb, T, k, h, ak, P_ = [pos(x) for x in ("alpha_g", "nb", "T", "k", "h", "a_k", "P")]
            ar = call("bubble_surface_area", m.bubble_surface_area, ug, cvol, alpha_g=al, nb=nb, a_k=ak, T=T, P=P_)
            rt = call("mxf_liq_vapor_bubble_ig", m.mxf_liq_vapor_bubble_ig, ua, ug, cvol, alpha_g=al, k=k, h=h, nb=nb, T=T)
        CTX.prove_eq("surface of nb bubbles of the carrier and species volume", ar, area(ug, cvol, al, nb, ak, T, P_))
        A = area(ug, cvol, al, nb, Sc.lit("0.1"), T, Sc.of(101300))
        CTX.prove_eq("k a_b (u_g h R T / alpha_g - u_a / (1 - alpha_g))", rt,
                     k * A * (ug / al * h * Sc.lit("8.3145") * T - ua / (1 - al)))
        CTX.cover("models")
    return fn


def equilibrium():
    """zero at phase equilibrium, sign of the driving difference"""
    W, m = world("species_source_sink")
    ug, k, kg, ka, a, ks = real("u_g"), pos("k"), pos("k_g"), pos("k_a"), pos("a"), pos("k_s")
    ua = kg * ug / ka
    CTX.prove_eq("linear model at equilibrium", m.mxf_liq_vapor_lin(ua, ug, k, kg, ka, a), Sc.of(0))
    CTX.prove_eq("nonlinear model at equilibrium", m.mxf_liq_vapor_nonlin(ua, ug, k, kg, ka, ks), Sc.of(0))
    al = pos("alpha")
    CTX.assume(cmp_("<", al, 1))
    CTX.prove_eq("sorption at equilibrium", m.mxf_diffusion_sorption(ug / al, ug, al, k, a), Sc.of(0))
    gp, h, T = pos("u_g+"), pos("h"), pos("T")
    CTX.prove_eq("bubble model at equilibrium", m.mxf_liq_vapor_bubble_ig(gp / al * h * Sc.lit("8.3145") * T * (1 - al), gp, pos("cvol"), al, k, h, pos("nb"), T), Sc.of(0))
    CTX.cover("models")


def signs():
    W, m = world("species_source_sink")
    ua, ug = real("u_a"), real("u_g")
    k, kg, ka, ks = pos("k"), pos("k_g"), pos("k_a"), pos("k_s")
    got = m.mxf_liq_vapor_nonlin(ua, ug, k, kg, ka, ks)
    w = k * (max_(Sc.of(ug), Sc.lit("1e-16")) ** (Sc.of(2) / 3) + ks)
    CTX.prove_eq("the nonlinear rate is a coefficient times the driving difference", got, w * (kg * ug - ka * ua))
    CTX.prove("and the coefficient is positive", cmp_("<", 0, w))
    CTX.cover("models")


# ------------------------------------------------------------ well-mixed tank
def tank(j):
    def fn():
        W, m = world("bateman_nonlin_sys")
        vol, phi = pos("tank_vol"), real("n_phi")
        s = call("NonlinearBateman.__init__", m.NonlinearBateman, n_phi=phi, tank_vol=vol)
        n = 9
        u = lin.evec("u", n)
        for x in u:
            CTX.assume(cmp_("<", 0, Sc.of(x)))
        got = call("NonlinearBateman.frhs", s.frhs, real("t"), u)
        a, g = m.keymap.index("xe_135_a"), m.keymap.index("xe_135_v")
        bat, tr, fis = as_fd(m.bateman_mat), as_fd(m.transmute_mat), as_fd(m.fission_mat)
        al = Sc.lit("0.05")
        A = area(u[g], vol, al, Sc.of(10), Sc.lit("0.1"), Sc.of(900), Sc.of(101300))
        t = Sc.lit("0.01") * A * (u[g] / al * Sc.lit("1e-4") * Sc.lit("8.3145") * 900 - u[a] / (1 - al))
        want = sum((bat(j, l) * u[l] for l in range(n)), Sc.of(0)) + phi * sum((tr(j, l) * u[l] for l in range(n)), Sc.of(0)) + phi * fis(j, j)
        want = want + (t if j == a else -t if j == g else 0)
        CTX.prove_eq("species %d: decay + transmutation + fission + transfer with the tank's own volume" % j, Sc.of(got[j]), want)
        CTX.cover("tank")
    return fn


def tasks():
    T = []
    for mn, n in (("rad_1d_2s", 2), ("rad_1d_3s", 3), ("rad_1d_9s", 9)):
        for j in range(n):
            T.append(Task("rhs-%s-%d" % (mn, j), rhs(mn, n, j, True), [mn + ".RAD_SEM._frhs", "ode_sys.OdeSys.frhs"], covers=["Dirichlet", "interior"], weight=2))
            T.append(Task("rhs-%s-%d-periodic" % (mn, j), rhs(mn, n, j, False), [mn + ".RAD_SEM._frhs"], covers=["interior"], weight=2))
            T.append(Task("linear-%s-%d" % (mn, j), linear_part(mn, n, j), [mn + ".RAD_SEM._fl"], covers=["linear part"]))
        for meth, pairs in PAIRS.get(mn, ()):
            T.append(Task("transfer-%s-%s" % (mn, meth), transfer(mn, n, meth, pairs), [mn + ".RAD_SEM." + meth], covers=["transfer"]))
    for mn in ("ode_utils", "rad_1d_2s"):
        T.append(Task("layout-" + mn, layout(mn), [mn + ".stack_u", mn + ".flatten_u"], covers=["layout"]))
    fs = ["species_source_sink." + f for f in ("mxf_liq_vapor_lin", "mxf_liq_vapor_nonlin", "mxf_diffusion_sorption")]
    T.append(Task("models", models, fs, covers=["models"]))
    for c in ("default", "integers", "real"):
        T.append(Task("arrhenius-" + c, arrhenius(c), ["species_source_sink.mxf_arrhenius"], covers=["models"]))
    for d in (True, False):
        T.append(Task("bubble-%s" % d, bubble(d), ["species_source_sink.mxf_liq_vapor_bubble_ig", "species_source_sink.bubble_surface_area"], covers=["models"]))
    T.append(Task("equilibrium", equilibrium, fs, covers=["models"]))
    T.append(Task("signs", signs, fs, covers=["models"]))
    for j in range(9):
        T.append(Task("tank-%d" % j, tank(j), ["bateman_nonlin_sys.NonlinearBateman._frhs", "bateman_nonlin_sys.srcf_xe_av"], covers=["tank"]))
    return T
