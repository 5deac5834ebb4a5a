"""Validated bounds for rational functions in partial fraction form on the whole negative real axis.

A table (poles p_i, weights w_i, constant c0), each number taken exactly as the double it is, stands for
    r(z) = c0 + sum_i Re(2 w_i / (z - p_i)).
`sup_error` bounds |r_k - phi_k| on (-oo, 0] by outward rounded interval Taylor expansions (mpmath.iv) on a geometric
cover of [-L, 0] and by a direct tail bound on (-oo, -L]; `pade_sup` bounds the distance to a Pade approximant by exact
rational arithmetic and the signs of the coefficients of a polynomial (a certificate valid for every z <= 0).
"""
from fractions import Fraction as F
import math
from mpmath import iv

iv.dps = 70


def fr(x):
    return F(*float(x).as_integer_ratio())


class Table:
    def __init__(self, ps, ws, c0):
        self.p = [(fr(complex(a).real), fr(complex(a).imag)) for a in ps]
        self.w = [(fr(complex(a).real), fr(complex(a).imag)) for a in ws]
        if len(self.p) != len(self.w):
            raise ValueError("%d poles, %d weights" % (len(self.p), len(self.w)))
        self.c0 = fr(complex(c0).real)

    def poles_off_axis(self):
        return [q for q in self.p if not (q[1] != 0 or q[0] > 0)]

    def taylor(self, order):
        """exact Taylor coefficients of r at the origin"""
        out = [self.c0 if j == 0 else F(0) for j in range(order + 1)]
        for (a, b), (c, d) in zip(self.p, self.w):
            n2 = a * a + b * b
            ir, ii = a / n2, -b / n2
            vr, vi = c, d
            for j in range(order + 1):
                vr, vi = vr * ir - vi * ii, vr * ii + vi * ir
                out[j] -= 2 * vr
        return out

    def quotient(self):
        """(N, D): exact coefficients (ascending) with r = N / D, D(0) > 0 when the poles are off the negative axis"""
        dens, nums = [], []
        for (a, b), (c, d) in zip(self.p, self.w):
            if b == 0:
                dens.append([-a, F(1)])
                nums.append([2 * c])
            else:
                # 2 Re (c + i d) / (z - a - i b) = 2 (c (z - a) - d b) / ((z - a)^2 + b^2)
                dens.append([a * a + b * b, -2 * a, F(1)])
                nums.append([2 * (-c * a - d * b), 2 * c])
        D = [F(1)]
        for d in dens:
            D = pmul(D, d)
        N = [self.c0 * x for x in D]
        for i, nm in enumerate(nums):
            t = nm
            for j, d in enumerate(dens):
                if j != i:
                    t = pmul(t, d)
            N = padd(N, t)
        return N, D


def pmul(a, b):
    out = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def padd(a, b, s=1):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else 0) + s * (b[i] if i < len(b) else 0) for i in range(n)]


def at_minus(p):
    """coefficients in x = -z"""
    return [c if i % 2 == 0 else -c for i, c in enumerate(p)]


def positive_on_ray(c):
    """is the polynomial with ascending coefficients c positive for every x >= 0?  (True / False / None)"""
    c = list(c)
    while c and c[-1] == 0:
        c.pop()
    if not c:
        return False
    if c[0] <= 0 or c[-1] <= 0:
        return False
    if all(x >= 0 for x in c):
        return True
    return sturm_roots(c) == 0


def sturm_roots(c):
    """number of distinct roots in (0, oo); c(0) != 0"""
    seq = [c, [i * x for i, x in enumerate(c)][1:]]
    while True:
        a, b = list(seq[-2]), seq[-1]
        while len(a) >= len(b):
            q = a[-1] / b[-1]
            for i in range(1, len(b) + 1):
                a[-i] -= q * b[-i]
            a.pop()
        while a and a[-1] == 0:
            a.pop()
        if not a:
            break
        m = max(abs(x) for x in a)
        seq.append([-x / m for x in a])

    def changes(v):
        v = [x for x in v if x != 0]
        return sum(1 for x, y in zip(v, v[1:]) if (x > 0) != (y > 0))
    return changes([s[0] for s in seq]) - changes([s[-1] for s in seq])


def pade(a, b):
    f = math.factorial
    P = [F(f(a + b - j) * f(a), f(a + b) * f(j) * f(a - j)) for j in range(a + 1)]
    Q = [(-1) ** j * F(f(a + b - j) * f(b), f(a + b) * f(j) * f(b - j)) for j in range(b + 1)]
    return P, Q


def within_of_quotient(tab, P, Q, eps):
    """|r - P/Q| <= eps for every z <= 0?  Q must be positive there"""
    N, D = tab.quotient()
    if D[0] < 0:
        N, D = [-x for x in N], [-x for x in D]
    d, q = at_minus(D), at_minus(Q)
    if positive_on_ray(d) is not True or positive_on_ray(q) is not True:
        return None
    e = at_minus(padd(pmul(N, Q), pmul(P, D), -1))
    if all(x == 0 for x in e):
        return True
    S = [F(eps) * x for x in pmul(d, q)]
    return positive_on_ray(padd(S, e)) and positive_on_ray(padd(S, e, -1))


# ------------------------------------------------------------ Taylor models
def ivf(x):
    return iv.mpf(x.numerator) / iv.mpf(x.denominator)


def phi_taylor(k, m, deg):
    """enclosures of the Taylor coefficients of phi_k at m <= 0"""
    if abs(m) < 4 and k:
        # phi_k(z) = sum z^i / (i + k)!
        out = []
        for j in range(deg + 1):
            s, t = iv.mpf(0), iv.mpf(1)
            for i in range(j, 140):
                s += iv.mpf(math.comb(i, j)) * t / math.factorial(i + k)
                t *= m
            # tail: binom(i, j) 4^(i-j) / (i + k)! is below 1e-80 from i = 140 on (j <= 40)
            out.append(s + iv.mpf([-1, 1]) * iv.mpf(10) ** -60)
        return out
    e = iv.exp(m)
    a = [e / math.factorial(j) for j in range(deg + 1)]
    for l in range(k):
        # z phi_{l+1} = phi_l - 1/l!:  m b_j + b_{j-1} = a_j - [j = 0]/l!
        b, prev = [], iv.mpf(0)
        for j in range(deg + 1):
            prev = ((a[j] - (iv.mpf(1) / math.factorial(l) if j == 0 else 0)) - prev) / m
            b.append(prev)
        a = b
    return a


def bernstein_range(co, w):
    """(upper bound of |p|, lower bound of |p| at the start) for p(t) = sum co_j t^j, t between 0 and w"""
    n = len(co) - 1
    a, t = [], iv.mpf(1)
    for c in co:
        a.append(c * t)
        t *= w
    a = [x / math.comb(n, j) for j, x in enumerate(a)]
    # b_i = sum_j C(i, j) a_j by repeated sums
    hi = iv.mpf(0)
    row = list(a)
    for i in range(n + 1):
        hi = iv.mpf(max(hi.b, abs(row[0]).b))
        row = [row[j] + row[j + 1] for j in range(len(row) - 1)]
    return hi, abs(co[0])


def pole_terms(P, Wt, m, deg, width):
    """Taylor coefficients of sum Re(2 w / (z - p)) at m and a bound of the remainder on [m - width, m]"""
    co = [iv.mpf(0)] * (deg + 1)
    rem = iv.mpf(0)
    for (a, b), (c, d) in zip(P, Wt):
        dr, di = m - a, -b
        n2 = dr * dr + di * di
        ir, ii = dr / n2, -di / n2
        vr, vi = 2 * (c * ir - d * ii), 2 * (c * ii + d * ir)
        for j in range(deg + 1):
            co[j] += vr
            vr, vi = vi * ii - vr * ir, -(vr * ii + vi * ir)
        q = width / iv.sqrt(n2)
        if not (q.b < 1):
            raise ValueError("interval too wide")
        rem += 2 * iv.sqrt(c * c + d * d) / iv.sqrt(n2) * q ** (deg + 1) / (1 - q)
    return co, rem


def sup_error(tab, k, deg=24, split=8):
    """(upper bound, enclosed lower bound, intervals) of sup |r_k - phi_k| over z <= 0,
    with r_k = sum Re(2 w p^-k / (z - p)) (+ c0 if k = 0)"""
    P = [(ivf(a), ivf(b)) for a, b in tab.p]
    Wt = []
    for (a, b), (c, d) in zip(tab.p, tab.w):
        for _ in range(k):
            n2 = a * a + b * b
            c, d = (c * a + d * b) / n2, (d * a - c * b) / n2
        Wt.append((ivf(c), ivf(d)))
    c0 = ivf(tab.c0) if k == 0 else iv.mpf(0)
    big = max([math.hypot(float(a), float(b)) for a, b in tab.p] + [1.0])
    L = max(16 * big, 100.0)
    hi, lo = iv.mpf(0), iv.mpf(0)
    right, count = F(0), 0
    while right > -L:
        dist = min([math.hypot(float(a) - float(right), float(b)) for a, b in tab.p] + [16.0])
        width = F(max(min(dist / split, 2.0), 1e-4))
        m, w = ivf(right), ivf(width)
        co, rem = pole_terms(P, Wt, m, deg, w)
        co[0] += c0
        co = [x - y for x, y in zip(co, phi_taylor(k, m, deg))]
        rem += w ** (deg + 1) / math.factorial(deg + 1) * dphi_bound(k, deg + 1, m)
        s, c = bernstein_range(co, -w)
        s += rem
        hi = iv.mpf(max(hi.b, s.b))
        lo = iv.mpf(max(lo.b, c.a))
        right -= width
        count += 1
        if count > 5000:
            raise ValueError("too many intervals")
    # z <= right: s = 1/z in [1/right, 0),  w / (z - p) = sum_j w p^j s^(j+1)
    m = ivf(right)
    q = iv.mpf(0)
    co = [iv.mpf(0)] * (deg + 1)
    rem = iv.mpf(0)
    co[0] += c0
    for (a, b), (c, d) in zip(P, Wt):
        vr, vi = 2 * c, 2 * d
        for j in range(1, deg + 1):
            co[j] += vr
            vr, vi = vr * a - vi * b, vr * b + vi * a
        q = iv.sqrt(a * a + b * b) / -m
        rem += iv.sqrt(vr * vr + vi * vi) / (-m) ** (deg + 1) / (1 - q)
    # phi_k = poly_k(s) + s^k e^z, phi_(l+1) = s (phi_l - 1/l!)
    poly = [iv.mpf(0)]
    for l in range(k):
        poly = [poly[0] - iv.mpf(1) / math.factorial(l)] + poly[1:]
        poly = [iv.mpf(0)] + poly
    for j, x in enumerate(poly):
        co[j] -= x
    rem += iv.exp(m)
    s, c = bernstein_range(co, 1 / m)
    hi = iv.mpf(max(hi.b, (s + rem).b))
    return float(hi.b) * (1 + 1e-15), float(lo.a), count + 1


def dphi_bound(k, n, right):
    """bound of |phi_k^(n)| on (-oo, right], right <= 0: e^right, or with
    phi_k^(n)(z) = int_0^1 (1-s)^n s^(k-1)/(k-1)! e^((1-s) z) ds the smaller of 1/((k-1)! (n+1)) and n!/((k-1)! |z|^(n+1))"""
    if k == 0:
        return iv.exp(right)
    a = iv.mpf(1) / (n + 1)
    if right.b < -1:
        b = math.factorial(n) / (-right) ** (n + 1)
        a = iv.mpf(min(a.b, b.b))
    return a / math.factorial(k - 1)
