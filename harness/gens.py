import os
"""Generators of calls: per property, (op, args) pairs drawn from VERIF_SEED."""
import math, random
from fractions import Fraction
import numpy as np
import planegeometry.geometry as g
from math import inf, pi
from enc import Ang, Sim, Mat, Omitted, of

GENS = {}
EXTREME = float(os.environ.get("EXTREME", "0.05"))      # rate of the figures much smaller, larger or flatter than the others
INFS = [inf, inf, -inf, np.float64(inf), complex(inf, 0), complex(2, -inf)]      # the point at infinity
PYTH = [(1, 0), (1, 0), (0, 1), (-1, 0), (3, 4), (4, -3), (-5, 12), (8, 15)]
RPTS = [(3, 4, 5), (4, 3, 5), (5, 12, 13), (8, 15, 17), (-3, 4, 5), (12, -5, 13), (0, 1, 1), (1, 0, 1), (-1, 0, 1), (0, -1, 1)]


def gen(p):
    def d(f):
        GENS[p] = f
        return f
    return d


class R(random.Random):
    def q(self, lo=-8, hi=8, den=4):
        return self.randint(lo * den, hi * den) / den

    def f(self, lo=-8.0, hi=8.0):
        return self.uniform(lo, hi)

    def x(self, lo=-8, hi=8):
        return self.choice([lambda: self.q(lo, hi), lambda: self.f(lo, hi), lambda: self.randint(lo, hi)])()

    def pos(self, lo=0.25, hi=8):
        return self.choice([lambda: max(lo, self.q(0, int(hi))), lambda: self.f(lo, hi), lambda: self.randint(1, int(hi))])()

    def fmt(self, p):
        k = self.randint(0, 3)
        return p if k == 0 else (list(p) if k == 1 else np.array(p, dtype=float) if k == 2 else np.array(p))

    def pt(self, lo=-8, hi=8):
        return self.fmt((self.x(lo, hi), self.x(lo, hi)))

    def near(self, lo=-3.3):
        """a small but clear relative difference"""
        return self.choice([1, -1]) * 10 ** self.uniform(lo, -0.7)

    def bl(self):
        return self.random() < 0.5

    def two(self):
        while True:
            a, b = self.pt(), self.pt()
            if self.random() < 0.06:        # close to each other
                t, d = self.uniform(0, 7), abs(self.near()) * (1 + max(abs(float(a[0])), abs(float(a[1]))))
                return a, self.fmt((float(a[0] + d * math.cos(t)), float(a[1] + d * math.sin(t))))
            if abs(a[0] - b[0]) + abs(a[1] - b[1]) > 0.2:
                return a, b

    def line(self):
        a, b = self.two()
        return g.Line(a, b, self.bl(), self.bl())

    def extreme(self):
        """a factor which is sometimes far from 1"""
        return self.choice([2.0 ** -8, 0.01, 0.1, 30, 100, 777.5]) if self.random() < EXTREME else 1

    def circle(self):
        if self.random() < EXTREME / 4:     # integers of numpy, whose squares overflow
            return g.Circle(self.pt(), np.int32(self.choice([50000, 70001, 3])))
        return g.Circle(self.pt(), self.pos() * self.extreme())

    def power(self):
        k = self.choice([self.q(), self.f(), self.choice([-1, 1, 4, 25, -9]), self.f(-40, 40)])
        return k if abs(k) > 0.05 else 2

    def inv(self):
        return g.Inversion(self.pt(), self.power())

    def angle(self):
        """(value, degrees)"""
        if self.bl():
            return self.choice([0, 30, 45, 60, 90, 120, 135, 150, 180, 210, 270, 300, 360, -45, -90, 400, -725, 1080, -3600, 86400,
                                self.f(-400, 400), self.q(-200, 200)]), True
        return self.choice([0, pi / 6, pi / 4, pi / 3, pi / 2, pi, 3 * pi / 2, 2 * pi, -pi / 3, 7.0, 100, -64.5, self.f(-8, 8)]), False

    def ell(self):
        b = self.pos(0.5, 5)
        a = b + self.pos(0.5, 4)
        al, dg = self.angle()
        if self.random() < EXTREME / 4:
            return g.Ellipse(self.pt(), np.int64(90000), np.int64(self.choice([60000, 80001])), al, dg)
        k, f = self.extreme(), self.choice([20, 100, 500]) if self.random() < EXTREME else 1
        return g.Ellipse(self.pt(), k * f * a, k * b, al, dg)

    def on_circle(self, c):
        x, y, z = self.choice(RPTS)
        return (c.center[0] + c.radius * x / z, c.center[1] + c.radius * y / z)

    def tri(self):
        while True:
            A, B, C = self.pt(), self.pt(), self.pt()
            d = (B[0] - A[0]) * (C[1] - A[1]) - (B[1] - A[1]) * (C[0] - A[0])
            m = max(math.dist(A, B), math.dist(A, C), math.dist(B, C))
            if abs(d) > 0.08 * m * m and min(math.dist(A, B), math.dist(A, C), math.dist(B, C)) > 0.2 * m:
                return g.Triangle(A, B, C)

    def sim(self):
        return Sim(self.choice(PYTH), Fraction(self.choice([1, 1, 2, Fraction(1, 2), Fraction(1, 4), 8])),
                   (self.randint(-6, 6), self.randint(-6, 6)), self.fmt)


@gen("P01")
def _(r, n):
    for _ in range(n):
        io = r.inv()
        k = r.randint(0, 9)
        if k == 0:
            M = r.choice(INFS)
        elif k == 1:
            M = r.fmt(tuple(float(x) for x in io.pole))
        elif k == 2:
            M = r.fmt((io.pole[0] + r.choice([0, 1, -2, 1000]), io.pole[1] + r.choice([1, -3, 500])))
        elif k == 3:   # close to the pole, but not too close to be told from it
            d = max(2e-6 * max(abs(io.pole[0]), abs(io.pole[1])), 3e-6) * 10 ** r.uniform(0, 4)
            a = r.uniform(-3.2, 3.2)
            M = r.fmt((io.pole[0] + d * math.cos(a), io.pole[1] + d * math.sin(a)))
        else:
            M = r.pt(*r.choice([(-8, 8), (-8, 8), (-1, 1), (-300, 300)]))
        yield "inv.pt", (io, M)


@gen("P02")
def _(r, n):
    for _ in range(n):
        io = r.inv()
        k = r.randint(0, 9)
        if r.bl():
            if k < 4:      # through the pole
                x, y, z = r.choice(RPTS)
                s = r.choice([1, 2, 0.5, 3]) 
                f = g.Circle((io.pole[0] + s * x, io.pole[1] + s * y), s * z)
            else:
                f = r.circle()
            yield r.choice(["inv.circle", "inv.gcircle"]), (io, f)
        else:
            if k < 2:
                dx, dy = r.choice([(1, 0), (0, 2), (3, -1), (2, 5)])
                s = r.choice([0, 1, -2])
                f = g.Line((io.pole[0] + s * dx, io.pole[1] + s * dy), (io.pole[0] + (s + 1) * dx, io.pole[1] + (s + 1) * dy), r.bl(), r.bl())
            else:
                f = r.line()
            yield r.choice(["inv.line", "inv.gcircle", "line.invert"]), (io, f)


def close_circles(r):
    """circles which are nearly concentric, of nearly the same radius, or nearly tangent"""
    a = r.circle()
    R, t = a.radius, r.uniform(0, 2 * pi)
    x, y = r.choice([(1, 0), (0, -1), (math.cos(t), math.sin(t))])
    q = r.choice([1, 1, 0.5, 3, 1 + r.near()])
    d = r.choice([lambda: abs(r.near()), lambda: abs(r.near()), lambda: (1 + q) * (1 + r.near()), lambda: abs(1 - q) * (1 + r.near()), lambda: r.f(0, 3)])() * R
    return a, g.Circle((float(a.center[0] + d * x), float(a.center[1] + d * y)), q * R)


def two_circles(r):
    k = r.randint(0, 12)
    if k == 12:
        return close_circles(r)
    if k >= 6:
        return r.circle(), r.circle()
    r1, r2 = r.choice([(1, 1), (5, 3), (2, 7), (13, 4), (4, 4), (10, 5)])
    x, y, z = r.choice(RPTS)
    s = r.choice([1, 2, 0.5])
    d = {0: r1 + r2, 1: abs(r1 - r2), 2: max(r1, r2), 3: r1 + r2 + 1, 4: abs(r1 - r2) / 2, 5: 0}[k]
    if r1 != r2 and k == 4:
        d = 0.5
    c = (r.randint(-5, 5), r.randint(-5, 5))
    z2 = z if (d / z) != int(d / z) else 1
    if z2 != 1:
        s = s * z                       # keep the configuration exact
        return g.Circle(c, r1 * s), g.Circle((c[0] + d * s / z * x, c[1] + d * s / z * y), r2 * s)
    return g.Circle(c, r1 * s), g.Circle((c[0] + d * s * x / z, c[1] + d * s * y / z), r2 * s)


@gen("P03")
def _(r, n):
    for _ in range(n):
        k = r.randint(0, 9)
        a, b = two_circles(r)
        if k < 4:
            yield "inv.swap", (a, b, r.bl())
        elif k < 7:
            yield "midc", (a, b)
        elif k == 7:
            yield "inv.fix2", (a, b)
        elif k == 8:
            yield "inv.fix3", (r.circle(), r.circle(), r.circle())
        else:
            yield "inv.oncircle", (r.circle(),)


# ---- Moebius maps
def gz(r, k=3):
    return complex(r.randint(-k, k), r.randint(-k, k))


def cz(r, k=3.0):
    return complex(r.uniform(-k, k), r.uniform(-k, k))


def mobius(r, exact=None):
    """an invertible matrix, well conditioned; exact: small Gaussian entries"""
    exact = r.random() < 0.6 if exact is None else exact
    while True:
        f = gz if exact else cz
        k = r.randint(0, 9)
        a, b, c, d = f(r), f(r), f(r), f(r)
        if k == 0:
            c = 0
        elif k == 1:
            d = 0
        elif k == 2:
            a = 0
        elif k == 3:
            b = 0
        elif k == 4:
            a, b, c, d = a.real, b.real, c.real, d.real
        elif k == 5 and r.bl():     # close to a similarity, to a translation, to an inversion
            e = r.near() * cz(r, 1.0)
            a, b, c, d = r.choice([(a, b, e, d), (a, b, e * a, a * (1 + e)), (e, b, c, d), (a, e, c, d), (a, b, c, e), (1, e, 0, 1 + e), (1, 0, e, 1)])
        m = max(abs(a), abs(b), abs(c), abs(d))
        if abs(a * d - b * c) > 0.05 * m * m and m > 0.3:
            if r.randint(0, 11) == 0:      # a multiple of the matrix is the same map
                s = 10 ** r.uniform(-6, 6) * complex(*r.choice([(1, 0), (-1, 0), (0, 1), (0.6, 0.8)]))
                a, b, c, d = a * s, b * s, c * s, d * s
            return g.Mobius(r.choice([lambda: [[a, b], [c, d]], lambda: np.array([[a, b], [c, d]]), lambda: ((a, b), (c, d))])())


def pole_of(m):
    return None if m.c == 0 else -m.d / m.c


def ext_pt(r, m=None):
    k = r.randint(0, 9)
    if k == 0:
        return r.choice(INFS)
    if k <= 2 and m is not None and m.c != 0:
        p = -m.d / m.c
        return r.fmt((p.real, p.imag))
    return r.pt(-6, 6)


@gen("P04")
def _(r, n):
    for _ in range(n):
        m = mobius(r)
        k = r.randint(0, 9)
        if k < 2:
            yield "mob.pt", (m, ext_pt(r, m))
        elif k < 4:
            yield "mob.comp", (m, mobius(r), r.bl(), ext_pt(r, m))
        elif k < 5:
            yield "mob.inv", (m, ext_pt(r, m))
        elif k < 7:
            yield "mob.pow", (m, r.choice([-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 2.0, -3.0]), ext_pt(r))
        elif k < 9:
            i, j = r.inv(), r.inv()
            if r.randint(0, 4) == 0:
                j = g.Inversion(i.pole, r.power())
            yield "inv.comp", (i, j, r.bl(), r.choice([r.choice(INFS), r.pt(), i.pole, j.pole]))
        else:                       # a chain: the results are the next arguments
            P = r.pt()
            for _ in range(4):
                q = r.choice([lambda: m.compose(mobius(r), r.bl()), lambda: m.inverse(), lambda: m.power(r.choice([-1, 2]))])()
                yield "mob.comp", (m, q, r.bl(), P)
                m = q
                if max(abs(x) for x in np.asarray(m.M).ravel()) > 1e4:
                    break
                P = m.transform(P)


def through(r, p, d):
    """a circle or a line through the (exact) point p"""
    if r.bl():
        x, y, z = r.choice(RPTS)
        s = r.choice([1, 2, 0.5, 3])
        return g.Circle((p[0] + s * x, p[1] + s * y), s * z)
    dx, dy = r.choice([(1, 0), (0, 2), (3, -1), (2, 5), (-1, 1)])
    s = r.choice([0, 1, -2, -1])
    return g.Line((p[0] + s * dx, p[1] + s * dy), (p[0] + (s + 1) * dx, p[1] + (s + 1) * dy), r.bl(), r.bl())


@gen("P05")
def _(r, n):
    for _ in range(n):
        k = r.randint(0, 9)
        if k == 9:                  # the pole at a chosen angle of the circle
            f = g.Circle(r.choice([(0, 0), (1, -2), (0.5, 3), (-4, 0)]), r.choice([1, 2, 0.5, 3, 4]))
            t = r.choice([0, 0, 0.1, 3, 3, 3.1, math.pi, math.pi / 2, math.pi / 3, 6, r.uniform(-4, 4)])
            p = complex(*f.point_from_angle(t, degrees=False))
            c = r.choice([1, 1, 1j, 2, -1, -2j])
            m = g.Mobius([[gz(r), gz(r)], [c, -c * p]])
            if abs(m.a * m.d - m.b * m.c) < 0.5:
                continue
            if r.randint(0, 3) == 0:
                f = g.Line((p.real, p.imag), r.pt())
        elif k < 3:                 # a dyadic pole, figures through it
            while True:
                c = r.choice([1, 1j, 1 + 1j, 2, -1, 2j])
                m = g.Mobius([[gz(r), gz(r)], [c, gz(r)]])
                if abs(m.a * m.d - m.b * m.c) > 0.5:
                    break
            p = -m.d / m.c
            f = through(r, (p.real, p.imag), 1)
        elif k == 3:                # centred at the pole
            m = mobius(r, True)
            if m.c == 0:
                continue
            p = -m.d / m.c
            f = g.Circle((p.real, p.imag), r.pos())
        else:
            m = mobius(r)
            f = r.circle() if r.bl() else r.line()
        yield ("mob.circle" if isinstance(f, g.Circle) else "mob.line"), (m, f)
        if r.randint(0, 3) == 0:    # a chain
            for _ in range(2):
                try:
                    f = m.transform_circle(f) if isinstance(f, g.Circle) else m.transform_line(f)
                except Exception:
                    break
                if not all(abs(x) < 100 for x in (list(f.center) + [f.radius, 1 / f.radius] if isinstance(f, g.Circle) else list(f.A) + list(f.B))):
                    break
                m = mobius(r)
                yield ("mob.circle" if isinstance(f, g.Circle) else "mob.line"), (m, f)


def three(r):
    ps = [r.pt(-5, 5) for _ in range(3)]
    k = r.randint(0, 5)
    if k < 3:
        ps[k] = r.choice(INFS)
    elif k == 3 and r.bl():
        i, j = r.sample(range(3), 2)
        ps[i] = r.fmt((float(ps[j][0] + r.near()), float(ps[j][1] + r.choice([0, r.near()]))))
    return ps


@gen("P06")
def _(r, n):
    for _ in range(n):
        k = r.randint(0, 9)
        if k < 3:
            yield "mob.3pts", tuple(three(r) + three(r))
        elif k == 3:
            # circles of very different sizes
            k = r.choice([1, 1, 2.0 ** -9, 0.01, 100, 777.5])
            c = r.circle()
            yield "mob.circ", r.sample([g.Circle(c.center, c.radius * k) if r.bl() else g.Circle(np.multiply(c.center, k), c.radius * k), r.circle()], 2)
        elif k < 6:
            j = r.randint(0, 7)
            if j < 3:
                m = mobius(r)
            elif j == 3:            # near a scalar matrix, or a similarity with a large translation
                e = 10.0 ** r.uniform(-6, -1)
                z = lambda: complex(r.f(-1, 1), r.choice([0, r.f(-1, 1)]))
                m = r.choice([lambda: g.Mobius(np.eye(2) + e * np.array([[z(), z()], [z(), z()]])),
                              lambda: g.Mobius(np.array([[1 + e * z(), 0], [0, 1]])),
                              lambda: g.Mobius(np.array([[1 + r.choice([1, e, 0.1]) * z(), z() / e], [0, 1]]))])()
            else:                   # parabolic or scalar: alpha I + nilpotent
                al = r.choice([1, -1, 2, 1j, 1 + 1j, -3, 2 - 1j])
                N = r.choice([[[0, 1], [0, 0]], [[0, 0], [1, 0]], [[0, 2j], [0, 0]], [[0, 0], [0, 0]], [[1, -1], [1, -1]],
                              [[1j, 1], [1, -1j]], [[2, 4], [-1, -2]]])
                m = g.Mobius(np.array(N) * r.choice([1, 1, 2.0 ** -8, 2.0 ** -12, 64]) + al * np.eye(2))
            q = r.randint(1, 4)
            yield "mob.gpow", (m, r.randint(-4, 4), q, r.choice([0.5, -0.5, 1, 2, -1.25, 0.75, r.uniform(-2, 2)]))
        elif k < 8:
            j = r.randint(0, 5)
            if j < 3:
                m = mobius(r)
            elif j == 3:            # a fixed point far away, close fixed points
                e = 10.0 ** -r.randint(2, 17)
                z = lambda: complex(r.f(-3, 3), r.choice([0, r.f(-3, 3)]))
                a, d = 2 + z(), z()
                m = r.choice([lambda: g.Mobius([[a, z()], [e * z(), d]]), lambda: g.Mobius([[a, e], [z(), d]]),
                              lambda: g.Mobius([[a, z()], [0, a * (1 + e)]]), lambda: g.Mobius([[a, e], [e * z(), a]]),
                              lambda: g.Mobius([[3 + e, -1], [1, 1]])])()
            else:
                m = g.Mobius(r.choice([[[2, 0], [0, 2]], [[1, 3], [0, 1]], [[3, -1], [1, 1]], [[1, 0], [1, 1]], [[1j, 0], [0, 1j]],
                                       [[2, 1 + 1j], [0, 1]], [[2, 1j], [1j, 0]], [[0, 1], [1, 0]]]))
            yield "mob.fixed", (m,)
        elif k == 8:
            if r.bl():
                c = r.circle()
                yield "cross", tuple(r.on_circle(c) for _ in range(4))
            else:
                yield "cross", tuple(r.pt() for _ in range(4))
        else:
            yield "cross.mob", tuple([mobius(r)] + [r.pt() for _ in range(4)])


# ---- affine maps and the named transformations
def affine(r, sing=True):
    while True:
        k = r.randint(0, 9)
        if k == 0 and sing:
            a, b, s = r.randint(-4, 4), r.randint(-4, 4), r.choice([2, 3, -1, 0, 5, 7])
            A = [[a, b], [s * a, s * b]] if r.bl() else [[a, s * a], [b, s * b]]
        elif k < 4:
            A = [[r.randint(-4, 4), r.randint(-4, 4)], [r.randint(-4, 4), r.randint(-4, 4)]]
        elif k == 4:
            A = r.choice([[[2, 0], [0, 2]], [[0, -1], [1, 0]], [[3, 0], [0, -1]], [[1, 0], [0, 1]], [[0, 2], [-1, 0]], [[-2.5, 0], [0, -2.5]]])
        else:
            A = [[r.x(-3, 3), r.x(-3, 3)], [r.x(-3, 3), r.x(-3, 3)]]
        d = A[0][0] * A[1][1] - A[0][1] * A[1][0]
        m = max(abs(x) for q in A for x in q)
        if (d == 0 and sing) or abs(d) > 0.02 * m * m:
            return g.Affine(A if r.bl() else np.array(A), r.pt(-5, 5))


def rows(r):
    n = r.randint(1, 5)
    M = [[r.x(), r.x()] for _ in range(n)]
    return r.choice([lambda: np.array(M), lambda: np.array(M), lambda: M, lambda: [tuple(x) for x in M]])()


def ellipse_any(r):
    k = r.randint(0, 9)
    if k < 2:
        return r.circle()
    e = r.ell()
    if k == 2:
        e = g.Ellipse(e.center, e.rmajor, e.rmajor, e.alpha, e.degrees)
    if k == 3:
        e = g.Ellipse(e.center, e.rmajor, e.rminor, r.choice([0, 90, 45, 180, 135, -90, 270]), True)
    if k == 4:
        e = g.Ellipse(e.center, e.rmajor, e.rminor, r.choice([0, pi / 2, pi / 4, pi, 3 * pi / 4]), False)
    return e


@gen("P07")
def _(r, n):
    for _ in range(n):
        k = r.randint(0, 9)
        if k < 2:
            yield "aff.app", (affine(r), r.pt(), np.array(rows(r)))
        elif k < 4:
            f = affine(r)
            yield "aff.comp", (f, affine(r), r.bl())
        elif k < 5:
            yield "aff.inv", (affine(r),)
        elif k < 7:
            def t3():
                if r.randint(0, 5):
                    t = r.tri()
                    return [r.fmt(tuple(float(x) for x in P)) for P in (t.A, t.B, t.C)]
                a, d, s = (r.randint(-5, 5), r.randint(-5, 5)), r.choice([(1, 0), (0, 1), (2, -1), (1, 3)]), r.sample([-2, 1, 2, 3], 2)
                return [a] + [(a[0] + x * d[0], a[1] + x * d[1]) for x in s]
            yield "aff.3pts", tuple(t3() + t3())
        elif k < 8:
            yield "aff.ell2", (ellipse_any(r), ellipse_any(r))
        elif k < 9:
            yield "aff.line", (affine(r), r.line(), "transform_line")
        else:                     # a chain
            f = affine(r, False)
            for _ in range(3):
                h = r.choice([lambda: f.inverse(), lambda: f.compose(affine(r, False), r.bl())])()
                if h is None or abs(h.A).max() > 500 or abs(np.linalg.det(h.A)) < 0.01:
                    break
                yield "aff.comp", (f, h, r.bl())
                yield "aff.app", (h, r.pt(), np.array(rows(r)))
                f = h


def factor(r):
    return r.choice([2, -1, 0.5, 1, 0, -2.5, 3, r.x(-4, 4)])


def direction(r):
    return r.choice([(1, 0), (0, 1), (-1, 0), (0, -2), (1, 1), (3, -4), (-5, 12), (0.5, 2)]) if r.bl() else (r.f(), r.f(1, 8))


def named(r, k=None):
    k = r.randint(0, 6) if k is None else k
    if k == 0:
        return g.Reflection(r.line())
    if k == 1:
        D = r.line()
        return g.Projection(D, None if r.bl() else r.line())
    if k == 2:
        return g.Rotation(r.pt(), *r.angle())
    if k == 3:
        return g.Homothety(r.pt(), factor(r))
    if k == 4:
        return g.Scaling(r.pt(), r.fmt(direction(r)), factor(r))
    if k == 5:
        return g.ScalingXY(r.pt(), factor(r), factor(r))
    if r.bl():
        return g.Shear(r.pt(), r.fmt(direction(r)), r.pos(), r.choice([0, 30, 45, -60, 80, r.f(-85, 85)]), True)
    return g.Shear(r.pt(), r.fmt(direction(r)), r.pos(), r.choice([0, pi / 6, -pi / 4, pi / 3, r.f(-1.4, 1.4)]), False)


@gen("P08")
def _(r, n):
    for _ in range(n):
        f = named(r)
        P = r.pt()
        if isinstance(f, (g.Reflection, g.Projection)):
            if r.randint(0, 3) == 0:     # a point of the line
                L = f.line if isinstance(f, g.Reflection) else f.D
                s = r.choice([0, 1, 2, -1, 0.5])
                P = r.fmt(tuple(float(x) for x in L.A + s * (L.B - L.A)))
            yield "map.law", (f, P, None)
        else:
            if r.randint(0, 5) == 0 and hasattr(f, "center"):
                P = r.fmt(tuple(float(x) for x in f.center))
            yield "map.law", (f, P, rows(r))


def fig_call(r):
    k = r.randint(0, 9)
    if k < 3:
        f = affine(r, r.randint(0, 9) == 0)
        return f, ellipse_any(r), "transform_ellipse"
    if k == 3:
        return affine(r), r.line(), "transform_line"
    if k < 7:
        f = named(r, 2)
        j = r.randint(0, 2)
        if j == 0:
            return f, r.circle(), r.choice(["rotate_circle", "transform_circle"])
        if j == 1:
            e = ellipse_any(r)
            while isinstance(e, g.Circle):
                e = ellipse_any(r)
            return f, e, r.choice(["rotate_ellipse", "transform_ellipse"])
        return f, r.line(), r.choice(["rotate_line", "transform_line"])
    if k == 7:
        f = named(r, 0)
        return r.choice([(f, r.circle(), "reflect_circle"), (f, r.circle(), "transform_circle"),
                         (f, r.line(), "reflect_line"), (f, r.line(), "transform_line")])
    if k == 8:
        return named(r, 3), r.circle(), "transform_circle"
    return named(r, 4), r.circle(), "scale_circle"


@gen("P09")
def _(r, n):
    for _ in range(n):
        k = r.randint(0, 9)
        if k == 0:
            yield "circ.ell", (r.circle(),)
            continue
        f, x, m = fig_call(r)
        yield "fig", (f, x, m)
        if k < 4:                        # repeated application
            for _ in range(2):
                try:
                    x = getattr(f, m)(x)
                except Exception:
                    break
                if isinstance(x, g.Ellipse):
                    if m == "scale_circle" or not (0.05 < x.rminor and x.rmajor < 200 and abs(x.center).max() < 500):
                        break
                    if r.bl():
                        f, m = (affine(r, False), "transform_ellipse") if r.bl() else (named(r, 2), "rotate_ellipse")
                elif isinstance(x, g.Circle):
                    if not (0.05 < x.radius < 200):
                        break
                    f, m = r.choice([(named(r, 2), "rotate_circle"), (named(r, 0), "reflect_circle"), (named(r, 3), "transform_circle"),
                                     (affine(r, False), "transform_ellipse"), (named(r, 4), "scale_circle")])
                elif isinstance(x, g.Line):
                    if max(abs(x.A).max(), abs(x.B).max()) > 500 or abs(x.A - x.B).max() < 0.05:
                        break
                    f, m = r.choice([(named(r, 2), "rotate_line"), (named(r, 0), "reflect_line"), (affine(r, False), "transform_line")])
                else:
                    break
                yield "fig", (f, x, m)


# ---- lines
DIRS = [(1, 0), (0, 1), (-1, 0), (0, -2), (1, 1), (2, -1), (-1, 3), (3, 4), (-4, 3), (0.5, 0.25)]


def eline(r, A=None, d=None):
    """a line with exactly represented data, any extents"""
    A = A or (r.randint(-6, 6), r.randint(-6, 6))
    d = d or r.choice(DIRS)
    s = r.choice([1, 1, 2, -1, 0.5])
    return g.Line(r.fmt((A[0], A[1])), r.fmt((A[0] + s * d[0], A[1] + s * d[1])), r.bl(), r.bl())


def related(r, l):
    """a line in a special position relative to l"""
    k = r.randint(0, 10)
    A, d = [float(x) for x in l.A], [float(x) for x in (l.B - l.A)]
    s, t = r.sample([-2, -1, 0, 1, 2, 0.5, 3, -8], 2)
    if k < 2:       # the same line
        P, Q = (A[0] + s * d[0], A[1] + s * d[1]), (A[0] + t * d[0], A[1] + t * d[1])
    elif k < 4:     # parallel
        o = r.choice([(0, 1), (1, 0), (3, -2), (-d[1], d[0]), (-2 * A[0], -2 * A[1]), (0.5, 0.5)])
        P, Q = (A[0] + o[0] + s * d[0], A[1] + o[1] + s * d[1]), (A[0] + o[0] + t * d[0], A[1] + o[1] + t * d[1])
    elif k < 6:     # perpendicular
        o = (r.randint(-4, 4), r.randint(-4, 4))
        P, Q = o, (o[0] - t * d[1] if t else o[0] - d[1], o[1] + (t or 1) * d[0])
    elif k == 6:    # mirrored at an axis or the origin
        a, b = r.choice([(-1, 1), (1, -1), (-1, -1)])
        P, Q = (a * A[0], b * A[1]), (a * (A[0] + d[0]), b * (A[1] + d[1]))
    elif k == 7:    # close to it
        e = r.near(-4.7)
        P, Q = (A[0] + s * d[0] - e * d[1], A[1] + s * d[1] + e * d[0]), (A[0] + t * d[0] - e * d[1], A[1] + t * d[1] + e * d[0])
    elif k == 8:    # slightly turned, somewhere
        e, o = r.near(-4.7), (r.randint(-4, 4), r.randint(-4, 4))
        P, Q = o, r.choice([(o[0] + d[0] - e * d[1], o[1] + d[1] + e * d[0]), (o[0] - d[1] + e * d[0], o[1] + d[0] + e * d[1])])
    elif k == 9:    # slightly turned about a point of it
        e = r.near(-4.7)
        P = (A[0] + s * d[0], A[1] + s * d[1])
        Q = (P[0] + d[0] - e * d[1], P[1] + d[1] + e * d[0])
    else:           # slightly turned
        P, Q = tuple(A), (A[0] + d[0] + r.choice([0.01, 0.01, 1e-3, 1e-4, -1e-4]) * d[1], A[1] + d[1])
    return g.Line(r.fmt(P), r.fmt(Q), r.bl(), r.bl())


def anyline(r):
    if r.random() < 0.08:       # close defining points
        d, t = r.choice([0.01, 0.02, 0.1, 2.0 ** -6]), r.choice([0, pi / 2, pi, r.uniform(-pi, pi), r.uniform(-pi, pi)])
        x, y = r.f(-3, 3), r.f(-3, 3)
        return g.Line((x, y), (x + d * math.cos(t), y + d * math.sin(t)), r.bl(), r.bl())
    return eline(r) if r.bl() else r.line()


def rel_point(r, l):
    """points at, between, beyond the defining points, next to the line or anywhere"""
    k = r.randint(0, 9)
    s = r.choice([0, 1, 0.5, 0.25, -1, -0.5, 2, 3, 1.5, -10, 20, r.near(-5.3), 1 + r.near(-5.3), r.choice([1e3, -1e4])])
    A, d = [float(x) for x in l.A], [float(x) for x in (l.B - l.A)]
    P = (A[0] + s * d[0], A[1] + s * d[1])
    if s == 1:
        P = tuple(float(x) for x in l.B)
    if k < 6:
        return r.fmt(P)
    if k < 8:
        h = r.choice([1, -1, 0.25, -0.125, 0.01, r.near(-5.3), r.near(-5.3)])
        if abs(s) > 5:
            h *= abs(s) / abs(h) ** 0.7
        return r.fmt((P[0] - h * d[1], P[1] + h * d[0]))
    return r.pt()


@gen("P10")
def _(r, n):
    for _ in range(n):
        l = anyline(r)
        if r.randint(0, 3) == 0:    # through the origin, far away
            o = r.choice([(0, 0), (1000, 0), (0, -300)])
            l = eline(r, o)
        k = r.randint(0, 9)
        if k < 2:
            yield "line.do", (l,)
        elif k < 6:
            h = related(r, l) if r.randint(0, 3) else anyline(r)
            yield r.choice(["line.eq", "line.par", "line.perpq"]), (l, h)
        else:
            yield "line.inc", (l, rel_point(r, l), r.bl())


@gen("P11")
def _(r, n):
    for _ in range(n):
        l = anyline(r)
        k = r.randint(0, 9)
        if k < 4:
            yield "line.perp", (l, rel_point(r, l), r.bl(), r.bl())
        elif k < 7:
            yield "line.proj", (l, rel_point(r, l))
        elif k < 9:
            yield "line.rot", (l, Ang(*r.angle()), r.choice([r.pt(), l.A, (0, 0)]))
        else:
            yield "line.trans", (l, r.pt())


def tangent_or_not(r):
    """ellipse or circle with a line at a chosen distance (in its own units)"""
    while True:
        e = ellipse_any(r)
        if isinstance(e, g.Circle) or e.rmajor <= 12 * e.rminor:
            break
    k = r.choice([0, 0.5, 1, 1, 1, 0.999, 1.001, 1.5, -1, -1, -0.25, 3])
    a, b, al = (e.radius, e.radius, 0.0) if isinstance(e, g.Circle) else (e.rmajor, e.rminor, e.alpha * pi / 180 if e.degrees else e.alpha)
    if r.bl():
        t = r.choice([0, pi / 2, pi, -pi / 2, pi / 4])
    else:
        t = r.uniform(0, 2 * pi)
    c, s = math.cos(al), math.sin(al)
    f = lambda x, y: (e.center[0] + a * x * c - b * y * s, e.center[1] + a * x * s + b * y * c)
    ct, st = math.cos(t), math.sin(t)
    s1, s2 = r.choice([(0, 1), (-1, 1), (2, 3), (1, -2), (-4, -3.5)])
    P, Q = f(k * ct - s1 * st, k * st + s1 * ct), f(k * ct - s2 * st, k * st + s2 * ct)
    return e, g.Line(P, Q, r.bl(), r.bl())


@gen("P12")
def _(r, n):
    for _ in range(n):
        k = r.randint(0, 9)
        if k < 3:
            l = anyline(r)
            yield "x.ll", (l, related(r, l) if r.bl() else anyline(r))
        elif k < 6:
            if r.bl():
                e, l = tangent_or_not(r)
            elif r.bl():
                e, l = ellipse_any(r), r.line()
            else:                  # exact tangents, diameters
                c = (r.randint(-5, 5), r.randint(-5, 5))
                R = r.choice([1, 2, 5, 13, 0.5])
                e = g.Circle(c, R)
                x, y, z = r.choice([(0, 1, 1), (1, 0, 1), (-1, 0, 1), (0, -1, 1)])
                q = r.choice([1, 0, -1, 0.5, 2])
                P = (c[0] + q * R * x, c[1] + q * R * y)
                s, t = r.sample([-3, -1, 0, 1, 2, 5], 2)
                l = g.Line((P[0] - s * y, P[1] + s * x), (P[0] - t * y, P[1] + t * x), r.bl(), r.bl())
            yield ("x.cl" if isinstance(e, g.Circle) else "x.el"), (e, l)
        else:
            a, b = two_circles(r)
            if r.randint(0, 7) == 0:
                b = g.Circle(a.center, r.choice([a.radius, a.radius * 2, a.radius / 3]))
            yield "x.cc", (a, b)


# ---- circles
def orthogonal_pair(r):
    if r.randint(0, 2) == 0:        # up to rounding
        a, R, t = r.circle(), r.pos(), r.uniform(-4, 4)
        d = math.sqrt(a.radius ** 2 + R ** 2) * (1 if r.bl() else 1 + r.near())
        return a, g.Circle((a.center[0] + d * math.cos(t), a.center[1] + d * math.sin(t)), R)
    x, y, z = r.choice([(3, 4, 5), (5, 12, 13), (8, 15, 17), (4, 3, 5)])
    s = r.choice([1, 0.5, 2])
    c = (r.randint(-5, 5), r.randint(-5, 5))
    if r.randint(0, 2) == 0:
        y *= 1 + r.near()
    dx, dy = r.choice([(1, 0), (0, 1), (-1, 0), (0, -1)])
    return g.Circle(c, s * x), g.Circle((c[0] + s * z * dx, c[1] + s * z * dy), s * y)


def circ_point(r, c):
    k = r.randint(0, 9)
    if k < 3:
        return r.fmt(tuple(float(x) for x in r.on_circle(c)))
    if k < 5:
        u, w = r.choice([(1, 0), (0, 1), (-1, 0), (0, -1)])
        q = r.choice([1, 1, 0.5, 1.5, 0, -1, 0.99, 1 + r.near(), 1 + r.near()])
        return r.fmt((float(c.center[0] + q * c.radius * u), float(c.center[1] + q * c.radius * w)))
    if k < 7:
        t, q = r.uniform(0, 7), r.choice([0.3, 0.7, 0.95, 1.05, 1.3, 1 + r.near(), 1 + r.near(), 50, 1e4])
        return r.fmt((float(c.center[0] + q * c.radius * math.cos(t)), float(c.center[1] + q * c.radius * math.sin(t))))
    return r.pt()


@gen("P13")
def _(r, n):
    for _ in range(n):
        k = r.randint(0, 11)
        a, b = orthogonal_pair(r) if r.randint(0, 3) == 0 else two_circles(r)
        if k == 0:
            yield "power", (a, circ_point(r, a))
        elif k < 3:
            yield "rad2", (a, b)
        elif k == 3:
            yield "rad3", (a, b, r.circle())
        elif k == 4:
            yield "orthq", (a, b)
        elif k < 7:
            yield "cangle", (a, b)
        elif k < 9:
            yield "mem", (a, circ_point(r, a))
        elif k == 9:
            yield "circAB", r.two()
        elif k == 10:
            yield "circOA", r.two()
        else:
            f = lambda x: float(x)
            c = r.choice([lambda: g.Circle(tuple(a.center), f(a.radius)), lambda: g.Circle(a.center + [0.5, 0], a.radius),
                          lambda: g.Circle(a.center, a.radius * 1.5), lambda: g.Circle(a.center, a.radius * (1 + r.near(-5.5))),
                          lambda: g.Circle(a.center + a.radius * r.near(-5.5) * np.array(r.choice([(1, 0), (0, 1)])), a.radius), lambda: g.Circle(-a.center, a.radius), lambda: b])()
            yield "circ.eq", (a, c)


@gen("P14")
def _(r, n):
    for _ in range(n):
        c = r.circle() if r.bl() else g.Circle(r.pt(), r.choice([1, 0.5, 0.25, 3]))
        if r.bl():
            a = r.choice([0, pi / 6, pi / 4, pi / 2, pi, -pi / 3, 3 * pi / 2, r.uniform(-7, 7), r.uniform(-20, 20)])
            d = r.choice([pi / 2, pi, -pi, 3 * pi, 2 * pi / 3, -pi / 5, 4 * pi / 3, 1.0, -2.5, 5.0, r.uniform(-6.2, 6.2), r.uniform(-20, 20)])
            yield "orth.on", (c, Ang(a), Ang(a + d), r.bl())
        else:
            k = r.randint(0, 9)
            R, o = c.radius, c.center
            def inside():
                t, q = r.uniform(0, 2 * pi), r.choice([0.2, 0.5, 0.8, 0.9, r.uniform(0.05, 0.98)])
                return (o[0] + q * R * math.cos(t), o[1] + q * R * math.sin(t))
            P, Q = inside(), inside()
            if k == 0:
                u, w = r.choice([(1, 0), (0, 1), (0.6, 0.8)])
                s, t = r.sample([-0.5, 0.25, 0.75, 0, -0.875], 2)
                P, Q = (o[0] + s * R * u, o[1] + s * R * w), (o[0] + t * R * u, o[1] + t * R * w)
            elif k == 1:
                Q = P
            elif k == 2:
                q = r.choice([1, 1.2, 3])
                Q = (o[0], o[1] + q * R)
                if r.bl():
                    P, Q = Q, P
            yield "orth.in", (c, r.fmt(tuple(map(float, P))), r.fmt(tuple(map(float, Q))), r.bl())


# ---- ellipses and arcs
def ell_ok(r, flat=8):
    while True:
        e = ellipse_any(r)
        if isinstance(e, g.Circle):
            continue
        if e.rmajor <= flat * e.rminor:
            return e


def angle(r):
    return Ang(*r.angle())


def rad(r):
    while True:
        a = angle(r)
        if not a.deg:
            return a


def rim(r, e, t=None, q=1.0):
    a, b, al = (e.radius, e.radius, 0.0) if isinstance(e, g.Circle) else (e.rmajor, e.rminor, e.alpha * pi / 180 if e.degrees else e.alpha)
    t = r.uniform(0, 2 * pi) if t is None else t
    x, y = q * a * math.cos(t), q * b * math.sin(t)
    return (float(e.center[0] + x * math.cos(al) - y * math.sin(al)), float(e.center[1] + x * math.sin(al) + y * math.cos(al)))


def spread(r, k, gap):
    """k angles at mutual distance at least gap"""
    while True:
        t = sorted(r.uniform(0, 2 * pi) for _ in range(k))
        if all((t[(i + 1) % k] - t[i]) % (2 * pi) > gap for i in range(k)):
            r.shuffle(t)
            return t


def ell_variant(r, e):
    """another description of e, or a different ellipse"""
    k = r.randint(0, 14)
    al = e.alpha * (1 if e.degrees else 180 / pi)
    c, a, b = e.center, e.rmajor, e.rminor
    n = r.near()
    if k >= 11:
        return [lambda: g.Ellipse(c, a, b, al + 60 * n, True), lambda: g.Ellipse(c, max(a * (1 + n), b), b, al, True), lambda: g.Ellipse(c, a, min(b * (1 + n), a), al, True),
                lambda: g.Ellipse(c + a * n * np.array(r.choice([(1, 0), (0, 1)])), a, b, al, True)][k - 11]()
    if k == 0:
        return g.Ellipse(c, a, b, al + r.choice([0, 180, -180, 360, 540, -720]), True)
    if k == 1:
        return g.Ellipse(c, a, b, al * pi / 180 + r.choice([0, pi, -pi, 2 * pi]), False)
    if k == 2:
        return g.Ellipse(c, a, b, al + r.choice([90, 45, -30, 1, 179, 5]), True)
    if k == 3:
        return g.Ellipse(c, a * 1.01, b, al, True)
    if k == 4:
        return g.Ellipse(c, a, b * 0.95, al, True)
    if k == 5:
        return g.Ellipse(c + np.array([0.1, 0]), a, b, al, True)
    if k == 6:
        return g.Ellipse(-c, a, b, al, True)
    if k == 7:
        return g.Circle(c, a)
    if k == 8:
        return g.Circle(c, b)
    if k == 9:
        return g.Ellipse(tuple(c), a, b, -al, True)
    return ell_ok(r)


def conic(r):
    k = r.randint(0, 9)
    i = lambda: r.randint(-4, 4)
    if k < 3:
        return tuple(i() for _ in range(6))
    if k < 6:                # shifted: exact ellipses, points, empty sets, hyperbolas, parabolas
        A, B, C = r.choice([(1, 0, 1), (1, 0, 4), (2, 1, 1), (1, 1, 1), (5, 4, 5), (1, -2, 1), (1, 3, 1), (0, 1, 0), (1, 0, 0), (3, -2, 3), (1, 2, 1), (-1, 0, 2)])
        x, y, K = i(), i(), r.choice([-1, -4, -9, 3, -0.5, -2, 0])
        s = r.choice([1, -1, 2, -0.5, 0.25, 1000, -0.001])
        D, E = -2 * A * x - B * y, -B * x - 2 * C * y
        return tuple(s * v for v in (A, B, C, D, E, A * x * x + B * x * y + C * y * y + K))
    return tuple(r.f(-4, 4) for _ in range(6))


@gen("P15")
def _(r, n):
    for _ in range(n):
        k = r.randint(0, 13)
        e = ell_ok(r)
        if k < 2:
            yield "ell.eq", (e,)
        elif k < 4:
            yield "ell.shape", (e,)
        elif k < 6:
            yield "ell.re", (e, r.choice([1, -1, 2, -3, 0.01, -50, 1e-3, r.f(-9, 9) or 1]))
        elif k < 8:
            yield "ell.fromeq", conic(r)
        elif k == 8:
            a, b, c = r.choice([(1, 0, 1), (2, 1, 1), (0.25, 0, 1), (1, 2, 1), (-1, 0, 2), (1, 0, -2), (-1, 0, -1), (0, 1, 0), (r.f(-2, 2), r.f(-2, 2), r.f(-2, 2))])
            S = [[a, b], [b, c]]
            yield "ell.frommat", (r.pt(), np.array(S, dtype=float) if r.bl() else np.array(S))
        elif k < 11:
            if r.randint(0, 3):
                P = [rim(r, e, t) for t in spread(r, 5, 0.45)]
                if r.randint(0, 5) == 0:
                    P[r.randint(0, 4)] = P[r.randint(0, 4)]
            else:
                P = [r.pt() for _ in range(5)]
            yield "ell.five", ([r.fmt(tuple(p)) for p in P],)
        else:
            f = ell_variant(r, e)
            yield "ell.same", (e, f)


@gen("P16")
def _(r, n):
    for _ in range(n):
        k = r.randint(0, 15)
        e = ell_ok(r)
        if k < 2:
            yield "ell.path", (e, r.choice([1, 2, 3, 4, 5, 7, 8, 12, 33, 100, 257]))
        elif k < 5:
            c = r.circle()
            a, d = r.angle()
            b = a + r.choice([180, 90, -90, 270, 30, -30, 359, 360, 0, 400, r.f(-720, 720)]) * (1 if d else pi / 180)
            arc = g.Arc(c.center, c.radius, a, b, d)
            yield ("arc.ends", (arc,)) if r.randint(0, 2) == 0 else ("arc.path", (arc, r.choice([1, 2, 3, 4, 5, 9, 40, 101, 257])))
        elif k < 8:
            v = r.choice(["no", "no", "list", "tuple", "array"])
            d = r.bl()
            A = []
            while len(A) < (1 if v == "no" else r.randint(1, 3)):
                a = angle(r)
                if a.deg == d:
                    A.append(a)
            yield "ell.pfa", (e, A, v)
        elif k < 10:
            yield "ell.t", (e, angle(r))
        elif k == 10:
            yield "ell.normal", (e, rad(r))
        elif k < 13:
            yield "ell.diam", (e, rad(r), r.bl())
        elif k < 15:
            yield "ell.mem", (e, r.fmt(rim(r, e, None if r.bl() else r.choice([0, pi / 2, pi]), r.choice([1, 1, 1, 0.99, 1.01, 0.5, 0, 1.2, 1 + r.near(), 1 + r.near(), 30]))) if r.randint(0, 4) else r.pt())
        else:
            yield "circ.pfa", (r.circle(), angle(r))


def pts_array(r, k):
    t = r.randint(0, 4)
    if t == 0:
        P = [(r.randint(-5, 5), r.randint(-5, 5)) for _ in range(k)]
    elif t == 1:                 # on a circle or an ellipse
        e = ell_ok(r)
        P = [rim(r, e) for _ in range(k)]
    elif t == 2:                 # with symmetries
        P = [(r.randint(0, 3), r.randint(-3, 3)) for _ in range((k + 1) // 2)]
        P = (P + [(-x, y) for x, y in P])[:k]
    elif t == 3:
        P = [(r.gauss(0, 2), r.gauss(0, 1)) for _ in range(k)]
    else:
        P = [(r.f(-4, 4), r.f(-4, 4)) for _ in range(k)]
        P += [P[0]] * r.randint(0, 1)
    r.shuffle(P)
    A = np.array(P) if t in (0, 2) and r.bl() else np.array(P, dtype=float)
    return A + np.array([r.randint(-9, 9), r.randint(-9, 9)])


@gen("P17")
def _(r, n):
    for _ in range(n):
        k = r.randint(0, 9)
        if k < 2:
            yield "b3", (np.array([list(r.pt()) for _ in range(3)], dtype=float),)
        elif k < 6:
            if r.bl():
                e = ell_ok(r)
                P = [rim(r, e, t) for t in spread(r, 4, 0.5)]
            else:
                P = r.choice([[(0, 0), (1, 0), (1, 1), (0, 1)], [(0, 0), (4, 0), (3, 1), (1, 1)], [(0, 0), (4, 0), (5, 2), (1, 2)], [(1, 0), (0, 1), (-1, 0), (0, -1)],
                              [(-2, 0), (0, 3), (2, 0), (0, -1)], [(0, 0), (2, 0), (3, 3), (0, 1)], [(r.f(), r.f()) for _ in range(4)]])
                s = r.choice([1, 2, 0.5])
                z = complex(*r.choice([(1, 0), (0, 1), (3, 4), (-1, 1), (2, -1)]))
                P = [(s * (z * complex(*p)).real + 1, s * (z * complex(*p)).imag - 2) for p in P]
                r.shuffle(P)
            yield "b4", (np.array(P, dtype=float),)
        else:
            P = pts_array(r, r.choice([3, 4, 5, 6, 8, 10]))
            s = r.randint(0, 10**6)
            if r.random() < 0.06:
                P = pts_array(r, r.randint(15, 40))
            yield "lj", (P, s)
            if r.random() < 0.3:
                yield "lj.b", (P, s, r.randint(1, 4))
            if r.bl():
                yield "lj", (P[np.array(r.sample(range(len(P)), len(P)))], s + 1)


# ---- triangles
def any_tri(r):
    k = r.randint(0, 9)
    if k < 5:
        return r.tri()
    z = complex(*r.choice([(1, 0), (3, 4), (0, 2), (-1, 1), (0.5, -1)]))
    o = complex(r.randint(-5, 5), r.randint(-5, 5))
    if k == 5:                   # right
        P = [0, r.pos(), 1j * r.pos()]
    elif k == 6:                 # isosceles
        h, w = r.pos(), r.pos()
        P = [-w, w, 1j * h]
    elif k == 7:                 # equilateral
        P = [0, 2, complex(1, math.sqrt(3))]
    elif k == 8:                 # obtuse
        P = [0, 4, complex(-r.pos(), r.pos(1, 5))]
    else:                        # needles
        P = [0, 5, complex(r.f(-1, 6), r.choice([0.1, -0.2, 0.5, 0.01, -0.01, 0.003, 10 ** r.f(-2.5, 0)]))]
    r.shuffle(P)
    P = [(float((z * p + o).real), float((z * p + o).imag)) for p in P]
    return g.Triangle(*[r.fmt(p) for p in P])


def flat_tri(r):
    o, d = (r.randint(-5, 5), r.randint(-5, 5)), r.choice([(1, 0), (0, 1), (2, -1), (3, 5), (-6, -15)])
    ks = r.sample(range(-4, 5), 3)
    if r.randint(0, 4) == 0:
        ks[r.randint(0, 1)] = ks[2]
    return g.Triangle(*[(o[0] + k * d[0], o[1] + k * d[1]) for k in ks])


@gen("P18")
def _(r, n):
    for _ in range(n):
        op = r.choice(["tri.in", "tri.circum", "tri.ex", "tri.malf", "tri.malf", "tri.steiner", "tri.inell"])
        yield op, (flat_tri(r) if r.randint(0, 15) == 0 and op not in ("tri.in", "tri.ex") else any_tri(r),)


@gen("P19")
def _(r, n):
    for _ in range(n):
        k = r.randint(0, 9)
        t = any_tri(r)
        if k < 4:
            yield "tri.meas", (t if r.randint(0, 3) else flat_tri(r),)
        elif k < 7:
            w = [r.choice([1, 2, 0.1, -0.5, -2, r.f(-1, 3), r.near()]) for _ in range(3)]
            s = sum(w)
            if abs(s) < 0.3:
                w, s = [1, 1, 1], 3
            M = [float(sum(w[i] * V[j] for i, V in enumerate((t.A, t.B, t.C))) / s) for j in (0, 1)]
            yield "tri.contains", (t, r.fmt(tuple(M)) if r.randint(0, 4) else r.pt())
        elif k < 9:
            yield "tri.orthic", (t,)
        else:
            yield "tri.detour", (t,)


# ---- Steiner chains
@gen("P20")
def _(r, n):
    for _ in range(n):
        k = r.choice([3, 3, 4, 5, 6, 7, 8, 12, r.randint(3, 30)])
        phi = r.choice([0, 0.25, -0.25, 0.5, r.f(-0.9, 0.9), r.f(-0.9, 0.9), r.f(-0.1, 0.1), -0.75, 0.9])
        sh = r.choice([0, 0.5, 1, -1, 0.25, r.f(-3, 3), r.f(-3, 3), 100])
        yield "steiner", (r.circle(), k, phi, sh)


@gen("P21")
def _(r, n):
    for k in r.sample(range(1, n + 1), n):
        yield "uni", (k,)


@gen("P23")
def _(r, n):
    for _ in range(n):
        f = r.choice([r.circle, lambda: ell_ok(r), lambda: any_tri(r)])()
        k = r.choice([1, 2, 5, 17, 60, 120, 300])
        w = r.choice(["in", "on"]) if r.randint(0, 19) else r.choice(["inn", "", "ON", "boundary", "i"])
        yield "rpts", (f, k, w, r.randint(0, 2**32 - 1))


@gen("P24")
def _(r, n):
    """the model enumerates the calls"""
    return iter(())


# ---- the same call in other units ----------------------------------------
@gen("P25")
def g25(r, n):
    out = lambda v: Omitted() if r.random() < 0.4 else v
    num = lambda: r.choice([r.x(), r.x(-400, 400), r.f() * 1e-3, np.float64(r.f()), np.int64(r.randint(1, 9))])
    pos = lambda: r.choice([r.pos(), r.pos() / 64, r.pos() * 100, np.float64(r.pos()), r.randint(1, 9)])
    tw = lambda: list(r.two())
    mat = lambda z: Mat(r.choice([lambda M: M, lambda M: np.array(M), lambda M: tuple(map(tuple, M))])([[z(), z()], [z(), z()]]))
    z = lambda: r.choice([r.x(), complex(r.x(), r.x()), 0, 1j])
    ln = lambda: r.line()

    def tri():
        A, B, C = r.pt(), r.pt(), r.pt()
        if r.randint(0, 2) == 0:        # flat, or nearly so
            i, j, k = r.randint(-9, 9), r.choice([-3, -1, 2, 5]), r.choice([-2, -1, 1, 3])
            A = (i, j)
            B = (i + 2, j + k)
            C = (i + 2 * 4, j + k * 4 + r.choice([0, 0, r.choice([1, -1]) * r.choice([0.25, 0.5, 1, 2]), r.f(-3, 3)]))
            return r.choice([[A, B, C], [A, C, B]])
        return [A, B, C]

    def proj():
        D = ln()
        k = r.randint(0, 4)
        if k == 0:
            v, P = D.B - D.A, r.pt()
            return [D, g.Line(P, (P[0] - v[1], P[1] + v[0]))]
        return [D, ln() if k < 3 else None]
    shear = lambda: r.choice([[r.f(-89, 89), Omitted()], [r.f(-89, 89), True], [r.randint(-80, 80), True], [r.f(-1.5, 1.5), False]])
    make = {"Line": lambda: tw() + [out(r.bl()), out(r.bl())], "Circle": lambda: [r.pt(), pos()],
            "Arc": lambda: [r.pt(), pos(), num(), num(), out(r.bl())], "Ellipse": lambda: [r.pt(), pos(), pos(), num(), out(r.bl())],
            "Inversion": lambda: [r.pt(), num()], "Triangle": tri, "Affine": lambda: [mat(r.x), r.pt()],
            "Mobius": lambda: [mat(z)], "Reflection": lambda: [ln()], "Projection": proj,
            "Rotation": lambda: [r.pt(), num(), out(r.bl())], "Shear": lambda: [r.pt(), r.two()[0], pos()] + shear(),
            "ScalingXY": lambda: [r.pt(), num(), num()], "Homothety": lambda: [r.pt(), num()], "Scaling": lambda: [r.pt(), r.two()[0], num()]}
    for i in range(n):
        k = sorted(make)[i % len(make)]
        yield "obj", (k, r.choice(["positional", "keyword", "mixed"]), make[k]())


def scaled(x, s):
    """the image of an argument by the homothety of centre 0 and factor s (a power of two: exact)"""
    d, t = of(x), type(x)
    k = lambda v: np.asarray(v, dtype=float) * s
    if t is g.Line:
        return g.Line(k(d.A), k(d.B), d.extendA, d.extendB)
    if t is g.Circle:
        return g.Circle(k(d.center), d.radius * s)
    if t is g.Arc:
        return g.Arc(k(d.center), d.radius * s, d.alpha1, d.alpha2, d.degrees)
    if t is g.Ellipse:
        return g.Ellipse(k(d.center), d.rmajor * s, d.rminor * s, d.alpha, d.degrees)
    if t is g.Inversion:
        return g.Inversion(k(d.pole), d.power * s * s)
    if t is g.Triangle:
        return g.Triangle(k(d.A), k(d.B), k(d.C))
    if t is g.Affine:
        return g.Affine(d.A, k(d.b))
    if t is g.Mobius:
        return g.Mobius(np.asarray(d.M) * np.array([[1, s], [1 / s, 1]]))
    if t is g.Reflection:
        return g.Reflection(scaled(d.line, s))
    if t is g.Projection:
        return g.Projection(scaled(d.D, s), None if d.Delta is None or getattr(d, "orthogonal", False) else scaled(d.Delta, s))
    if t is g.Rotation:
        return g.Rotation(k(d.center), d.theta, d.degrees)
    if t is g.Shear:
        return g.Shear(k(d.vertex), k(d.vector), d.ratio, d.angle, d.degrees)
    if t is g.ScalingXY:
        return g.ScalingXY(k(d.center), d.sx, d.sy)
    if t is g.Homothety:
        return g.Homothety(k(d.center), d.scale)
    if t is g.Scaling:
        return g.Scaling(k(d.center), k(d.direction), d.scale)
    if isinstance(x, np.ndarray):
        return x * s
    if t in (tuple, list):
        return t(scaled(y, s) if isinstance(y, (tuple, list, np.ndarray)) else y * s for y in x)
    return x


def moved(x, t):
    """the image of an argument by the translation of vector t (up to rounding)"""
    d, c = of(x), type(x)
    k = lambda v: np.asarray(v, dtype=float) + t
    if c is g.Line:
        return g.Line(k(d.A), k(d.B), d.extendA, d.extendB)
    if c is g.Circle:
        return g.Circle(k(d.center), d.radius)
    if c is g.Arc:
        return g.Arc(k(d.center), d.radius, d.alpha1, d.alpha2, d.degrees)
    if c is g.Ellipse:
        return g.Ellipse(k(d.center), d.rmajor, d.rminor, d.alpha, d.degrees)
    if c is g.Inversion:
        return g.Inversion(k(d.pole), d.power)
    if c is g.Triangle:
        return g.Triangle(k(d.A), k(d.B), k(d.C))
    if c is g.Affine:
        A = np.asarray(d.A, dtype=float)
        return g.Affine(A, k(d.b) - A @ t)
    if c is g.Mobius:
        z = complex(*t)
        return g.Mobius(np.array([[1, z], [0, 1]]) @ np.asarray(d.M) @ np.array([[1, -z], [0, 1]]))
    if c is g.Reflection:
        return g.Reflection(moved(d.line, t))
    if c is g.Projection:
        return g.Projection(moved(d.D, t), None if d.Delta is None or getattr(d, "orthogonal", False) else moved(d.Delta, t))
    if c is g.Rotation:
        return g.Rotation(k(d.center), d.theta, d.degrees)
    if c is g.Shear:
        return g.Shear(k(d.vertex), d.vector, d.ratio, d.angle, d.degrees)
    if c is g.ScalingXY:
        return g.ScalingXY(k(d.center), d.sx, d.sy)
    if c is g.Homothety:
        return g.Homothety(k(d.center), d.scale)
    if c is g.Scaling:
        return g.Scaling(k(d.center), d.direction, d.scale)
    if isinstance(x, np.ndarray):
        return x + t
    if c in (tuple, list):
        if len(x) == 2 and not isinstance(x[0], (tuple, list, np.ndarray)):
            return c((np.asarray(x, dtype=float) + t).tolist())
        return c(moved(y, t) for y in x)
    return x


UNMOVED = {"obj", "ell.pfa", "ell.fromeq", "ell.frommat", "uni", "build"}
UNSCALED = {"obj", "ell.pfa", "ell.fromeq", "ell.frommat", "uni", "build"}


def units(r, p, calls):
    for op, args in calls:
        if op not in UNMOVED and r.random() < float(os.environ.get("MV", 0.2)):
            t = np.array([r.choice([-1, 1]) * 2.0 ** r.randint(3, int(os.environ.get("MT", 13))) for _ in range(2)])
            try:
                args = tuple(moved(x, t) if not np.isscalar(x) else x for x in args)
            except ValueError:
                pass
        if op not in UNSCALED and r.random() < 0.2:
            s = 2.0 ** r.choice([-11, -9, -6, -5, -3, 4, 6, 7, 10, 13])
            try:
                args = tuple(scaled(x, s) for x in args)
            except ValueError:      # figures which become too small to be told from a point
                pass
        yield op, args
