"""Encoding of the values that cross the library boundary.

A float is written as the exact rational it is, in the form of spec/Rat.tla:
[sign, numerator limbs, denominator limbs], limbs little-endian in base 10000.
Angles carry the cosine and the sine of their value, computed here with the
math module: trigonometric functions are primitives of the specification.
"""
import math, json, sys, weakref, functools
from fractions import Fraction
import numpy as np
import planegeometry.geometry as g

FIELDS = {"Line": ["A", "B", "extendA", "extendB"], "Circle": ["center", "radius"], "Arc": ["center", "radius", "alpha1", "alpha2", "degrees"],
          "Ellipse": ["center", "rmajor", "rminor", "alpha", "degrees"], "Inversion": ["pole", "power"], "Triangle": ["A", "B", "C"],
          "Affine": ["A", "b"], "Mobius": ["M"], "Reflection": ["line"], "Projection": ["D", "Delta"], "Rotation": ["center", "theta", "degrees"],
          "Shear": ["vertex", "vector", "ratio", "angle", "degrees"], "ScalingXY": ["center", "sx", "sy"], "Homothety": ["center", "scale"],
          "Scaling": ["center", "direction", "scale"]}
DEFAULTS = {"extendA": True, "extendB": True, "degrees": True}
HARNESS = {"enc", "gens", "ops", "driver", "session", "argtab", "__main__"}
GIVEN = weakref.WeakKeyDictionary()


class View:
    """what the harness gave to the constructor of an object"""
    def __init__(self, kind, fields):
        self.kind = kind
        self.__dict__.update(fields)


def _watch(cls):
    """remember the data an object was built from, when it is the harness that builds it:
    the outcome of a call is judged against what was asked, not against what the object says it is"""
    names, init = FIELDS[cls.__name__], cls.__init__

    @functools.wraps(init)
    def __init__(self, *a, **k):
        init(self, *a, **k)
        if sys._getframe(1).f_globals.get("__name__") in HARNESS:
            GIVEN[self] = View(cls.__name__, {**DEFAULTS, **dict(zip(names, a)), **k})
    cls.__init__ = __init__


for _n in FIELDS:
    _watch(getattr(g, _n))


def of(x):
    """the data of an object: as given, or else its attributes"""
    return GIVEN.get(x, x) if type(x).__name__ in FIELDS else x


def limbs(n):
    out = []
    while n:
        n, r = divmod(n, 10000)
        out.append(r)
    return out


def rat(x):
    if isinstance(x, Fraction):
        n, d = x.numerator, x.denominator
    elif isinstance(x, int):
        n, d = x, 1
    else:
        n, d = float(x).as_integer_ratio()
    s = 0 if n == 0 else (1 if n > 0 else -1)
    return [s, limbs(abs(n)), limbs(d)]


def unrat(v):
    s, n, d = v
    f = lambda ls: sum(x * 10000**i for i, x in enumerate(ls))
    return Fraction(s * f(n), f(d))


class Multi(list):
    """several outcomes of one operation"""


class Exc:
    def __init__(self, name):
        self.name = name


class Ang:
    """an angle argument: the number, and its unit"""
    def __init__(self, v, deg=False):
        self.v, self.deg = v, deg


class Omitted:
    """an optional argument which is left out"""


class Mat:
    """a matrix argument, in any form"""
    def __init__(self, v):
        self.v = v


class Raw:
    """an already encoded value"""
    def __init__(self, v):
        self.v = v


class Bad(Exception):
    pass


def isnum(x):
    return isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, (bool, np.bool_))


def num(x):
    if not isnum(x):
        if isinstance(x, np.ndarray) and x.shape == () and not np.iscomplexobj(x):
            x = x.item()
        else:
            raise Bad()
    x = float(x)
    if not math.isfinite(x):
        raise Bad()
    return rat(x)


def cx(z):
    z = complex(z)
    return [num(z.real), num(z.imag)]


def pt(p):
    p = [p[0], p[1]]
    return [num(p[0]), num(p[1])]


def ang(v, deg):
    r = float(v) * (math.pi / 180) if deg else float(v)
    return {"v": num(v), "c": num(math.cos(r)), "s": num(math.sin(r)), "rad": num(r)}


ASKED = False


def arg(v):
    """an argument of a call: objects by the data they were built from"""
    global ASKED
    ASKED = True
    try:
        return enc(v)
    finally:
        ASKED = False


def obj(n, v):
    if n == "Line":
        return {"t": "line", "A": pt(v.A), "B": pt(v.B), "ea": bool(v.extendA), "eb": bool(v.extendB)}
    if n == "Circle":
        return {"t": "circle", "c": pt(v.center), "r": num(v.radius)}
    if n == "Arc":
        a1, a2 = ang(v.alpha1, v.degrees), ang(v.alpha2, v.degrees)
        return {"t": "arc", "c": pt(v.center), "r": num(v.radius), "a1": a1, "a2": a2, "deg": bool(v.degrees)}
    if n == "Ellipse":
        a = ang(v.alpha, v.degrees)
        return {"t": "ell", "c": pt(v.center), "a": num(v.rmajor), "b": num(v.rminor),
                "al": a["v"], "u": [a["c"], a["s"]], "deg": bool(v.degrees)}
    if n == "Inversion":
        return {"t": "inv", "o": pt(v.pole), "k": num(v.power)}
    if n == "Triangle":
        return {"t": "tri", "A": pt(v.A), "B": pt(v.B), "C": pt(v.C)}
    if n == "Affine":
        return {"t": "aff", "A": [[num(x) for x in r] for r in np.asarray(v.A)], "b": pt(v.b)}
    if n == "Mobius":
        M = np.asarray(v.M)
        return {"t": "mob", "m": [cx(M[0, 0]), cx(M[0, 1]), cx(M[1, 0]), cx(M[1, 1])]}
    if n == "Reflection":
        L = of(v.line) if ASKED else v.line
        return {"t": "refl", "A": pt(L.A), "B": pt(L.B)}
    if n == "Projection":
        D = of(v.D) if ASKED else v.D
        a, b = pt(D.A), pt(D.B)
        if v.Delta is None:             # any line perpendicular to D
            w = [unrat(b[i]) - unrat(a[i]) for i in (0, 1)]
            p, q = [rat(0), rat(0)], [rat(-w[1]), rat(w[0])]
        else:
            L = of(v.Delta) if ASKED else v.Delta
            p, q = pt(L.A), pt(L.B)
        return {"t": "proj", "A": a, "B": b, "P": p, "Q": q, "orth": v.Delta is None or bool(getattr(v, "orthogonal", False))}
    if n == "Rotation":
        return {"t": "rot", "o": pt(v.center), "th": ang(v.theta, v.degrees), "deg": bool(v.degrees)}
    if n == "Shear":
        return {"t": "shear", "o": pt(v.vertex), "w": pt(v.vector), "k": num(v.ratio), "th": ang(v.angle, v.degrees)}
    if n == "ScalingXY":
        return {"t": "sxy", "o": pt(v.center), "sx": num(v.sx), "sy": num(v.sy)}
    if n == "Homothety":
        return {"t": "hom", "o": pt(v.center), "k": num(v.scale)}
    return {"t": "scal", "o": pt(v.center), "w": pt(v.direction), "k": num(v.scale)}


def enc_(v):
    if v is None:
        return {"t": "none"}
    if isinstance(v, Raw):
        return v.v
    if isinstance(v, Mat):
        M = np.asarray(v.v)
        return enc_(M if np.iscomplexobj(M) else M.astype(float))
    if isinstance(v, Omitted):
        return {"t": "omitted"}
    if isinstance(v, Exc):
        return {"t": "raise", "e": v.name}
    if isinstance(v, Multi):
        return {"t": "multi", "v": [enc(x) for x in v]}
    if isinstance(v, Ang):
        return dict(ang(v.v, v.deg), t="ang", deg=bool(v.deg))
    if isinstance(v, (bool, np.bool_)):
        return {"t": "bool", "v": bool(v)}
    if isinstance(v, str):
        return {"t": "str", "v": v}
    if isnum(v):
        if math.isinf(v):
            return {"t": "inf"}
        return {"t": "num", "v": num(v)}
    if isinstance(v, (complex, np.complexfloating)):
        if (math.isinf(v.real) or math.isinf(v.imag)) and v == v:
            return {"t": "inf"}
        return {"t": "cx", "v": cx(v)}
    if type(v).__name__ in FIELDS and isinstance(v, getattr(g, type(v).__name__)):
        return obj(type(v).__name__, of(v) if ASKED else v)
    if isinstance(v, dict):
        return {"t": "dict", "v": {str(k): enc(x) for k, x in v.items()}}
    if isinstance(v, np.ndarray) and v.ndim == 2:
        if np.iscomplexobj(v):
            return {"t": "cmat", "v": [[cx(x) for x in r] for r in v]}
        return {"t": "mat", "n": int(v.shape[0]), "m": int(v.shape[1]), "v": [[num(x) for x in r] for r in v]}
    if isinstance(v, (tuple, list, np.ndarray)):
        v = list(v)
        if len(v) == 2 and isnum(v[0]) and isnum(v[1]):
            return {"t": "pt", "v": pt(v)}
        if len(v) > 0 and all(isnum(x) for x in v):
            return {"t": "vec", "v": [num(x) for x in v]}
        return {"t": "list", "v": [enc(x) for x in v]}
    return {"t": "other", "n": type(v).__name__}


def enc(v):
    try:
        return enc_(v)
    except Bad:
        return {"t": "bad"}
    except (TypeError, ValueError, AttributeError, IndexError, OverflowError):
        return {"t": "bad"}


def dec(s, sim=None):
    """build library arguments from an abstract value emitted by TLC"""
    sim = sim or Sim()
    t = s["t"]
    if t == "pt":
        return sim.pt(s["v"])
    if t == "vecd":
        return sim.vec(s["v"])
    if t == "inf":
        return math.inf
    if t == "len":
        return sim.len(unrat(s["v"]))
    if t == "pow":
        return sim.pow(unrat(s["v"]))
    if t == "num":
        return sim.num(unrat(s["v"]))
    if t == "int":
        return s["v"]
    if t == "bool":
        return s["v"]
    if t == "arcd":
        return g.Arc(sim.pt(s["c"]), sim.len(unrat(s["r"])), s["i"], s["j"], True)
    if t == "angd":
        return Ang(s["v"] * math.pi / 180, False)
    if t == "str":
        return s["v"]
    if t == "none":
        return None
    if t == "line":
        return g.Line(sim.pt(s["A"]), sim.pt(s["B"]), s["ea"], s["eb"])
    if t == "circle":
        return g.Circle(sim.pt(s["c"]), sim.len(unrat(s["r"])))
    if t == "inv":
        return g.Inversion(sim.pt(s["o"]), sim.pow(unrat(s["k"])))
    if t == "tri":
        return g.Triangle(sim.pt(s["A"]), sim.pt(s["B"]), sim.pt(s["C"]))
    if t == "mob":
        return g.Mobius(sim.mob([[unrat(x) for x in z] for z in s["m"]]))
    if t == "aff":
        return g.Affine(*sim.aff([[unrat(x) for x in r] for r in s["A"]], [unrat(x) for x in s["b"]]))
    if t == "ell":
        return sim.ell(s)
    if t == "rot":
        return g.Rotation(sim.pt(s["o"]), sim.angle(s["u"]), False)
    if t == "refl":
        return g.Reflection(g.Line(sim.pt(s["A"]), sim.pt(s["B"])))
    if t == "proj":
        d = g.Line(sim.pt(s["A"]), sim.pt(s["B"]))
        return g.Projection(d, None if s["orth"] else g.Line(sim.pt(s["P"]), sim.pt(s["Q"])))
    if t == "hom":
        return g.Homothety(sim.pt(s["o"]), sim.num(unrat(s["k"])))
    if t == "scal":
        return g.Scaling(sim.pt(s["o"]), sim.vec(s["w"]), sim.num(unrat(s["k"])))
    if t == "shear":
        return g.Shear(sim.pt(s["o"]), sim.vec(s["w"]), float(unrat(s["k"])), math.atan2(float(unrat(s["u"][1])), float(unrat(s["u"][0]))), False)
    if t == "mat":
        return np.array([list(sim.pt(p)) for p in s["v"]])
    if t == "cmat":
        return Mat([[complex(*[float(unrat(x)) for x in z]) for z in row] for row in s["v"]])
    if t == "rmat":
        return Mat([[sim.num(unrat(x)) for x in row] for row in s["v"]])
    if t == "omitted":
        return Omitted()
    if t == "sxy":
        return g.ScalingXY(sim.pt(s["o"]), sim.num(unrat(s["sx"])), sim.num(unrat(s["sy"])))
    if t == "list":
        return [dec(x, sim) for x in s["v"]]
    raise Exception("dec " + t)


def gmul(z, w):
    return (z[0] * w[0] - z[1] * w[1], z[0] * w[1] + z[1] * w[0])


class Sim:
    """p -> s*z*p + t with z a Gaussian integer of integer modulus: exact"""
    def __init__(self, z=(1, 0), s=Fraction(1), t=(0, 0), fmt=None):
        self.z = (z[0] * s, z[1] * s)
        self.m = Fraction(math.isqrt(z[0]**2 + z[1]**2)) * s
        assert self.m**2 == self.z[0]**2 + self.z[1]**2
        self.t = (Fraction(t[0]), Fraction(t[1]))
        self.fmt = fmt or (lambda p: p)

    def num(self, f):
        return int(f) if f.denominator == 1 else float(f)

    def raw(self, p):
        q = gmul(self.z, (unrat(p[0]), unrat(p[1])))
        return (q[0] + self.t[0], q[1] + self.t[1])

    def pt(self, p):
        q = self.raw(p)
        return self.fmt((self.num(q[0]), self.num(q[1])))

    def vec(self, p):
        q = gmul(self.z, (unrat(p[0]), unrat(p[1])))
        return (self.num(q[0]), self.num(q[1]))

    def len(self, r):
        return self.num(r * self.m)

    def pow(self, k):
        return self.num(k * self.m**2)

    def angle(self, u):
        return math.atan2(float(unrat(u[1])), float(unrat(u[0])))

    def mob(self, m):
        a, b, c, d = m
        z, t = self.z, self.t
        add = lambda p, q: (p[0] + q[0], p[1] + q[1])
        neg = lambda p: (-p[0], -p[1])
        # [[z,t],[0,1]] [[a,b],[c,d]] [[1,-t],[0,z]]
        p, q = add(gmul(z, a), gmul(t, c)), add(gmul(z, b), gmul(t, d))
        r, s = tuple(c), tuple(d)
        m2 = [p, add(gmul(neg(p), t), gmul(q, z)), r, add(gmul(neg(r), t), gmul(s, z))]
        f = [complex(float(x[0]), float(x[1])) for x in m2]
        return [[f[0], f[1]], [f[2], f[3]]]

    def aff(self, A, b):
        # conjugate by the similarity: L = Z A Z^-1, translation = Z b + t - L t
        x, y = self.z
        n = x * x + y * y
        Z = [[x, -y], [y, x]]
        Zi = [[x / n, y / n], [-y / n, x / n]]
        mm = lambda P, Q: [[sum(P[i][k] * Q[k][j] for k in range(2)) for j in range(2)] for i in range(2)]
        mv = lambda P, v: [sum(P[i][k] * v[k] for k in range(2)) for i in range(2)]
        L = mm(mm(Z, A), Zi)
        zb, lt = mv(Z, b), mv(L, self.t)
        c = [zb[i] + self.t[i] - lt[i] for i in range(2)]
        return [[float(v) for v in r] for r in L], [float(v) for v in c]

    def ell(self, s):
        u = gmul(self.z, (unrat(s["u"][0]), unrat(s["u"][1])))
        al = math.atan2(float(u[1]), float(u[0]))
        deg = s.get("deg", True)
        return g.Ellipse(self.pt(s["c"]), self.len(unrat(s["a"])), self.len(unrat(s["b"])),
                         al * 180 / math.pi if deg else al, deg)
