"""The operations of the library, by the names the specification uses.
The arguments are library objects; the outcome is what the caller sees."""
import math, signal, os, sys
import numpy as np
import planegeometry.geometry as g
from enc import Multi, Exc, Ang, Raw, enc, rat

OPS = {}


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


def T(f, *a, **k):
    """the outcome of a call: its value, or the exception it raised"""
    for x in a:
        if isinstance(x, Exc):
            return Exc("NoInput")
    try:
        return f(*a, **k)
    except Exception as x:
        return Exc(type(x).__name__)


hung = 0    # calls which did not return


def run(op, args):
    global hung
    signal.setitimer(signal.ITIMER_REAL, 20)
    try:
        return OPS[op](*args)
    except Timeout:
        hung += 1
        return Exc("Timeout")
    except Exception as x:
        return Exc(type(x).__name__)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def op(name):
    def d(f):
        OPS[name] = f
        return f
    return d


# ---- inversions
@op("inv.pt")
def _(io, M):
    r = T(io.invert, M)
    return Multi([r, T(io.invert, r)])


def _again(io, r):
    if isinstance(r, g.Circle):
        return T(io.invert_circle, r)
    if isinstance(r, g.Line):
        return T(io.invert_line, r)
    return Exc("NoInput")


for _n, _f in [("inv.circle", lambda io, c: io.invert_circle(c)), ("inv.line", lambda io, l: io.invert_line(l)),
               ("inv.gcircle", lambda io, c: io.invert_gcircle(c)), ("line.invert", lambda io, l: l.invert(io))]:
    OPS[_n] = lambda io, c, _f=_f: (lambda r: Multi([r, _again(io, r)]))(T(_f, io, c))
OPS["inv.swap"] = lambda a, b, p: g.Inversion.from_swapping_two_circles(a, b, p)
OPS["midc"] = lambda a, b: g.mid_circles(a, b)
OPS["inv.fix2"] = lambda a, b: g.Inversion.from_fixing_two_circles(a, b)
OPS["inv.fix3"] = lambda a, b, c: g.Inversion.from_fixing_three_circles(a, b, c)
OPS["inv.oncircle"] = lambda a: g.Inversion.on_circle(a)


# ---- Moebius maps
def _val(m, P):
    return Multi([m, T(m.transform, P) if isinstance(m, g.Mobius) else Exc("NoInput")])


OPS["mob.pt"] = lambda m, P: m.transform(P)
OPS["mob.comp"] = lambda m, n, left, P: _val(T(m.compose, n, left), P)
OPS["mob.inv"] = lambda m, P: _val(T(m.inverse), P)
OPS["mob.pow"] = lambda m, k, P: _val(T(m.power, k), P)
OPS["inv.comp"] = lambda i, j, left, P: _val(T(i.compose, j, left), P)
OPS["mob.circle"] = lambda m, c: m.transform_circle(c)
OPS["mob.line"] = lambda m, c: m.transform_line(c)
OPS["mob.3pts"] = lambda *a: g.Mobius.from_mapping_three_points(*a)
OPS["mob.circ"] = lambda a, b: g.Mobius.from_mapping_one_circle(a, b)
OPS["mob.gpow"] = lambda m, p, q, s: Multi([T(m.gpower, p / q), T(m.gpower, s), T(m.gpower, p / q + s)])
OPS["mob.fixed"] = lambda m: m.fixed_points()
OPS["cross"] = lambda A, B, C, D: g.cross_ratio(A, B, C, D)
OPS["cross.mob"] = lambda m, *p: g.cross_ratio(*[m.transform(x) for x in p])


# ---- affine maps and the named transformations
def _named(f, P, rows):
    alias = {g.Reflection: "reflect", g.Rotation: "rotate", g.Projection: "project"}.get(type(f), "transform")
    return Multi([T(f.transform, P), T(f.transform, rows) if rows is not None else None, T(f.get3x3matrix),
                  f if isinstance(f, g.Affine) else T(f.as_affine), T(getattr(f, alias), P)])


OPS["aff.app"] = OPS["map.law"] = _named
OPS["aff.comp"] = lambda f, h, left: f.compose(h, left)
OPS["aff.inv"] = lambda f: f.inverse()
OPS["aff.3pts"] = lambda *a: g.Affine.from_mapping_three_points(*a)
OPS["aff.ell2"] = lambda a, b: g.Affine.from_ellipse_to_ellipse(a, b)
OPS["fig"] = OPS["aff.line"] = lambda f, x, name: getattr(f, name)(x)
OPS["circ.ell"] = lambda c: c.as_ellipse()


# ---- lines
def _do(l):
    d = T(l.direction_offset)
    if not isinstance(d, dict) or set(d) != {"direction", "offset"}:
        return Multi([d, d])
    return Multi([Ang(d["direction"], False), d["offset"]])


OPS["line.do"] = _do
OPS["line.eq"] = lambda l, h: l.is_equal(h)
OPS["line.par"] = lambda l, h: l.is_parallel(h)
OPS["line.perpq"] = lambda l, h: l.is_perpendicular(h)
OPS["line.perp"] = lambda l, M, eh, em: l.perpendicular(M, eh, em)
OPS["line.proj"] = lambda l, M: Multi([T(l.projection, M), T(l.distance, M), T(l.reflection, M)])
OPS["line.rot"] = lambda l, a, O: l.rotate(a.v, O, a.deg)
OPS["line.trans"] = lambda l, v: l.translate(v)
OPS["x.ll"] = lambda l, h: Multi([T(g.intersection_line_line, l, h), T(l.intersection_with_line, h)])
OPS["x.cl"] = lambda c, l: Multi([T(g.intersection_circle_line, c, l), T(c.intersection_with_line, l), T(l.intersection_with_circle, c)])
OPS["x.el"] = lambda c, l: Multi([T(g.intersection_ellipse_line, c, l), T(c.intersection_with_line, l), T(l.intersection_with_ellipse, c)])
OPS["x.cc"] = lambda c, d: Multi([T(g.intersection_circle_circle, c, d), T(c.intersection_with_circle, d)])


# ---- circles
OPS["power"] = lambda c, P: c.power(P)
OPS["rad2"] = lambda c, d: Multi([T(c.radical_center, d), T(c.radical_axis, d)])
OPS["rad3"] = lambda c, d, e: g.radical_center(c, d, e)
OPS["orthq"] = lambda c, d: c.is_orthogonal(d)


def _cangle(c, d):
    a = c.angle(d)
    return a if a is None else Ang(a, False)


OPS["cangle"] = _cangle
OPS["mem"] = lambda c, P: Multi([T(c.includes, P), T(c.contains, P)])
OPS["circAB"] = lambda A, B: g.circleAB(A, B)
OPS["circOA"] = lambda O, A: g.circleOA(O, A)
OPS["circ.eq"] = lambda c, d: c.is_equal(d)
OPS["orth.on"] = lambda c, a, b, arc: c.orthogonal_through_two_points_on_circle(a.v, b.v, arc)
OPS["orth.in"] = lambda c, P, Q, arc: c.orthogonal_through_two_points_in_circle(P, Q, arc)


# ---- ellipses and arcs
def _five(e):
    a, b, al = float(e.rmajor), float(e.rminor), float(e.alpha) * (math.pi / 180 if e.degrees else 1)
    out = []
    for t in (0.3, 1.4, 2.9, 4.0, 5.5):
        x, y = a * math.cos(t), b * math.sin(t)
        out.append((e.center[0] + x * math.cos(al) - y * math.sin(al), e.center[1] + x * math.sin(al) + y * math.cos(al)))
    return out


def _rebuild(e, k):
    q = T(e.equation)
    c = [k * v for v in q.values()] if isinstance(q, dict) else [q] * 6
    S = T(e.shape_matrix)
    r = [T(g.Ellipse.from_equation, *c), T(g.Ellipse.from_center_and_matrix, e.center, S), T(g.Ellipse.from_five_points, *_five(e))]
    return Multi(r + [T(e.is_equal, x) for x in r])


OPS["ell.eq"] = lambda e: e.equation()
OPS["ell.shape"] = lambda e: e.shape_matrix()
OPS["ell.re"] = _rebuild
OPS["ell.fromeq"] = lambda *c: g.Ellipse.from_equation(*c)
OPS["ell.frommat"] = lambda c, S: g.Ellipse.from_center_and_matrix(c, S)
OPS["ell.five"] = lambda P: Multi([T(g.Ellipse.from_five_points, *P), T(g.Ellipse.equation_from_five_points, *P)])
OPS["ell.same"] = lambda e, f: e.is_equal(f)
OPS["ell.path"] = OPS["arc.path"] = lambda e, n: e.path(n)
OPS["arc.ends"] = lambda e: Multi([T(e.starting_point), T(e.ending_point)])


def _pfa(e, A, vec):
    v = [a.v for a in A]
    return e.point_from_angle(vec(v) if vec is not None else v[0], A[0].deg)


OPS["ell.pfa"] = lambda e, A, vec: _pfa(e, A, {"no": None, "list": list, "tuple": tuple, "array": np.array}[vec])
OPS["ell.t"] = lambda e, a: Ang(e.theta2t(a.v, a.deg), False)
OPS["ell.normal"] = lambda e, a: e.normal(a.v)
OPS["ell.diam"] = lambda e, a, cj: e.diameter(a.v, cj)
OPS["ell.mem"] = lambda e, P: Multi([T(e.includes, P), T(e.contains, P)])
OPS["circ.pfa"] = lambda c, a: c.point_from_angle(a.v, a.deg)


def _nnls(A, b):
    """Lawson-Hanson; only a guess of multipliers, which the specification verifies"""
    n = A.shape[1]
    x, P = np.zeros(n), np.zeros(n, bool)
    for _ in range(60):
        w = A.T.dot(b - A.dot(x))
        w[P] = -1
        if P.all() or w.max() < 1e-11:
            break
        P[int(np.argmax(w))] = True
        for _ in range(60):
            s = np.zeros(n)
            s[P] = np.linalg.lstsq(A[:, P], b, rcond=None)[0]
            if s[P].min() > 0:
                x = s
                break
            bad = P & (s <= 0)
            al = min(x[bad] / (x[bad] - s[bad]))
            x = x + al * (s - x)
            P &= x > 1e-13
            x[~P] = 0
            if not P.any():
                break
    return np.maximum(x, 0)


def _weights(P, e):
    al = e.alpha * (math.pi / 180 if e.degrees else 1)
    X = np.array(P, dtype=float) - e.center
    c, s = math.cos(al), math.sin(al)
    z = np.column_stack([(X[:, 0] * c + X[:, 1] * s) / e.rmajor, (-X[:, 0] * s + X[:, 1] * c) / e.rminor])
    return _nnls(np.array([z[:, 0], z[:, 1], z[:, 0]**2, z[:, 1]**2, z[:, 0] * z[:, 1], np.ones(len(z))]), np.array([0, 0, 1.0, 1, 0, 2]))


def _hull(P, *a):
    e = T(g.Ellipse.LownerJohnEllipse, *a)
    if not isinstance(e, g.Ellipse):
        return e, None
    try:
        return e, [float(t) for t in _weights(P, e)]
    except Exception:
        return e, None


def _lj(P, seed):
    np.random.seed(seed)
    return Multi(_hull(P, P))


def _ljb(P, seed, k):
    """the same with k points known to be on the boundary: those with the largest multipliers"""
    A = np.array(sorted({tuple(float(x) for x in p) for p in P}))
    np.random.seed(seed)
    e, w = _hull(A, P)
    if w is None:
        return Multi([e, None])
    top = [j for j in sorted(range(len(w)), key=lambda j: -w[j]) if w[j] > 0.05][:k]
    rest = [j for j in range(len(A)) if j not in top]
    return Multi(_hull(P, A[rest], A[top]))


OPS["lj.b"] = _ljb
OPS["line.inc"] = lambda l, M, strict: Multi([T(l.includes, M, strict), T(l.includes, M, strict, False)] if strict else [T(l.includes, M), T(l.includes, M, False, True)])
OPS["b3"] = lambda P: g.Ellipse.from_boundary3(P)
OPS["b4"] = lambda P: g.Ellipse.from_boundary4(P)
OPS["lj"] = _lj


# ---- triangles
OPS["tri.in"] = lambda t: t.incircle()
OPS["tri.circum"] = lambda t: t.circumcircle()
OPS["tri.ex"] = lambda t: t.excircles()
OPS["tri.malf"] = lambda t: t.malfatti_circles()
OPS["tri.steiner"] = lambda t: t.steiner_ellipse()
OPS["tri.inell"] = lambda t: t.steiner_inellipse()


def _meas(t):
    at = lambda n: T(lambda: getattr(t, n))
    an = lambda n: (lambda x: x if isinstance(x, Exc) else Ang(x, False))(at(n))
    return Multi([at("a"), at("b"), at("c"), at("edges"), an("angleA"), an("angleB"), an("angleC"), at("flatness"), at("orientation"), at("is_acute")])


def _detour(t):
    p, d = t.equal_detour_point()
    return Multi([p, d, [math.dist(p, v) for v in (t.A, t.B, t.C)], [math.dist(t.B, t.C), math.dist(t.C, t.A), math.dist(t.A, t.B)]])


OPS["tri.meas"] = _meas
OPS["tri.contains"] = lambda t, M: t.contains(M)
OPS["tri.orthic"] = lambda t: t.orthic_triangle()
OPS["tri.detour"] = _detour


# ---- Steiner chains
OPS["steiner"] = lambda c, n, phi, shift: Multi([T(g.SteinerChain, c, n, phi, shift), [Ang((i + shift) * 2 * math.pi / n, False) for i in range(n)]])


def _uni(n):
    L = T(g.unimodular_matrices, n)
    if isinstance(L, Exc):
        return Multi([L, False])
    try:
        A = [np.asarray(m) for m in L]
        ok = all(m.dtype.kind in "iu" for m in A)
        if all(m.shape == (2, 2) and (m == np.round(m)).all() for m in A):
            return Multi([Raw({"t": "imats", "v": [[int(x) for x in m.ravel()] for m in A]}), ok])
    except Exception:
        pass
    return Multi([L, False])


OPS["uni"] = _uni


# ---- random points
def _rpts(f, n, where, seed):
    np.random.seed(seed)
    return f.random_points(n, where)


OPS["rpts"] = _rpts


# ---- arguments
import argtab


def _build(name, kinds, explicit):
    r = T(argtab.build, name, kinds)
    return Multi([r, T(argtab.reference, name, explicit) if not isinstance(r, Exc) else None])


OPS["build"] = _build


# ---- objects
import io, re, contextlib
from enc import FIELDS, Omitted, Mat
NUMBER = re.compile(r"(?<![A-Za-z_])[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def numbers(f):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        r = f()
    return Raw({"t": "vec", "v": [rat(float(x)) for x in NUMBER.findall(r if isinstance(r, str) else b.getvalue())]})


def told(o):
    """the sentences of show"""
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        o.show()
    s = b.getvalue().lower()
    m = re.search(r"origin\s+`?([ab])\b", s)
    return [Raw({"t": "str", "v": k}) for k in ["segment", "infinite", "half-line", "flat", "almost", "orthogonal", "degree", "radian"] if k in s] \
        + ([Raw({"t": "str", "v": "from " + m.group(1)})] if m else [])


def _obj(n, style, given):
    names, cls = FIELDS[n], getattr(g, n)
    first = {"positional": len(names), "keyword": 0, "mixed": 1}[style]
    pos, given = [], [x.v if isinstance(x, Mat) else x for x in given]
    for x in given[:first]:
        if isinstance(x, Omitted):
            break
        pos.append(x)
    key = {k: x for k, x in list(zip(names, given))[len(pos):] if not isinstance(x, Omitted)}
    o = cls(*pos, **key)
    held = [getattr(o, k) for k in names]
    d = o.orthogonal if n == "Projection" else [o.a, o.b, o.c, o.d] if n == "Mobius" else None
    arrays = all(isinstance(h, np.ndarray) and h.dtype.kind == ("c" if n == "Mobius" else "f")
                 for h, x in zip(held, given) if isinstance(x, (tuple, list, np.ndarray)))
    return Multi([Multi(held), d, arrays, numbers(o.show) if hasattr(o, "show") else None, numbers(lambda: re.sub('0x[0-9a-f]+', '', str(o))),
                  told(o) if hasattr(o, "show") else None])


OPS["obj"] = _obj
