"""The callables of spec/PArgs.tla: the function and, for every parameter, a
well-formed default; and the concrete values of the kinds of arguments."""
import math
import numpy as np
import planegeometry.geometry as g

P, Q, S = (1, 2), (4, -1), (0, 5)
L = lambda: g.Line(P, Q)
L2 = lambda: g.Line((0, 0), (1, 3))
C = lambda: g.Circle(P, 3)
C2 = lambda: g.Circle((9, 1), 2)
C3 = lambda: g.Circle((0, 12), 2)
E = lambda: g.Ellipse(P, 3, 2, 30)
E2 = lambda: g.Ellipse((0, 0), 5, 1, 0)
Tr = lambda: g.Triangle(P, Q, S)
I = lambda: g.Inversion((0, 0), 4)
A = lambda: g.Affine([[1, 2], [3, 4]], P)
M = lambda: g.Mobius([[1, 2], [3, 4j]])
Ar = lambda: g.Arc(P, 2, 10, 90)
Rf = lambda: g.Reflection(L())
Rt = lambda: g.Rotation(P, 30)
SIX = [P, Q, S, (0, 0), (1, 0), (0, 1)]
m = lambda o, name: lambda *a: getattr(o(), name)(*a)
TAB = {
    "Line": (lambda *a: g.Line(*a), [P, Q, True, True]),
    "Circle": (lambda *a: g.Circle(*a), [P, 3]),
    "Arc": (lambda *a: g.Arc(*a), [P, 3, 10, 80, True]),
    "Ellipse": (lambda *a: g.Ellipse(*a), [P, 3, 2, 10, True]),
    "Inversion": (lambda *a: g.Inversion(*a), [P, 3]),
    "Triangle": (lambda *a: g.Triangle(*a), [P, Q, S]),
    "Affine": (lambda *a: g.Affine(*a), [((1, 2), (3, 4)), P]),
    "Mobius": (lambda *a: g.Mobius(*a), [((1, 2), (3, 4))]),
    "Reflection": (lambda *a: g.Reflection(*a), [L]),
    "Projection": (lambda *a: g.Projection(*a), [L, L2]),
    "Rotation": (lambda *a: g.Rotation(*a), [P, 3, True]),
    "Shear": (lambda *a: g.Shear(*a), [P, Q, 2, None, True]),
    "ScalingXY": (lambda *a: g.ScalingXY(*a), [P, 3, 2]),
    "Homothety": (lambda *a: g.Homothety(*a), [P, 3]),
    "Scaling": (lambda *a: g.Scaling(*a), [P, Q, 3]),
    "circleAB": (lambda *a: g.circleAB(*a), [P, Q]),
    "circleOA": (lambda *a: g.circleOA(*a), [P, Q]),
    "radical_center": (lambda *a: g.radical_center(*a), [C, C2, C3]),
    "mid_circles": (lambda *a: g.mid_circles(*a), [C, C2]),
    "intersection_circle_line": (lambda *a: g.intersection_circle_line(*a), [C, L]),
    "intersection_circle_circle": (lambda *a: g.intersection_circle_circle(*a), [C, lambda: g.Circle(Q, 2)]),
    "intersection_ellipse_line": (lambda *a: g.intersection_ellipse_line(*a), [E, L]),
    "intersection_line_line": (lambda *a: g.intersection_line_line(*a), [L, L2, False]),
    "from_swapping_two_circles": (lambda *a: g.Inversion.from_swapping_two_circles(*a), [C, C2, True]),
    "from_fixing_two_circles": (lambda *a: g.Inversion.from_fixing_two_circles(*a), [C, C2]),
    "from_fixing_three_circles": (lambda *a: g.Inversion.from_fixing_three_circles(*a), [C, C2, C3]),
    "on_circle": (lambda *a: g.Inversion.on_circle(*a), [C]),
    "SteinerChain": (lambda *a: g.SteinerChain(*a), [C, 4, 0, 0]),
    "unimodular_matrices": (lambda *a: len(g.unimodular_matrices(*a)), [4]),
    "Affine.from_mapping_three_points": (lambda *a: g.Affine.from_mapping_three_points(*a), SIX),
    "Mobius.from_mapping_three_points": (lambda *a: g.Mobius.from_mapping_three_points(*a), SIX),
    "from_mapping_one_circle": (lambda *a: g.Mobius.from_mapping_one_circle(*a), [C, C2]),
    "from_ellipse_to_ellipse": (lambda *a: g.Affine.from_ellipse_to_ellipse(*a), [E, E2]),
    "cross_ratio": (lambda *a: g.cross_ratio(*a), [P, Q, S, (7, 7)]),
    "from_five_points": (lambda *a: g.Ellipse.from_five_points(*a), [(2, 0), (0, 1), (-2, 0), (0, -1), (1, 1)]),
    "from_equation": (lambda *a: g.Ellipse.from_equation(*a), [1, 0, 4, 0, 0, -4]),
    "circle.random_points": (lambda n: g.Circle(P, 3).random_points(n).shape[0], [4]),
    "ellipse.random_points": (lambda n: E().random_points(n).shape[0], [4]),
    "triangle.random_points": (lambda n: Tr().random_points(n).shape[0], [4]),
    "ellipse.path": (m(E, "path"), [4]),
    "arc.path": (m(Ar, "path"), [4]),
    "line.includes": (m(L, "includes"), [S, False, True]),
    "line.perpendicular": (m(L, "perpendicular"), [S, True, False]),
    "line.projection": (m(L, "projection"), [S]),
    "line.distance": (m(L, "distance"), [S]),
    "line.reflection": (m(L, "reflection"), [S]),
    "line.rotate": (m(L, "rotate"), [30, S, True]),
    "line.translate": (m(L, "translate"), [S]),
    "line.invert": (m(L, "invert"), [I]),
    "line.is_equal": (m(L, "is_equal"), [L2]),
    "line.is_parallel": (m(L, "is_parallel"), [L2]),
    "line.is_perpendicular": (m(L, "is_perpendicular"), [L2]),
    "line.intersection_with_circle": (m(L, "intersection_with_circle"), [C]),
    "line.intersection_with_ellipse": (m(L, "intersection_with_ellipse"), [E]),
    "line.intersection_with_line": (m(L, "intersection_with_line"), [L2, False]),
    "circle.is_equal": (m(C, "is_equal"), [C2]),
    "circle.includes": (m(C, "includes"), [P]),
    "circle.contains": (m(C, "contains"), [P]),
    "circle.point_from_angle": (m(C, "point_from_angle"), [3, True]),
    "circle.orthogonal_in": (m(C, "orthogonal_through_two_points_in_circle"), [(1, 3), (2, 2), False]),
    "circle.orthogonal_on": (m(C, "orthogonal_through_two_points_on_circle"), [1, 2, False]),
    "circle.power": (m(C, "power"), [P]),
    "circle.radical_center": (m(C, "radical_center"), [C2]),
    "circle.radical_axis": (m(C, "radical_axis"), [C2]),
    "circle.is_orthogonal": (m(C, "is_orthogonal"), [C2]),
    "circle.angle": (m(C, "angle"), [C2]),
    "circle.intersection_with_line": (m(C, "intersection_with_line"), [L]),
    "circle.intersection_with_circle": (m(C, "intersection_with_circle"), [C2]),
    "ellipse.is_equal": (m(E, "is_equal"), [E2]),
    "ellipse.normal": (m(E, "normal"), [3]),
    "ellipse.includes": (m(E, "includes"), [P]),
    "ellipse.contains": (m(E, "contains"), [P]),
    "ellipse.point_from_angle": (m(E, "point_from_angle"), [3, True]),
    "ellipse.theta2t": (m(E, "theta2t"), [3, True]),
    "ellipse.diameter": (m(E, "diameter"), [3, True]),
    "ellipse.intersection_with_line": (m(E, "intersection_with_line"), [L]),
    "inversion.invert": (m(I, "invert"), [P]),
    "inversion.invert_circle": (m(I, "invert_circle"), [C]),
    "inversion.invert_line": (m(I, "invert_line"), [L]),
    "inversion.compose": (m(I, "compose"), [lambda: g.Inversion(P, 3), True]),
    "triangle.contains": (m(Tr, "contains"), [P]),
    "affine.compose": (m(A, "compose"), [lambda: g.Affine([[2, 2], [3, 4]], P), True]),
    "affine.transform_line": (m(A, "transform_line"), [L]),
    "affine.transform_ellipse": (m(A, "transform_ellipse"), [E]),
    "mobius.compose": (m(M, "compose"), [lambda: g.Mobius([[2, 2], [3, 4]]), True]),
    "mobius.gpower": (m(M, "gpower"), [2]),
    "mobius.transform": (m(M, "transform"), [P]),
    "mobius.transform_circle": (m(M, "transform_circle"), [C]),
    "mobius.transform_line": (m(M, "transform_line"), [L]),
    "reflection.transform": (m(Rf, "transform"), [P]),
    "reflection.transform_circle": (m(Rf, "transform_circle"), [C]),
    "reflection.transform_line": (m(Rf, "transform_line"), [L]),
    "rotation.transform_circle": (m(Rt, "transform_circle"), [C]),
    "rotation.transform_ellipse": (m(Rt, "transform_ellipse"), [E]),
    "rotation.transform_line": (m(Rt, "transform_line"), [L]),
    "homothety.transform_circle": (m(lambda: g.Homothety(P, 2), "transform_circle"), [C]),
    "scaling.scale_circle": (m(lambda: g.Scaling(P, Q, 2), "scale_circle"), [C]),
    "projection.transform": (m(lambda: g.Projection(L(), None), "transform"), [S]),
    "affine.transform": (m(A, "transform"), [S]),
    "reflection.reflect": (m(Rf, "reflect"), [S]),
    "projection.project": (m(lambda: g.Projection(L(), None), "project"), [S]),
    "projection.oblique": (m(lambda: g.Projection(L(), L2()), "transform"), [S]),
    "rotation.transform": (m(Rt, "transform"), [S]),
    "rotation.rotate": (m(Rt, "rotate"), [S]),
    "shear.transform": (m(lambda: g.Shear(P, Q, 2, 30), "transform"), [S]),
    "scalingxy.transform": (m(lambda: g.ScalingXY(P, 3, 2), "transform"), [S]),
    "homothety.transform": (m(lambda: g.Homothety(P, 2), "transform"), [S]),
    "scaling.transform": (m(lambda: g.Scaling(P, Q, 2), "transform"), [S]),
}
FIGS = {"a-line": L, "a-circle": C, "an-ellipse": E, "a-triangle": Tr, "an-inversion": I, "an-affine-map": A, "a-mobius-map": M, "an-arc": Ar,
        "a-list-of-lines": lambda: [L()], "a-pair": lambda: (1, 2), "a-class": lambda: g.Line}
KINDS = {
    "ok": lambda d: d() if callable(d) else d,
    "pair-of-ints": lambda d: tuple(int(x) for x in d), "pair-of-floats": lambda d: tuple(float(x) for x in d),
    "list-of-ints": lambda d: [int(x) for x in d], "list-of-floats": lambda d: [float(x) for x in d],
    "int-array": lambda d: np.array(d, dtype=int), "float-array": lambda d: np.array(d, dtype=float),
    "mixed-pair": lambda d: (int(d[0]), float(d[1])), "numpy-scalars": lambda d: (np.float64(d[0]), np.int64(d[1])),
    "none": lambda d: None, "number": lambda d: 3, "string": lambda d: "ab", "triple": lambda d: tuple(d) + (1,), "single": lambda d: (d[0],),
    "pair-of-strings": lambda d: ("1", "2"), "half-string": lambda d: (1, "2"), "half-none": lambda d: (1, None), "pair-of-complex": lambda d: (1j, 2),
    "pair-of-pairs": lambda d: ((1, 2), (3, 4)), "matrix": lambda d: np.eye(2), "dict": lambda d: {0: 1, 1: 2}, "set": lambda d: {1, 2},
    "empty": lambda d: (), "three-array": lambda d: np.array([1.0, 2, 3]), "complex-array": lambda d: np.array([1j, 2]), "string-array": lambda d: np.array(["1", "2"]),
    "int": lambda d: int(d), "float": lambda d: float(d), "numpy-float": lambda d: np.float64(d), "negative": lambda d: -float(abs(d)) - 1, "numpy-int": lambda d: np.int64(int(d)),
    "numeric-string": lambda d: "1", "list": lambda d: [1], "complex": lambda d: 1j, "array": lambda d: np.array([1.0, 2]), "pair": lambda d: (1, 2),
    "zero": lambda d: 0, "minus-one": lambda d: -1, "minus-half": lambda d: -0.5, "zero-float": lambda d: 0.0,
    "true": lambda d: True, "false": lambda d: False, "one": lambda d: 1,
    "half-integral": lambda d: 2.5, "integral-float": lambda d: 3.0, "positive-int": lambda d: d,
    "thirty": lambda d: 30, "minus-thirty": lambda d: -30, "one-half": lambda d: 0.5, "right": lambda d: math.pi / 2, "minus-right": lambda d: -math.pi / 2,
    "ninety": lambda d: 90, "minus-ninety": lambda d: -90, "hundred": lambda d: 100, "minus-hundred": lambda d: -100.0,
    "rows": lambda d: [list(r) for r in d], "int-matrix": lambda d: np.array(d), "float-matrix": lambda d: np.array(d, dtype=float), "tuple-rows": lambda d: d,
    "vector": lambda d: [1, 2], "three-rows": lambda d: [[1, 2], [3, 4], [5, 6]], "three-columns": lambda d: [[1, 2, 3], [4, 5, 6]], "ragged": lambda d: [[1], [2, 3]],
    "one-column": lambda d: [[1], [2]], "stack-of-matrices": lambda d: np.ones((2, 2, 2)), "stack-of-points": lambda d: [[[1, 2]]],
    "array-of-one-pair": lambda d: np.array([d], dtype=float), "array-of-pairs": lambda d: np.array([d, (3, 4), (0, 0.5)], dtype=float),
    "list-of-one-pair": lambda d: [list(d)], "list-of-pairs": lambda d: [list(d), (3, 4), [0, 0.5]], "tuple-of-pairs": lambda d: (tuple(d), (3, 4), (0, 0.5)),
    "int-matrix-of-points": lambda d: np.array([d, P], dtype=int), "float-matrix-of-points": lambda d: np.array([d, P], dtype=float),
    "string-matrix": lambda d: [["a", "b"], ["c", "d"]], "one-by-one": lambda d: [[1]],
}
for _k, _f in FIGS.items():
    KINDS[_k] = lambda d, _f=_f: _f()


def build(name, kinds):
    f, ds = TAB[name]
    args = []
    for d, k in zip(ds, kinds):
        if k == "omitted":
            break
        args.append(args[int(k[-1]) - 1] if k.startswith("same-as-") else KINDS[k](d))
    return f(*args)


def reference(name, kinds):
    """the same call with the arguments in another accepted form"""
    f, ds = TAB[name]
    alt = {"pair-of-ints": "float-array", "pair-of-floats": "list-of-ints", "list-of-ints": "pair-of-floats", "list-of-floats": "int-array", "int-array": "list-of-floats",
           "float-array": "pair-of-ints", "mixed-pair": "list-of-ints", "numpy-scalars": "pair-of-floats", "int": "float", "float": "int", "numpy-float": "int", "numpy-int": "float",
           "list-of-one-pair": "array-of-one-pair", "list-of-pairs": "tuple-of-pairs", "tuple-of-pairs": "array-of-pairs", "int-matrix-of-points": "float-matrix-of-points", "float-matrix-of-points": "int-matrix-of-points",
           "rows": "float-matrix", "int-matrix": "tuple-rows", "float-matrix": "rows", "tuple-rows": "int-matrix"}
    return build(name, [alt.get(k, k) if not (alt.get(k) == "int" and float(d) != int(d)) else k for k, d in zip(kinds, ds)])
