------------------------------- MODULE PArgs -------------------------------
(***************************************************************************)
(* P24: which arguments are refused.  A call is its name and, for each     *)
(* parameter, the kind of the argument; the signature of every callable    *)
(* gives each parameter a type, and a type accepts some kinds.             *)
(***************************************************************************)
EXTENDS PPoints, TLC
Sig == [
  Line |-> <<"point", "point", "flag=T", "flag=T">>, Circle |-> <<"point", "positive">>, Arc |-> <<"point", "positive", "number", "number", "flag=T">>,
  Ellipse |-> <<"point", "positive", "positive", "number", "flag=T">>, Inversion |-> <<"point", "number">>, Triangle |-> <<"point", "point", "point">>,
  Affine |-> <<"matrix", "point">>, Mobius |-> <<"matrix">>, Reflection |-> <<"line">>, Projection |-> <<"line", "line?">>,
  Rotation |-> <<"point", "number", "flag=T">>, Shear |-> <<"point", "point", "positive", "shear-angle", "flag=T">>,
  ScalingXY |-> <<"point", "number", "number">>, Homothety |-> <<"point", "number">>, Scaling |-> <<"point", "point", "number">>,
  circleAB |-> <<"point", "point">>, circleOA |-> <<"point", "point">>, radical_center |-> <<"circle", "circle", "circle">>, mid_circles |-> <<"circle", "circle">>,
  intersection_circle_line |-> <<"circle", "line">>, intersection_circle_circle |-> <<"circle", "circle">>, intersection_ellipse_line |-> <<"ellipse", "line">>,
  intersection_line_line |-> <<"line", "line", "fixed=F">>, from_swapping_two_circles |-> <<"circle", "circle", "flag=T">>, from_fixing_two_circles |-> <<"circle", "circle">>,
  from_fixing_three_circles |-> <<"circle", "circle", "circle">>, on_circle |-> <<"circle">>, SteinerChain |-> <<"circle", "count", "coef", "number">>,
  unimodular_matrices |-> <<"count">>, from_mapping_one_circle |-> <<"circle", "circle">>, from_ellipse_to_ellipse |-> <<"ellipse", "ellipse">>,
  cross_ratio |-> <<"point", "point", "point", "point">>, from_five_points |-> <<"point", "point", "point", "point", "point">>,
  from_equation |-> <<"coef", "coef", "coef", "coef", "coef", "coef">> ]
Six == <<"point", "point", "point", "point", "point", "point">>
Sig2 == [n \in {"Affine.from_mapping_three_points", "Mobius.from_mapping_three_points"} |-> Six]
One(t, S) == [n \in S |-> <<t>>]
Sig3 == One("count", {"circle.random_points", "ellipse.random_points", "triangle.random_points"}) @@ One("count=100", {"ellipse.path", "arc.path"})
   @@ One("point", {"line.projection", "line.distance", "line.reflection", "line.translate", "circle.includes", "circle.contains", "circle.power",
        "ellipse.includes", "ellipse.contains", "inversion.invert", "triangle.contains", "mobius.transform", "reflection.transform", "projection.transform", "reflection.reflect", "projection.project", "projection.oblique"})
   @@ One("points", {"affine.transform", "rotation.transform", "rotation.rotate", "shear.transform", "scalingxy.transform",
        "homothety.transform", "scaling.transform"})
   @@ One("line", {"line.is_equal", "line.is_parallel", "line.is_perpendicular", "circle.intersection_with_line",
        "ellipse.intersection_with_line", "inversion.invert_line", "affine.transform_line", "mobius.transform_line", "reflection.transform_line", "rotation.transform_line"})
   @@ One("circle", {"line.intersection_with_circle", "circle.is_equal", "circle.radical_center", "circle.radical_axis", "circle.is_orthogonal", "circle.angle",
        "circle.intersection_with_circle", "inversion.invert_circle", "mobius.transform_circle", "reflection.transform_circle",
        "rotation.transform_circle", "homothety.transform_circle", "scaling.scale_circle"})
   @@ One("ellipse", {"line.intersection_with_ellipse", "ellipse.is_equal", "affine.transform_ellipse", "rotation.transform_ellipse"})
   @@ One("inversion", {"line.invert"}) @@ One("number", {"ellipse.normal", "mobius.gpower"})
   @@ [n \in {"affine.compose"} |-> <<"affine", "open=T">>] @@ [n \in {"mobius.compose"} |-> <<"mobius", "open=T">>]
   @@ ("inversion.compose" :> <<"inversion", "flag=T">>) @@ ("line.perpendicular" :> <<"point", "flag=F", "flag=T">>) @@ ("line.rotate" :> <<"number", "point", "flag=T">>)
   @@ ("line.includes" :> <<"point", "open=F", "flag=T">>) @@ ("line.intersection_with_line" :> <<"line", "fixed=F">>)
   @@ ("circle.point_from_angle" :> <<"number", "flag=T">>) @@ ("circle.orthogonal_in" :> <<"point", "point", "flag=F">>) @@ ("circle.orthogonal_on" :> <<"number", "number", "flag=F">>)
   @@ ("ellipse.theta2t" :> <<"number", "flag=T">>) @@ ("ellipse.diameter" :> <<"number", "flag=F">>) @@ ("ellipse.point_from_angle" :> <<"number*", "flag=T">>)
Sigs == Sig @@ Sig2 @@ Sig3
Names == DOMAIN Sigs

Figures == {"a-line", "a-circle", "an-ellipse", "a-triangle", "an-inversion", "an-affine-map", "a-mobius-map", "an-arc", "a-list-of-lines", "a-pair", "a-class", "none", "number", "string"}
NotNumbers == {"none", "numeric-string", "list", "complex", "pair"}
MatrixForms == {"list-of-one-pair", "list-of-pairs", "tuple-of-pairs", "int-matrix-of-points", "float-matrix-of-points"}   \* one point per row
Good(t) ==
  CASE t = "point" -> {"pair-of-ints", "pair-of-floats", "list-of-ints", "list-of-floats", "int-array", "float-array", "mixed-pair", "numpy-scalars"}
    [] t = "number" -> {"int", "float", "numpy-float", "numpy-int", "negative"}
    [] t = "coef" -> {"int", "float", "numpy-float"}
    [] t = "points" -> {"pair-of-ints", "pair-of-floats", "list-of-ints", "list-of-floats", "int-array", "float-array", "mixed-pair", "numpy-scalars"} \cup MatrixForms
    [] t = "positive" -> {"int", "float", "numpy-float"}
    [] t = "number*" -> {"int", "float", "numpy-float", "list", "array", "pair"}
    [] t \in {"flag=T", "flag=F", "open=T", "open=F"} -> {"true", "false", "omitted"}
    [] t = "fixed=F" -> {"false", "omitted"}
    [] t = "count=100" -> {"positive-int", "omitted"}
    [] t = "count" -> {"positive-int"}
    [] t = "matrix" -> {"rows", "tuple-rows", "int-matrix", "float-matrix"}
    [] t = "shear-angle" -> {"thirty", "minus-thirty", "one-half", "right", "minus-right"}
    [] t = "line?" -> {"ok", "none"}
    [] OTHER -> {"ok"}
Bad(t) ==
  CASE t = "point" -> {"none", "number", "string", "triple", "single", "pair-of-strings", "half-string", "half-none", "pair-of-complex", "pair-of-pairs", "matrix", "dict",
                       "set", "empty", "three-array", "complex-array", "string-array"}
    [] t = "points" -> {"none", "number", "string", "triple", "single", "pair-of-complex", "dict", "set", "empty", "three-array", "three-columns", "ragged",
                        "one-column", "one-by-one", "string-matrix", "stack-of-matrices", "stack-of-points"}
    [] t \in {"number", "coef"} -> NotNumbers
    [] t = "positive" -> NotNumbers \cup {"zero", "minus-one", "minus-half", "zero-float"}
    [] t = "number*" -> {"none", "numeric-string", "dict", "set", "complex-array", "matrix"}
    [] t \in {"flag=T", "flag=F"} -> {"none", "one", "string", "zero"}
    [] t \in {"open=T", "open=F", "fixed=F"} -> {}        \* not a documented refusal
    [] t \in {"count", "count=100"} -> {"none", "half-integral", "integral-float", "numeric-string", "list", "zero", "minus-one"}
    [] t = "matrix" -> {"none", "number", "vector", "three-rows", "three-columns", "ragged", "string-matrix", "one-by-one"}
    [] t = "shear-angle" -> NotNumbers \cup {"ninety", "minus-ninety", "hundred", "minus-hundred"}
    [] t = "line" -> Figures \ {"a-line"}
    [] t = "line?" -> Figures \ {"a-line", "none"}
    [] t = "circle" -> Figures \ {"a-circle", "an-arc"}      \* an arc has the attributes of a circle
    [] t = "ellipse" -> Figures \ {"an-ellipse", "a-circle"}
    [] t = "inversion" -> Figures \ {"an-inversion"}
    [] t = "affine" -> Figures \ {"an-affine-map"}
    [] t = "mobius" -> Figures \ {"a-mobius-map"}
\* pairs of points that must be distinct: a later point may be an earlier one again
Pairs(S) == {<<i, j>> \in S \X S : i < j}
Distinct == [n \in {"Line", "circleAB", "circleOA", "circle.orthogonal_in"} |-> {<<1, 2>>}] @@ ("cross_ratio" :> Pairs(1..4)) @@ ("from_five_points" :> Pairs(1..5))
            @@ ("Mobius.from_mapping_three_points" :> Pairs(1..3) \cup Pairs(4..6))
Same == <<"same-as-1", "same-as-2", "same-as-3", "same-as-4", "same-as-5">>
Coincident(n, K) == \E i \in DOMAIN K : K[i] \in {Same[j] : j \in 1..5}
ShearBad(n, K) == n = "Shear" /\ K[5] = "false" /\ K[4] \in {"thirty", "minus-thirty", "right", "minus-right"}
\* the documented default of an argument that is left out (only the last ones can be)
DefaultOf(t) == CASE t \in {"flag=T", "open=T"} -> "true" [] t \in {"flag=F", "open=F", "fixed=F"} -> "false" [] t = "count=100" -> "hundred" [] OTHER -> "none"
Explicit(n, K) == [i \in DOMAIN K |-> IF K[i] = "omitted" THEN DefaultOf(Sigs[n][i]) ELSE K[i]]
WellFormed(n, K) == (\A i \in DOMAIN K : K[i] \in Good(Sigs[n][i])) /\ ~ShearBad(n, K)
\* build : name, kinds, the kinds with the defaults of the arguments left out -> << outcome, outcome of the same call with the arguments in another accepted form >>
PostBuild(e) ==
  LET n == e.a[1].v  K == [i \in 1..Len(e.a[2].v) |-> e.a[2].v[i].v]  r == e.r.v IN
  IF WellFormed(n, K) THEN
    Chk(r[1].t # "raise", "well-formed-arguments-accepted")
    \cup (IF r[1].t = "raise" THEN {} ELSE Chk(r[1] = r[2], "same-result-for-every-form"))
  ELSE Chk(r[1].t = "raise" \/ (Coincident(n, K) /\ r[1].t = "none"), "ill-formed-arguments-refused")
PArgsOps == {"build"}
=============================================================================
