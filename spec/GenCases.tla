----------------------------- MODULE GenCases -----------------------------
(***************************************************************************)
(* Abstract cases of the construction operations. Every case is one point  *)
(* of a finite abstract domain (angles in degrees, weights in eighths,     *)
(* counts, degrees, seeds); the replay turns it into numbers.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Family, NSeeds
VARIABLE case
Seeds == 0 .. NSeeds - 1

\* angles an arc may span, around every quarter-turn boundary
Sweeps == {1, 10, 45, 60, 89, 90, 91, 135, 179, 180, 181, 225, 269, 270, 271, 300, 359, 360}
Starts == {-270, -90, -30, 0, 30, 45, 90, 180, 200}
Radii == {<<8, 8>>, <<16, 24>>, <<40, 8>>, <<1, 1>>, <<8, 64>>, <<800, 800>>}    \* eighths

MapKinds == {"identity", "translation", "scale", "rotation", "rotationAt", "reflection", "reflectionAt", "basis", "setters", "elements", "each", "projective", "singular", "shear", "antisym"}

\* calls and what is done to their arguments: the replay starts from a sensible call and spoils (or not) one thing
Objects == {"good", "degree0", "degreeneg", "noknots", "unsorted", "nopoints", "morepoints", "fewerpoints", "moreknots", "fewerknots"}
SObjects == Objects \cup {"ragged", "raggedlast", "unsortedv", "noknotsv", "degree0v", "morecolumns", "moreknotsv"}
Params == {"good", "first", "last", "knot", "below", "above", "farbelow", "farabove", "unsorted"}
SParams == {"good", "first", "last", "below", "above", "belowv", "abovev", "farabove", "farbelowv"}
ArgSpoils ==
    ("objects" :> [f : {"Check", "CheckB", "CheckZ"}, k : Objects]) @@
    ("sobjects" :> [f : {"SCheck", "SCheckB", "SCheckZ"}, k : SObjects]) @@
    ("params" :> [f : {"Point", "CornerCut", "Curvature", "Torsion", "Normal", "Binormal", "BPoint", "ZBernstein", "ZCasteljau", "ZQuad"}, k : Params]) @@
    ("ders" :> [f : {"Ders", "BDers", "BDersAll"}, k : Params \cup {"count0", "countneg"}]) @@
    ("sparams" :> [f : {"SPoint", "SDer1", "SCurvature", "SNormal", "SBPoint", "SZCasteljau"}, k : SParams]) @@
    ("sders" :> [f : {"SDers", "SBDers", "SBDersAll"}, k : SParams \cup {"count0", "countneg"}]) @@
    ("basis" :> [f : {"Horner", "Bernstein", "AllBernstein", "Multiplicity", "Span", "Basis", "BasisDers", "BasisDer1", "One", "OneDers", "All", "Continuity", "KvClampInsert"},
                 k : Params \cup {"degreeneg", "degree0", "degree8", "short", "long", "empty", "indexneg", "indexhigh", "order", "reversed"}]) @@
    ("ops" :> [f : {"InsertKnot", "RemoveKnot", "Refine", "Elevate", "Moebius", "Extract", "RemovalError", "RemoveErr", "Reposition", "WeightMod", "NeighborMod", "Warp", "Flatten", "Bend", "Constrain"},
                 k : {"good", "good2", "below", "above", "below2", "above2", "count0", "countneg", "empty", "zerovec", "zero1", "zero2", "same", "reversed", "indexneg", "indexhigh", "indexlast", "short", "long", "neg", "first", "last", "nonknot"}]) @@
    ("make" :> [f : {"Line", "Hermite", "Arc", "ConicOne", "ConicOpen", "Interp", "InterpTan", "CubicLocal", "LeastSquares", "WLeastSquares", "ErrApprox", "FitConic", "FitCubic", "Rays"},
                 k : {"good", "good2", "zerovec", "zerovec2", "same", "few", "none", "short", "long", "short2", "degree0", "degreeneg", "degree8", "count0", "countneg", "zero1", "zero2", "neg", "reversed", "equal", "over", "indexneg", "indexhigh", "indexhigh2"}]) @@
    ("smake" :> [f : {"SInsert", "SRemove", "SRefine", "SElevate", "Cylinder", "Ruled", "Revolved", "SInterp", "SLocal", "SApprox"},
                 k : {"good", "good2", "first", "last", "nonknot", "below", "above", "count0", "countneg", "empty", "zerovec", "zerovec2", "zero1", "zero2", "neg", "reversed", "equal", "domain", "none", "norow", "ragged", "degreeneg", "degree8", "degree0", "few", "few2", "degree8v"}])

Cases ==
  CASE Family = "line" -> [seed : Seeds]
    [] Family = "arc" -> [a0 : Starts, sweep : Sweeps, r : Radii, frame : 0 .. 3]
    \* a conic arc: weight of the middle control point (eighths), angle at it, how far the given point is along (eighths)
    [] Family = "conic" -> [w : {-7, -6, -4, -2, -1, 1, 2, 4, 6, 8, 12, 32}, ang : {20, 45, 61, 90, 91, 120, 150, 170}, at : {1, 2, 4, 5, 7}, seed : Seeds]
    [] Family = "conicinf" -> [s : {-16, -8, -3, 2, 8, 20}, at : {1, 2, 4, 5, 7}, seed : Seeds]
    [] Family = "hermite" -> [n : 4 .. 10, kind : {"open", "closed", "cycle"}, seed : Seeds]
    [] Family = "interp" -> UNION {[p : {p}, n : p + 1 .. p + 9, par : {"chord", "given", "skew"}, seed : Seeds] : p \in 1 .. 7}
    [] Family = "interptan" -> UNION {[p : {p}, n : p + 1 .. p + 7, f : {4, 8, 20}, seed : Seeds] : p \in 2 .. 5}
    [] Family = "local" -> [n : 5 .. 12, kind : {"generic", "planar", "line", "corner", "even"}, seed : Seeds]
    [] Family = "lsq" -> UNION {{[p |-> p, n |-> n, m |-> m, seed |-> s] : s \in Seeds, m \in {n + 1, n + 2, n + 6, 3 * n}} : p \in 1 .. 5, n \in 2 .. 9} 
    [] Family = "wlsq" -> {[p |-> p, n |-> n, m |-> m, k |-> k, seed |-> s] : s \in Seeds, p \in 1 .. 4, n \in 5 .. 8, m \in {12, 17},
                            k \in {"plain", "ends", "tangents", "both"}}
    \* surfaces: the curves they are made of are chosen by index from the enumerated shapes (a, b), plain or rational (k)
    [] Family = "bilinear" -> [kind : {"generic", "flat", "twisted", "triangle", "far"}, seed : Seeds]
    [] Family = "cylinder" -> [a0 : Starts, sweep : Sweeps, r : {1, 8, 20, 200}, h : {1, 8, 50}, frame : 0 .. 2]
    [] Family = "ruled" -> [a : 1 .. 24, b : 1 .. 24, k : 0 .. 3, seed : Seeds]
    [] Family = "revolved" -> [a : 1 .. 24, sweep : Sweeps, frame : 0 .. 2, len : {1, 8, 24}, k : {"off", "touch", "rat", "skew"}]
    [] Family = "nuscale" -> [a : 1 .. 12, b : 1 .. 12, f : {<<8, 8, 8>>, <<4, 16, 8>>, <<-8, 8, 24>>, <<1, 2, 3>>}, seed : Seeds]
    [] Family = "sweep" -> [a : 1 .. 24, b : 1 .. 24, k : 0 .. 1, seed : Seeds]
    [] Family = "profsweep" -> [a : 1 .. 24, b : 1 .. 24, q : 0 .. 3, n : {1, 2, 3, 5, 8}, k : {"line", "uneven", "planar", "space", "rat", "helix"}, seed : Seeds]
    [] Family = "loft" -> UNION {[a : 1 .. 24, q : {q}, n : {0, 1, 2, 4}, kv : BOOLEAN, k : {"alike", "rat", "degrees", "knots", "all"}, seed : Seeds] : q \in 1 .. 4}
    [] Family = "gordon" -> [pu : 1 .. 4, pv : 1 .. 4, m : 0 .. 3, n : 0 .. 3, k : {"alike", "degrees", "moved", "raised", "vraised", "knots"}, seed : Seeds]
    [] Family = "coons" -> [a : 1 .. 24, b : 1 .. 24, k : 0 .. 3, seed : Seeds]
    [] Family = "sinterp" -> [pu : 1 .. 5, pv : 1 .. 5, m : 0 .. 5, n : 0 .. 5, kind : {"sheet", "fold", "flat", "grid"}, seed : Seeds]
    [] Family = "slocal" -> [m : 3 .. 8, n : 3 .. 8, kind : {"sheet", "fold", "flat", "grid"}, seed : Seeds]
    [] Family = "sapprox" -> [pu : 1 .. 4, pv : 1 .. 4, nu : 0 .. 3, nv : 0 .. 3, m : {1, 3, 8}, n : {1, 2, 7}, kind : {"sheet", "sum", "sumflat"}, seed : Seeds]
    \* maps: two ways to make a matrix and what is done with them
    [] Family = "matrix" -> [a : MapKinds, b : MapKinds, c : {"mul", "inv", "trans", "invmul", "mulinv", "transinv", "chain"}, t : {0, 1, 30, 90, 135, 180, 270, 360, -45, 720}, seed : Seeds]
    \* vectors: what the first looks like, how the second relates to it, and the factor (eighths)
    [] Family = "vec" -> [a : {"generic", "axis", "neg", "tiny", "huge", "zero", "unit", "diag"}, b : {"generic", "same", "near", "opposite", "multiple", "orthogonal", "zero"}, k : {-24, -8, 1, 4, 8, 100}, seed : Seeds]
    [] Family = "orth" -> [x : {-8, -3, 0, 1, 8}, y : {-8, -3, 0, 1, 8}, z : {-8, -3, 0, 1, 8}]
    \* a and b differ by d tolerances (hundredths) relative to their size
    [] Family = "compare" -> [m : {0, 1, 1000, -1000, 1000000, -7, 3}, d : {-100000, -150, -101, -99, -50, 0, 50, 99, 101, 150, 100000}, t : {1, 10, 1000, 10000}, sp : {"", "nan", "inf", "-inf"}]
    [] Family = "numbers" -> [n : 0 .. 40, t : {-720, -1, 0, 1, 45, 90, 400}]
    [] Family = "linear" -> [n : 1 .. 6, m : 1 .. 4, k : {"dense", "sparse", "perm", "scaled", "singular", "tall"}, seed : Seeds]
    [] Family = "banded" -> [n : 2 .. 12, bw : {1, 3, 5, 7}, m : 1 .. 3, seed : Seeds]
    [] Family = "quad" -> [d : 0 .. 12, lo : {-16, -8, 0, 3, 800}, w : {1, 4, 8, 20, -8}, seed : Seeds]
    [] Family = "quad2" -> [d : 0 .. 3, f : 0 .. 3, lo : {-8, 0, 3}, w : {1, 8, 20}, v : {1, 8, -8}, seed : Seeds]
    [] Family = "fft" -> [k : {"cdft", "rdft", "ddct", "ddst", "dfct", "dfst"}, s : {-1, 1}, n : {2, 4, 8, 16, 32}, d : {"generic", "pulse", "wave", "ones"}, seed : Seeds]
    [] Family = "rays" -> [k : {"cross", "behind", "parallel", "same", "samepoint", "skew", "right", "opposite", "zero"}, l0 : {1, 8, 40}, l1 : {1, 8, 40}, ang : {2, 30, 60, 90, 120, 178}, seed : Seeds]
    [] Family = "lineplane" -> [k : {"cross", "in", "parallel"}, ln : {1, 8, 40}, ld : {1, 8, 40}, seed : Seeds]
    [] Family = "project" -> [t : {-16, -1, 0, 1, 4, 7, 8, 9, 24}, h : {0, 1, 8, 80}, l : {1, 8, 100}, seed : Seeds]
    [] Family = "stereo" -> [r : {1, 8, 50}, lat : {-90, -60, -10, 0, 30, 60, 80}, lon : {0, 45, 120, 200, 330}]
    [] Family = "octree" -> [n : {1, 2, 5, 20, 60}, k : {"cloud", "grid", "line", "double", "clusters", "plane", "small", "far"}, leaf : {1, 3, 8}, ext : {0, 1, 8}, seed : Seeds]
    \* data for curves: how many points and how they lie
    [] Family = "params" -> [n : {0, 1, 2, 3, 4, 5, 6, 8, 15}, kind : {"generic", "planar", "corner", "line", "even", "doubled", "twice", "same", "far", "small"}, seed : Seeds]
    [] Family = "knotpar" -> [n : 2 .. 14, kind : {"chord", "even", "end", "skew"}, seed : Seeds]
    [] Family = "meshpar" -> [n : {2, 3, 5, 9}, m : {2, 3, 4, 10}, kind : {"sheet", "pole", "poles", "seam", "same", "grid"}, seed : Seeds]
    \* points of one conic (weight in eighths, angle at its middle control point), or moved off it
    [] Family = "fitconic" -> [w : {1, 2, 4, 7, 8, 12, 32}, ang : {30, 60, 90, 120, 150}, k : 1 .. 5, kind : {"on", "near", "off", "one"}, pre : {0, 2}, seed : Seeds]
    [] Family = "fittwo" -> [kind : {"arc", "iso", "S", "back", "parallel", "opposite", "line", "skew", "quarter"}, al : {1, 8, 24}, be : {3, 8, 40}, pre : {0, 1, 2}, seed : Seeds]
    [] Family = "fitcubic" -> [al : {1, 4, 8, 20}, be : {2, 8, 12}, k : 1 .. 5, kind : {"on", "near", "off", "planar", "planarnear", "line", "one"}, pre : {0, 2}, seed : Seeds]
    [] Family = "args" -> {[g |-> g, f |-> c.f, k |-> c.k, seed |-> s] : <<g, c, s>> \in UNION {{<<g, c, s>> : c \in ArgSpoils[g], s \in Seeds} : g \in DOMAIN ArgSpoils}}
    [] Family = "err" -> [p : 1 .. 4, m : {8, 13, 21}, eps : {1, 8, 40}, seed : Seeds]

Valid(c) == CASE Family = "lsq" -> c.n > c.p
              \* derivatives of a polyline jump at the knots
              [] Family = "wlsq" -> c.p > 1 \/ c.k \in {"plain", "ends"}
              [] Family = "compare" -> c.sp = "" \/ (c.d \in {0, 50} /\ c.t = 10)
              [] Family = "fft" -> c.s = 1 \/ c.k \notin {"dfct", "dfst"}
              [] Family = "octree" -> c.ext > 0 \/ c.k # "double"
              [] OTHER -> TRUE
Init == case \in {c \in Cases : Valid(c)}
Next == FALSE /\ UNCHANGED case
Emit == PrintT(ToJson([tag |-> "SCN", c |-> case]))
=============================================================================
