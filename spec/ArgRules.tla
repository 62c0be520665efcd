----------------------------- MODULE ArgRules -----------------------------
(***************************************************************************)
(* Which arguments make sense. An event "Call" is one call of one public   *)
(* function f with its arguments: c, c2 curves, s a surface, i and I       *)
(* integers, d, L and M numbers, v and W points, G a grid of points. The   *)
(* specification says from the arguments alone whether the call must be    *)
(* refused (an exception of the validation kind, the result argument left  *)
(* as it was) or must be served.                                           *)
(***************************************************************************)
EXTENDS TraceBase

Bad(e) == {"exception " \o e.x}

Sorted(U) == \A k \in 1 .. Len(U) - 1 : RLe(U[k], U[k + 1])
Lst(U) == U[Len(U)]
\* outside of an interval by more than the slack
Off(t, lo, hi, eps) == RLt(t, RSub(lo, eps)) \/ RLt(RAdd(hi, eps), t)
OffU(t, U, eps) == Off(t, U[1], Lst(U), eps)
IsNull(v) == \A k \in 1 .. Len(v) : REq(v[k], 0)
Malformed(p, U, n) == p <= 0 \/ Len(U) = 0 \/ ~ Sorted(U) \/ n = 0 \/ Len(U) # n + p + 1
MalformedS(s, knots) ==
    \/ s.pu <= 0 \/ s.pv <= 0
    \/ Len(s.P) = 0
    \/ \E k \in 1 .. Len(s.P) : Len(s.P[k]) # Len(s.P[1])
    \/ IF knots THEN Malformed(s.pu, RReadAll(s.U), Len(s.P)) \/ Malformed(s.pv, RReadAll(s.V), Len(s.P[1]))
       ELSE Len(s.P) # s.pu + 1 \/ Len(s.P[1]) # s.pv + 1
MaxDegree == 7

AtCurve == {"Point", "CornerCut", "Curvature", "Torsion", "Normal", "Binormal", "BPoint"}
DersAtCurve == {"Ders", "BDers", "BDersAll"}
AtSurf == {"SPoint", "SDer1", "SCurvature", "SNormal", "SBPoint"}
DersAtSurf == {"SDers", "SBDers", "SBDersAll"}
AtBasis == {"Basis", "BasisDers", "BasisDer1", "One", "OneDers", "All"}

\* does the call make no sense? Numbers that are off by less than eps are left to rounding.
Senseless(e, eps) ==
    LET d(k) == R(e.d[k])
        U == RReadAll(e.c.U)
        SU == RReadAll(e.s.U)
        SV == RReadAll(e.s.V)
        L == RReadAll(e.L)
        v(k) == RReadAll(e.v[k])
        w(k) == RReadAll(e.W[k])
        SD == IF e.i[Len(e.i)] # 0 THEN SU ELSE SV
        NotPos(x) == RLe(x, eps)
        Range2(a, b) == OffU(a, U, eps) \/ OffU(b, U, eps) \/ NotPos(RSub(b, a))
        CanBe0(x) == RLe(RAbs(x), eps)
    IN
    CASE e.f \in {"Check", "CheckB"} -> Malformed(e.c.p, U, Len(e.c.P))
      [] e.f = "CheckZ" -> e.c.p <= 0 \/ Len(e.c.P) # e.c.p + 1
      [] e.f \in {"SCheck", "SCheckB"} -> MalformedS(e.s, TRUE)
      [] e.f = "SCheckZ" -> MalformedS(e.s, FALSE)
      [] e.f \in AtCurve -> ~ Sorted(U) \/ OffU(d(1), U, eps)
      [] e.f \in DersAtCurve -> ~ Sorted(U) \/ OffU(d(1), U, eps) \/ e.i[1] <= 0
      [] e.f \in {"ZBernstein", "ZCasteljau", "ZQuad"} -> Off(d(1), 0, 1, eps)
      [] e.f \in AtSurf -> OffU(d(1), SU, eps) \/ OffU(d(2), SV, eps)
      [] e.f \in DersAtSurf -> OffU(d(1), SU, eps) \/ OffU(d(2), SV, eps) \/ e.i[1] <= 0
      [] e.f = "SZCasteljau" -> Off(d(1), 0, 1, eps) \/ Off(d(2), 0, 1, eps)
      [] e.f = "Horner" -> e.i[1] <= 0 \/ Len(L) # e.i[1] + 1
      [] e.f = "Bernstein" -> e.i[2] < 0 \/ e.i[1] < 0 \/ e.i[1] > e.i[2] \/ Off(d(1), 0, 1, eps)
      [] e.f = "AllBernstein" -> e.i[1] < 0 \/ Off(d(1), 0, 1, eps)
      [] e.f = "Multiplicity" -> Len(L) = 0 \/ ~ Sorted(L) \/ OffU(d(1), L, eps)
      [] e.f = "Span" -> e.i[1] < 0 \/ Len(L) = 0 \/ ~ Sorted(L) \/ OffU(d(1), L, eps)
      [] e.f \in AtBasis ->
             \/ Len(L) = 0 \/ ~ Sorted(L) \/ OffU(d(1), L, eps) \/ e.i[2] < 0
             \/ e.i[1] < (IF e.f \in {"BasisDer1", "One", "OneDers"} THEN 1 ELSE 0)
             \/ e.f \notin {"One", "OneDers"} /\ e.i[1] > MaxDegree
             \/ e.f \in {"BasisDers", "OneDers"} /\ e.i[3] > e.i[1]
      [] e.f = "Continuity" -> e.i[1] <= 0 \/ Len(L) = 0 \/ ~ Sorted(L) \/ OffU(d(1), L, eps)
      [] e.f = "KvClampInsert" -> e.i[1] < 0 \/ Len(L) = 0 \/ ~ Sorted(L) \/ RLt(RAdd(d(2), eps), d(1))
      [] e.f = "InsertKnot" -> e.i[1] <= 0 \/ OffU(d(1), U, eps)
      [] e.f = "RemoveKnot" -> e.i[1] <= 0 \/ OffU(d(1), U, eps)
      [] e.f = "Refine" -> Len(L) = 0 \/ OffU(L[1], U, eps) \/ OffU(Lst(L), U, eps)
      [] e.f = "Elevate" -> e.i[1] <= 0
      [] e.f = "Moebius" -> NotPos(RSub(RMul(d(1), d(4)), RMul(d(3), d(2))))
      [] e.f = "Extract" -> Range2(d(1), d(2))
      [] e.f = "RemovalError" -> e.i[1] < 0 \/ e.i[1] >= Len(U)
      [] e.f = "RemoveErr" -> Len(L) = 0 \/ Len(e.M) # Len(L) \/ NotPos(d(1))
      [] e.f = "Reposition" -> OffU(d(1), U, eps) \/ e.i[1] < 0 \/ e.i[1] >= Len(e.c.P) \/ IsNull(v(1)) \/ CanBe0(d(2))
      [] e.f = "WeightMod" -> OffU(d(1), U, eps) \/ e.i[1] < 0 \/ e.i[1] >= Len(e.c.P) \/ CanBe0(d(2))
      [] e.f = "NeighborMod" -> OffU(d(1), U, eps) \/ e.i[1] < 0 \/ e.i[1] > Len(e.c.P) - 2 \/ CanBe0(d(2)) \/ CanBe0(d(3))
      [] e.f = "Warp" -> Len(L) # Len(e.c.P) \/ CanBe0(d(1)) \/ IsNull(v(1)) \/ Range2(d(2), d(3))
      [] e.f = "Flatten" -> IsNull(VSub(v(1), v(2))) \/ Range2(d(1), d(2))
      [] e.f = "Bend" -> Range2(d(1), d(2))
      [] e.f = "Constrain" -> Len(L) = 0 \/ Len(e.v) = 0 \/ Len(e.i) # Len(e.v) \/ Len(e.I) # Len(e.i)
      [] e.f = "Line" -> IsNull(VSub(v(1), v(2)))
      [] e.f = "Hermite" -> Len(e.v) <= 3 \/ Len(e.W) # Len(e.v)
      [] e.f = "Arc" -> IsNull(v(2)) \/ IsNull(v(3)) \/ NotPos(RSub(d(2), d(1))) \/ Off(RSub(d(2), d(1)), 0, RMul(2, RPi), RAdd(eps, RQ(1, 100000000))) \/ NotPos(d(3)) \/ NotPos(d(4))
      [] e.f \in {"ConicOne", "ConicOpen"} -> IsNull(v(2)) \/ IsNull(v(4))
      [] e.f = "Interp" -> e.i[1] < 0 \/ e.i[1] > MaxDegree \/ Len(e.v) <= e.i[1] \/ (Len(L) > 0 /\ Len(L) # Len(e.v))
      [] e.f = "InterpTan" -> e.i[1] <= 0 \/ Len(e.v) # Len(e.W) \/ Len(e.v) <= e.i[1] \/ NotPos(d(1))
      [] e.f = "CubicLocal" -> Len(e.v) = 0
      [] e.f = "LeastSquares" -> e.i[1] < 0 \/ e.i[1] > MaxDegree \/ e.i[2] <= 0
      [] e.f = "WLeastSquares" -> e.i[1] <= 0 \/ Len(e.v) <= e.i[1] \/ Len(L) # Len(e.v) \/ Len(e.I) # Len(e.W) \/ Len(e.M) # Len(e.W)
                                  \/ \E k \in 1 .. Len(e.I) : e.I[k] < 0 \/ e.I[k] >= Len(e.v)
      [] e.f = "ErrApprox" -> e.i[1] <= 0 \/ Len(e.v) <= e.i[1] \/ NotPos(d(1))
      [] e.f \in {"FitConic", "FitCubic"} ->
             \/ Len(e.v) < (IF e.f = "FitCubic" THEN 3 ELSE 1)
             \/ e.i[1] < 0 \/ e.i[1] >= Len(e.v) \/ e.i[2] <= e.i[1] \/ e.i[2] >= Len(e.v) \/ IsNull(w(1)) \/ IsNull(w(2))
      [] e.f = "Rays" -> IsNull(v(2)) \/ IsNull(v(4))
      [] e.f \in {"SInsert", "SRemove"} -> e.i[1] <= 0 \/ OffU(d(1), SD, eps)
      [] e.f = "SRefine" -> Len(L) = 0 \/ OffU(L[1], SD, eps) \/ OffU(Lst(L), SD, eps)
      [] e.f = "SElevate" -> e.i[1] <= 0
      [] e.f = "Cylinder" -> IsNull(v(2)) \/ IsNull(v(3)) \/ NotPos(RSub(d(2), d(1))) \/ NotPos(d(3)) \/ NotPos(d(4))
      [] e.f = "Ruled" -> LET U2 == RReadAll(e.c2.U) IN ~ REq(U[1], U2[1]) \/ ~ REq(Lst(U), Lst(U2))
      [] e.f = "Revolved" -> IsNull(v(2))
      [] e.f = "SInterp" -> Len(e.G) = 0 \/ (Len(e.G) > 0 /\ (Len(e.G[1]) = 0 \/ e.i[1] < 0 \/ e.i[1] > MaxDegree \/ e.i[2] < 0 \/ e.i[2] > MaxDegree \/ Len(e.G[1]) <= e.i[1] \/ Len(e.G) <= e.i[2]))
      [] e.f = "SLocal" -> Len(e.G) = 0 \/ Len(e.G[1]) = 0 \/ \E k \in 1 .. Len(e.G) : Len(e.G[k]) # Len(e.G[1])
      [] e.f = "SApprox" -> Len(e.G) = 0 \/ Len(e.G[1]) = 0 \/ e.i[1] <= 0 \/ e.i[1] > MaxDegree \/ e.i[2] <= 0 \/ e.i[2] > MaxDegree \/ e.i[3] <= e.i[2] \/ e.i[4] <= e.i[1]

JudgeCall(e) ==
    IF e.x # "" THEN Bad(e)
    ELSE IF Senseless(e, RQ(1, 100000)) THEN
         Failing("refused", e.r.how \in {"argument", "range"})
         \cup Failing("result left alone", e.r.how # "" => e.r.kept)
    ELSE IF ~ Senseless(e, 0) THEN Failing("served", e.r.how = "")
    ELSE {}
JudgeArgs(ev, i) == JudgeCall(ev[i])
=============================================================================
