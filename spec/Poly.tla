-------------------------------- MODULE Poly --------------------------------
(* Distances to polylines. FirstNear is overridden by java/RatOps.java (RatTest.tla compares with FirstNearDef). *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Rat

\* squared distance from x to the segment a b
SegDist2(a, b, x) ==
    LET d == VSub(b, a)
        l2 == VNorm2(d)
        t == IF RSgn(l2) = 0 THEN R(0) ELSE RMax(0, RMin(1, RDiv(VDot(VSub(x, a), d), l2)))
    IN  VNorm2(VSub(x, VAdd(a, VScale(t, d))))
\* index >= i of the first segment of polyline P within tol2 (squared) of x, or 0
RECURSIVE FirstNearDef(_, _, _, _)
FirstNearDef(P, i, x, tol2) == IF i >= Len(P) THEN 0 ELSE IF RLe(SegDist2(P[i], P[i + 1], x), tol2) THEN i ELSE FirstNearDef(P, i + 1, x, tol2)
FirstNear(P, i, x, tol2) == FirstNearDef(P, i, x, tol2)
=============================================================================
