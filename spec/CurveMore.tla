----------------------------- MODULE CurveMore -----------------------------
(***************************************************************************)
(* Conformance of curve construction (lines, arcs, conics, Hermite),       *)
(* interpolation and approximation, point inversion, arc length,           *)
(* tessellation, extension and shape modification.                         *)
(***************************************************************************)
EXTENDS CurveRules, Poly

Pts(s) == RReadAll(s)
UnitW(c) == \A i \in 1 .. Len(c.P) : RClose(c.P[i][4], 1, TKnot)
\* a result that can be evaluated: finite, counts right, knots in order, positive weights
Usable(rc) ==
    IF ~ FiniteCurve(rc) THEN {"result not finite"}
    ELSE IF rc.p < 1 THEN {"degree"}
    ELSE LET q == RdCurve(rc) IN Failing("result well formed", WellFormedCurve(q))
Scale(P) == MaxAbs(Flatten(P))
\* p is x within tol relative to the size of the data
NearAt(p, x, tol) == VNear(p, x, tol)

---------------------------------------------------------------------------
(* Lines, arcs, conics *)
JudgeLine(ev, e) ==
    LET a == Pts(e.a)
        b == Pts(e.b)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE LET F == Usable(e.r.c) IN IF F # {} THEN F
        ELSE LET c == RdCurve(e.r.c) IN
             Failing("line", \A j \in 0 .. 8 : LET t == RQ(j, 8) IN
                VClose(CurveP(c, RLerp(CurveDomLo(c), CurveDomHi(c), t)), VLerp(a, b, t), TEval))

VUnit(v) == VScale(RDiv(1, VLen(v)), v)
RECURSIVE SumSeq(_, _)
SumSeq(f, n) == IF n = 0 THEN R(0) ELSE RAdd(f[n], SumSeq(f, n - 1))

\* coordinates of X in the frame of the ellipse, scaled to the unit circle
JudgeArc(ev, e) ==
    LET o == Pts(e.o)
        xa == VUnit(Pts(e.xa))
        ya == VUnit(Pts(e.ya))
        rx == R(e.rx)
        ry == R(e.ry)
        At(a) == VAdd(o, VAdd(VScale(RMul(rx, RCos(a)), xa), VScale(RMul(ry, RSin(a)), ya)))
        sz == RMax(rx, RMax(ry, MaxAbs(o)))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ e.r.b THEN {"arc not created"}
        ELSE LET F == Usable(e.r.c) IN IF F # {} THEN F
        ELSE LET c == RdCurve(e.r.c)
                 S == SpanSamples(CurveBreaks(c), 10)
                 n == Len(S)
                 D(i) == VSub(CurveP(c, S[i]), o)
                 Q == TLCEval([i \in 1 .. n |-> <<RDiv(VDot(D(i), xa), rx), RDiv(VDot(D(i), ya), ry), VDot(D(i), VCross(xa, ya))>>])
                 Turn(i) == RSub(RMul(Q[i][1], Q[i + 1][2]), RMul(Q[i][2], Q[i + 1][1]))
                 sweep == RSub(R(e.a1), R(e.a0))
             IN  Failing("start point", VNear(CurveP(c, S[1]), At(R(e.a0)), RMul(TShape, sz)))
                 \cup Failing("end point", VNear(CurveP(c, S[n]), At(R(e.a1)), RMul(TShape, sz)))
                 \cup Failing("on the ellipse", \A i \in 1 .. n :
                        /\ RNear(RAdd(RMul(Q[i][1], Q[i][1]), RMul(Q[i][2], Q[i][2])), 1, TShape)
                        /\ RNear(Q[i][3], 0, RMul(TShape, sz)))
                 \cup Failing("runs from start to end angle", \A i \in 1 .. n - 1 : RLt(0, Turn(i)) /\ RLt(Turn(i), RQ(1, 2)))
                 \cup Failing("swept angle", RNear(SumSeq([i \in 1 .. n - 1 |-> Turn(i)], n - 1), sweep, RAdd(RQ(1, 1000), RMul(RQ(1, 50), sweep))))

\* the conic through a (tangent towards pp) and b (tangent from pp) and q: barycentric coordinates (x, y, z) of its points with
\* respect to a, pp, b satisfy  y^2 = k x z, and y has the sign it has at q
JudgeConicOpen(ev, e) ==
    LET a == Pts(e.a)
        b == Pts(e.b)
        q == Pts(e.q)
        sz == RMax(1, RMax(MaxAbs(a), RMax(MaxAbs(b), MaxAbs(q))))
        inf == Has(e, "inf")               \* parallel tangents: pp is a direction
        pp == Pts(e.pp)
        nrm == IF inf THEN VCross(VSub(b, a), pp) ELSE VCross(VSub(pp, a), VSub(b, a))
        n2 == VNorm2(nrm)
        BarY(X) == IF inf THEN RDiv(VDot(VCross(VSub(b, a), VSub(X, a)), nrm), n2)
                 ELSE RDiv(VDot(VCross(VSub(X, a), VSub(b, a)), nrm), n2)
        BarX(X) == IF inf THEN RSub(1, RDiv(VDot(VCross(VSub(X, a), pp), nrm), n2))
                 ELSE RDiv(VDot(VCross(VSub(pp, X), VSub(b, X)), nrm), n2)
        BarZ(X) == IF inf THEN RDiv(VDot(VCross(VSub(X, a), pp), nrm), n2)
                 ELSE RDiv(VDot(VCross(VSub(pp, a), VSub(X, a)), nrm), n2)
        k == RDiv(RMul(BarY(q), BarY(q)), RMul(BarX(q), BarZ(q)))
        sg == RSgn(BarY(q))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ e.r.b THEN {"conic not created"}
        ELSE LET F == Usable(e.r.c) IN IF F # {} THEN F
        ELSE LET c == RdCurve(e.r.c)
                 S == SpanSamples(CurveBreaks(c), 7)
                 X == TLCEval([i \in 1 .. Len(S) |-> CurveP(c, S[i])])
                 m == RMax(1, RMax(RAbs(k), RDiv(1, k)))
                 T == RMul(TFrenet, RMul(m, RMax(1, RDiv(RMul(sz, sz), RSqrt(n2)))))
             IN  Failing("start point", VNear(X[1], a, RMul(TShape, sz)))
                 \cup Failing("end point", VNear(X[Len(S)], b, RMul(TShape, sz)))
                 \cup Failing("in the plane", \A i \in 1 .. Len(S) : RNear(RDiv(VDot(VSub(X[i], a), nrm), RSqrt(n2)), 0, RMul(TFrenet, sz)))
                 \cup Failing("on the conic", \A i \in 1 .. Len(S) : RNear(RMul(BarY(X[i]), BarY(X[i])), RMul(k, RMul(BarX(X[i]), BarZ(X[i]))),
                                     RMul(T, RMax(1, RMul(BarY(X[i]), BarY(X[i]))))))
                 \cup Failing("the arc through the given point", \A i \in 2 .. Len(S) - 1 : RSgn(BarY(X[i])) = sg)

\* middle control point and weight of the arc in standard form
JudgeConicOne(ev, e) ==
    IF e.x # "" THEN Unexpected(e)
    ELSE IF ~ e.r.b THEN {"conic not created"}
    ELSE Failing("middle control point", RAllFinite(e.r.pp) /\ VClose(Pts(e.r.pp), Pts(e.pp), TFrenet))
         \cup Failing("weight of the middle control point", RIsFinite(e.r.w) /\ RClose(e.r.w, R(e.w), TFrenet))

\* the two halves of an arc in standard form are such arcs, and are the arc
Quad(a, p, w, b) == [p |-> 2, U |-> <<0, 0, 0, 1, 1, 1>>, P |-> <<a \o <<R(1)>>, VScale(w, p) \o <<w>>, b \o <<R(1)>>>>]
QuadInf(a, v, b) == [p |-> 2, U |-> <<0, 0, 0, 1, 1, 1>>, P |-> <<a \o <<R(1)>>, v \o <<R(0)>>, b \o <<R(1)>>>>]
\* the halves in standard form run through the same points at other parameters
Mob(s, t, g) == RDiv(RMul(g, s), RAdd(t, RMul(g, s)))
JudgeSplitArc(ev, e) ==
    LET a == Pts(e.a)
        b == Pts(e.b)
        c == IF Has(e, "inf") THEN QuadInf(a, Pts(e.pp), b) ELSE Quad(a, Pts(e.pp), R(e.w), b)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ RAllFinite(<<e.r.q1, e.r.s, e.r.r1, <<e.r.w>>>>) THEN {"result not finite"}
        ELSE LET l == Quad(a, Pts(e.r.q1), R(e.r.w), Pts(e.r.s))
                 r == Quad(Pts(e.r.s), Pts(e.r.r1), R(e.r.w), b)
             IN  Failing("weight of the halves", RLt(0, R(e.r.w)))
                 \cup (IF ~ RLt(0, R(e.r.w)) THEN {} ELSE
                       Failing("first half", \A j \in 0 .. 8 : VClose(CurveP(l, Mob(j, 8 - j, R(e.r.w))), CurveP(c, RQ(j, 16)), TFrenet))
                       \cup Failing("second half", \A j \in 0 .. 8 : VClose(CurveP(r, RSub(1, Mob(8 - j, j, R(e.r.w)))), CurveP(c, RQ(8 + j, 16)), TFrenet)))

---------------------------------------------------------------------------
(* Interpolation *)
RECURSIVE Chords(_)
Chords(Q) == IF Len(Q) <= 1 THEN <<>> ELSE <<VDist(Q[1], Q[2])>> \o Chords(Tail(Q))
ChordPar(Q) ==
    LET d == TLCEval(Chords(Q))
        tot == SumSeq(d, Len(d))
    IN  TLCEval([i \in 1 .. Len(Q) |-> RTrim(RDiv(SumSeq(d, i - 1), tot))])
Par(e) == IF Has(e, "par") THEN RReadAll(e.par) ELSE ChordPar(Pts(e.q))

\* derivative from the left at an interior knot
LeftSpan(c, u) == CHOOSE k \in c.p + 1 .. Len(c.P) : RLt(c.U[k], RSub(u, KTol)) /\ (\A j \in k + 1 .. Len(c.P) : ~ RLt(c.U[j], RSub(u, KTol)))
PtAt(c, u) == CurveP(c, RMax(CurveDomLo(c), RMin(CurveDomHi(c), u)))
DerAt(c, u) == CurveDers(c, RMax(CurveDomLo(c), RMin(CurveDomHi(c), u)), 1)[2]

\* a curve has a derivative where those from the left and from the right agree; at the ends one side is enough
JudgeCanDer(ev, e) ==
    LET c == CurveAt(ev, e.c)
        u == R(e.u)
        inner == RLt(RAdd(CurveDomLo(c), KTol), u) /\ RLt(u, RSub(CurveDomHi(c), KTol))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ inner THEN Failing("differentiability", e.r.b)
        ELSE LET l == CurveDersAt(c, LeftSpan(c, u), u, 1)[2]
                 r == DerAt(c, u)
                 sz == RMax(VLen(l), VLen(r))
                 d == VDist(l, r)
             IN  Failing("smooth here", RLe(d, RMul(TKnot, sz)) => e.r.b)
                 \cup Failing("corner here", RLt(TLoose, d) /\ RLt(RMul(TLoose, sz), d) => ~ e.r.b)

\* normals carried along the curve with the least twist: one per knot
JudgeProjNormals(ev, e) ==
    LET c == CurveAt(ev, e.c)
        m == Len(c.U)
        ends == VNear(CurveP(c, CurveDomLo(c)), CurveP(c, CurveDomHi(c)), TEval)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF Len(e.r.n) # m THEN {"one normal per knot"}
        ELSE IF ~ RAllFinite(e.r.n) THEN {"normals not finite"}
        ELSE LET B == Pts(e.r.n)
                 T == TLCEval([i \in 1 .. m |-> VUnit(DerAt(c, c.U[i]))])
                 Step(i) == VSub(B[i - 1], VScale(VDot(B[i - 1], T[i]), T[i]))
             IN  Failing("unit normals", \A i \in 1 .. m : RNear(VNorm2(B[i]), 1, TShape))
                 \cup Failing("perpendicular to the tangent", \A i \in 1 .. m : (ends /\ i = m) \/ RNear(VDot(B[i], T[i]), 0, TShape))
                 \cup Failing("least twist", ~ ends => \A i \in 2 .. m : RLt(RQ(1, 10000), VNorm2(Step(i))) => VNear(B[i], VUnit(Step(i)), TFrenet))
                 \cup Failing("returns to the first", ends => VNear(B[m], B[1], TEval))

JudgeHermite(ev, e) ==
    LET Q == Pts(e.q)
        T == Pts(e.t)
        u == ChordPar(Q)
        n == Len(Q)
        sz == RMax(Scale(Q), Scale(T))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE LET F == Usable(e.r.c) IN IF F # {} THEN F
        ELSE LET c == RdCurve(e.r.c) IN
             Failing("degree three", c.p = 3)
             \cup Failing("domain", RNear(CurveDomLo(c), 0, TKnot) /\ RNear(CurveDomHi(c), 1, TKnot))
             \cup Failing("passes through the points", \A i \in 1 .. n : VNear(PtAt(c, u[i]), Q[i], RMul(TShape, sz)))
             \cup Failing("tangents", \A i \in 1 .. n : VNear(DerAt(c, u[i]), T[i], RMul(TFrenet, sz)))
             \cup Failing("tangents from the left", \A i \in 2 .. n : VNear(CurveDersAt(c, LeftSpan(c, u[i]), u[i], 1)[2], T[i], RMul(TFrenet, sz)))

JudgeInterp(ev, e) ==
    LET Q == Pts(e.q)
        u == Par(e)
        n == Len(Q)
        sz == Scale(Q)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE LET F == Usable(e.r.c) IN IF F # {} THEN F
        ELSE LET c == RdCurve(e.r.c) IN
             Failing("degree", c.p = e.p)
             \cup Failing("one control point per point", Len(c.P) = n)
             \cup Failing("domain", RNear(CurveDomLo(c), u[1], TKnot) /\ RNear(CurveDomHi(c), u[n], TKnot))
             \cup Failing("not rational", UnitW(c))
             \cup Failing("passes through the points", \A i \in 1 .. n : VNear(PtAt(c, u[i]), Q[i], RMul(TFrenet, sz)))
             \cup Failing("knots average the parameters", \A j \in 1 .. n - 1 - e.p :
                    RNear(c.U[e.p + 1 + j], RDiv(RSum([i \in 1 .. e.p |-> u[j + i]]), e.p), TFrenet))

JudgeInterpTan(ev, e) ==
    LET Q == Pts(e.q)
        T == Pts(e.t)
        f == R(e.f)
        u == ChordPar(Q)
        n == Len(Q)
        sz == RMax(Scale(Q), RMul(f, Scale(T)))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE LET F == Usable(e.r.c) IN IF F # {} THEN F
        ELSE LET c == RdCurve(e.r.c) IN
             Failing("degree", c.p = e.p)
             \cup Failing("two control points per point", Len(c.P) = 2 * n)
             \cup Failing("domain", RNear(CurveDomLo(c), 0, TKnot) /\ RNear(CurveDomHi(c), 1, TKnot))
             \cup Failing("passes through the points", \A i \in 1 .. n : VNear(PtAt(c, u[i]), Q[i], RMul(TFrenet, sz)))
             \cup Failing("derivatives", \A i \in 1 .. n : VNear(DerAt(c, u[i]), VScale(f, T[i]), RMul(TArc, sz)))

\* cubic, through the points at their chord parameters, tangent directions continuous
JudgeCubicLocal(ev, e) ==
    LET Q == Pts(e.q)
        u == ChordPar(Q)
        n == Len(Q)
        sz == Scale(Q)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ e.r.b THEN Failing("interpolation refused", n < 5)
        ELSE LET F == Usable(e.r.c) IN IF F # {} THEN F
        ELSE LET c == RdCurve(e.r.c) IN
             Failing("degree three", c.p = 3)
             \cup Failing("domain", RNear(CurveDomLo(c), 0, TKnot) /\ RNear(CurveDomHi(c), 1, TKnot))
             \cup Failing("passes through the points", \A i \in 1 .. n : VNear(PtAt(c, u[i]), Q[i], RMul(TFrenet, sz)))
             \cup Failing("tangent continuous", \A i \in 2 .. n - 1 :
                    LET l == CurveDersAt(c, LeftSpan(c, u[i]), u[i], 1)[2]
                        r == DerAt(c, u[i])
                    IN  RLe(VLen(VCross(l, r)), RMul(TArc, RMul(VLen(l), VLen(r)))) /\ RLt(0, VDot(l, r)))

---------------------------------------------------------------------------
(* Least squares: the error is orthogonal to what the free control points can do *)
BasisAt(c, i, u) ==      \* i-th basis function at u (and the last one at the right end)
    LET k == KSpan(c.p, c.U, u) IN
    IF i < k - c.p \/ i > k THEN R(0) ELSE BasisRow(c.U, k, c.p, u)[i - (k - c.p) + 1]
DerBasisAt(c, i, u) ==
    LET k == KSpan(c.p, c.U, u) IN
    IF i < k - c.p \/ i > k THEN R(0) ELSE DerRow(c.U, k, c.p, u, 1)[i - (k - c.p) + 1]
Clip(c, u) == RMax(CurveDomLo(c), RMin(CurveDomHi(c), u))
RECURSIVE VSumSeq(_, _)
VSumSeq(f, n) == IF n = 0 THEN VZero(3) ELSE VAdd(f[n], VSumSeq(f, n - 1))

JudgeLeastSquares(ev, e) ==
    LET Q == Pts(e.q)
        u == ChordPar(Q)
        m == Len(Q)
        sz == Scale(Q)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ e.r.b THEN {"approximation refused"}
        ELSE LET F == Usable(e.r.c) IN IF F # {} THEN F
        ELSE LET c == RdCurve(e.r.c)
                 v == TLCEval([k \in 1 .. m |-> Clip(c, u[k])])
                 Err == TLCEval([k \in 1 .. m |-> VSub(CurveP(c, v[k]), Q[k])])
             IN  Failing("degree", c.p = e.p)
                 \cup Failing("number of control points", Len(c.P) = e.n)
                 \cup Failing("domain", RNear(CurveDomLo(c), 0, TKnot) /\ RNear(CurveDomHi(c), 1, TKnot))
                 \cup Failing("not rational", UnitW(c))
                 \cup Failing("end points", VNear(PtAt(c, 0), Q[1], RMul(TFrenet, sz)) /\ VNear(PtAt(c, 1), Q[m], RMul(TFrenet, sz)))
                 \cup Failing("least squares", \A i \in 2 .. e.n - 1 :
                        VNear(VSumSeq([k \in 1 .. m |-> VScale(BasisAt(c, i, v[k]), Err[k])], m), VZero(3), RMul(TArc, sz)))

\* weights > 0: weighted in the sum; weights < 0: to be met exactly; 0: ignored
JudgeWLeastSquares(ev, e) ==
    LET Q == Pts(e.q)
        W == RReadAll(e.w)
        T == Pts(e.t)
        TW == RReadAll(e.tw)
        u == ChordPar(Q)
        m == Len(Q)
        mt == Len(T)
        sz == RMax(Scale(Q), IF mt = 0 THEN R(1) ELSE Scale(T))
        mw == RMax(MaxAbs(W), MaxAbs(TW))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ e.r.b THEN {"approximation refused"}
        ELSE LET F == Usable(e.r.c) IN IF F # {} THEN F
        ELSE LET c == RdCurve(e.r.c)
                 v == TLCEval([k \in 1 .. m |-> Clip(c, u[k])])
                 Err == TLCEval([k \in 1 .. m |-> VSub(CurveP(c, v[k]), Q[k])])
                 DErr == TLCEval([k \in 1 .. mt |-> VSub(DerAt(c, u[e.ti[k] + 1]), T[k])])
                 Pos(x) == IF RLt(0, x) THEN x ELSE R(0)
             IN  Failing("degree", c.p = e.p)
                 \cup Failing("number of control points", Len(c.P) = e.n)
                 \cup Failing("constrained points", \A k \in 1 .. m : RLt(W[k], 0) => VNear(Err[k], VZero(3), RMul(TArc, sz)))
                 \cup Failing("constrained derivatives", \A k \in 1 .. mt : RLt(TW[k], 0) => VNear(DErr[k], VZero(3), RMul(TLoose, sz)))
                 \cup Failing("least squares", \A i \in 1 + e.fs .. e.n - e.fe :
                        VNear(VAdd(VSumSeq([k \in 1 .. m |-> VScale(RMul(Pos(W[k]), BasisAt(c, i, v[k])), Err[k])], m),
                                   VSumSeq([k \in 1 .. mt |-> VScale(RMul(Pos(TW[k]), DerBasisAt(c, i, v[e.ti[k] + 1])), DErr[k])], mt)),
                              VZero(3), RMul(TArc, RMul(mw, RMul(10, sz)))))

\* the data points are no farther than the bound from the curve
JudgeErrApprox(ev, e) ==
    LET Q == Pts(e.q)
        u == ChordPar(Q)
        m == Len(Q)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE LET F == Usable(e.r.c) IN IF F # {} THEN F
        ELSE LET c == RdCurve(e.r.c) IN
             Failing("degree", c.p = e.p)
             \cup Failing("end points", VNear(PtAt(c, 0), Q[1], TShape) /\ VNear(PtAt(c, 1), Q[m], TShape))
             \cup Failing("within the error bound", \A i \in 1 .. m : RLe(VDist(PtAt(c, u[i]), Q[i]), RAdd(R(e.eps), TLoose)))

---------------------------------------------------------------------------
(* Point inversion *)
Inside(c, t) == RIsFinite(t) /\ RLe(CurveDomLo(c), R(t)) /\ RLe(R(t), CurveDomHi(c))
\* squared distance from q to the nearest of the samples S
RECURSIVE MinDist2(_, _, _)
MinDist2(c, S, q) == IF Len(S) = 1 THEN VNorm2(VSub(CurveP(c, S[1]), q))
                     ELSE RMin(VNorm2(VSub(CurveP(c, S[1]), q)), MinDist2(c, Tail(S), q))
TInv == RQ(1, 2000)             \* 5e-4; the library stops iterating at 1e-4

JudgeParamOfPoint(ev, e) ==
    LET c == CurveAt(ev, e.c)
        q == Pts(e.q)
        sz == RMax(1, RMul(RQ(1, 100), MaxAbs(q)))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ Inside(c, e.r.u) THEN {"parameter outside the domain"}
        ELSE LET d2 == VNorm2(VSub(CurveP(c, R(e.r.u)), q)) IN
             Failing("point on the curve not found", Has(e, "on") => RLe(d2, RMul(RMul(TInv, TInv), RMul(sz, sz))))
             \cup Failing("a sampled point of the curve is closer", ~ Has(e, "on") =>
                    RLe(VLen(VSub(CurveP(c, R(e.r.u)), q)), RAdd(RSqrt(MinDist2(c, SpanSamples(CurveBreaks(c), 24), q)), RMul(TInv, sz))))

JudgeAllParams(ev, e) ==
    LET c == CurveAt(ev, e.c)
        q == Pts(e.q)
        us == e.r.us
        sz == RMax(1, RMul(RQ(1, 100), MaxAbs(q)))
        rng == RSub(CurveDomHi(c), CurveDomLo(c))
        \* the two ends of a closed curve are the same place
        closed == RLt(VDist(CurveP(c, CurveDomLo(c)), CurveP(c, CurveDomHi(c))), KTol)
        Same(a, b) == \/ RNear(a, b, RMul(RQ(1, 100), rng))
                      \/ closed /\ RNear(RAbs(RSub(a, b)), rng, RMul(RQ(1, 100), rng))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ (\A i \in 1 .. Len(us) : Inside(c, us[i])) THEN {"parameter outside the domain"}
        ELSE Failing("every parameter of the point is found", \A j \in 1 .. Len(e.pre) : \E i \in 1 .. Len(us) :
                    /\ Same(R(us[i]), R(e.pre[j]))
                    /\ RLe(VNorm2(VSub(CurveP(c, R(us[i])), q)), RMul(RMul(TInv, TInv), RMul(sz, sz))))
             \cup Failing("parameters are distinct", \A i, j \in 1 .. Len(us) : i # j => ~ RNear(R(us[i]), R(us[j]), RMul(RQ(1, 10), KTol)))

---------------------------------------------------------------------------
(* Arc length *)
GLX == <<R("0x1.454e34f5339a0p-6"), R("0x1.a06d536d82f88p-4"), R("0x1.e5dad4f9af698p-3"), R("0x1.a214dac30e32fp-2"), R("0x1.2ef5929e78e68p-1"), R("0x1.86894ac19425ap-1"), R("0x1.cbf255924fa0fp-1"), R("0x1.f5d58e5856633p-1")>>
GLW == <<R("0x1.9ea1d04ca03aep-5"), R("0x1.c76fb531d2b94p-4"), R("0x1.413c50a25560ep-3"), R("0x1.736360b19933dp-3"), R("0x1.736360b19933dp-3"), R("0x1.413c50a25560ep-3"), R("0x1.c76fb531d2b94p-4"), R("0x1.9ea1d04ca03aep-5")>>
Speed(c, k, u) == VLen(CurveDersAt(c, k, u, 1)[2])
\* Gauss - Legendre with m panels on [a, b], which lies in span k
PanelLen(c, k, a, b) == LET h == RSub(b, a) IN
    RMul(h, RDot(GLW, TLCEval([i \in 1 .. Len(GLX) |-> Speed(c, k, RAdd(a, RMul(h, GLX[i])))])))
RECURSIVE Panels(_, _, _, _, _)
Panels(c, k, a, b, m) == IF m = 1 THEN PanelLen(c, k, a, b)
                         ELSE LET x == RAdd(a, RDiv(RSub(b, a), m)) IN RAdd(PanelLen(c, k, a, x), Panels(c, k, x, b, m - 1))
\* breakpoints between lo and hi
CutAt(B, lo, hi) == <<lo>> \o SelectSeq(B, LAMBDA x : RLt(lo, x) /\ RLt(x, hi)) \o <<hi>>
RECURSIVE LenOver(_, _, _)
LenOver(c, B, m) == IF Len(B) <= 1 THEN R(0)
                    ELSE RAdd(RTrim(Panels(c, KSpan(c.p, c.U, B[1]), B[1], B[2], m)), LenOver(c, Tail(B), m))
\* length between two parameters, with an estimate of its own error
ArcLen(c, lo, hi) == LET B == TLCEval(CutAt(CurveBreaks(c), lo, hi))
                         a == LenOver(c, B, 1)
                         b == LenOver(c, B, 2)
                     IN  IF RLe(RAbs(RSub(a, b)), RMul(RQ(1, 50000), b)) THEN <<b, RAbs(RSub(a, b))>>
                         ELSE LET z == LenOver(c, B, 5) IN <<z, RAbs(RSub(z, b))>>
TLen == RQ(1, 2000)
LenNear(x, L, tol) == RIsFinite(x) /\ RLe(RAbs(RSub(R(x), L[1])), RAdd(RMul(tol, RMax(1, L[1])), RMul(4, L[2])))

JudgeLength(ev, e) ==
    LET c == CurveAt(ev, e.c)
        lo == IF Has(e, "lo") THEN R(e.lo) ELSE CurveDomLo(c)
        hi == IF Has(e, "hi") THEN R(e.hi) ELSE CurveDomHi(c)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE Failing("length", LenNear(e.r.len, ArcLen(c, lo, hi), IF e.m = 0 THEN RQ(1, 100) ELSE RQ(1, 10000)))

JudgeParamByLength(ev, e) ==
    LET c == CurveAt(ev, e.c) IN
    IF e.x # "" THEN Unexpected(e)
    ELSE IF ~ Inside(c, e.r.u) THEN {"parameter outside the domain"}
    ELSE Failing("length up to the parameter", LET L == ArcLen(c, CurveDomLo(c), R(e.r.u)) IN
                 LenNear(IF Has(e, "total") THEN e.total ELSE e.len, L, IF e.m = 0 THEN RMul(4, TLen) ELSE TLen))

JudgeParamsByLength(ev, e) ==
    LET c == CurveAt(ev, e.c)
        us == e.r.us
        n == Len(us)
        B(i) == IF i = 0 THEN CurveDomLo(c) ELSE IF i = n + 1 THEN CurveDomHi(c) ELSE R(us[i])
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ (\A i \in 1 .. n : Inside(c, us[i])) THEN {"parameter outside the domain"}
        ELSE Failing("increasing", \A i \in 1 .. n + 1 : RLt(B(i - 1), B(i)))
             \cup (IF ~ (\A i \in 1 .. n + 1 : RLt(B(i - 1), B(i))) THEN {} ELSE
                   Failing("parts of the given length", \A i \in 1 .. n : LenNear(e.len, ArcLen(c, B(i - 1), B(i)), IF e.m = 0 THEN RMul(4, TLen) ELSE TLen))
                   \cup Failing("the rest is not longer", RLe(ArcLen(c, B(n), B(n + 1))[1], RAdd(R(e.len), RMul(TLoose, RMax(1, R(e.len)))))))

---------------------------------------------------------------------------
(* Tessellation *)
JudgeEqTess(ev, e) ==
    LET c == CurveAt(ev, e.c)
        B == CurveBreaks(c)
        n == Len(e.r.ks)
        st == IF n > 60 THEN n \div 50 ELSE 1
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ (RAllFinite(e.r.ks) /\ RAllFinite(e.r.pts)) THEN {"result not finite"}
        ELSE IF Len(e.r.pts) # n \/ n < 2 THEN {"one parameter per point"}
        ELSE Failing("starts and ends at the ends", RNear(R(e.r.ks[1]), CurveDomLo(c), TKnot) /\ RNear(R(e.r.ks[n]), CurveDomHi(c), TKnot))
             \cup Failing("parameters in order", \A i \in 1 .. n - 1 : RLe(R(e.r.ks[i]), R(e.r.ks[i + 1])))
             \cup Failing("every knot is hit", \A j \in 1 .. Len(B) : \E i \in 1 .. n : RNear(R(e.r.ks[i]), B[j], TKnot))
             \cup Failing("points at their parameters", \A i \in 1 .. n : (i % st = 0 \/ i = 1 \/ i = n) =>
                    PtNear(e.r.pts[i], CurveP(c, Clip(c, R(e.r.ks[i]))), TEval))

RECURSIVE Follows(_, _, _, _, _)
Follows(c, S, P, i, tol2) ==
    IF S = <<>> THEN TRUE
    ELSE LET j == FirstNear(P, i, CurveP(c, S[1]), tol2) IN j # 0 /\ Follows(c, Tail(S), P, j, tol2)

\* the polyline starts and ends with the curve and passes, in order, the points of the curve (and, at the knots, exactly);
\* every vertex is on the curve
JudgeTess(ev, e) ==
    LET c == CurveAt(ev, e.c) IN
    IF e.x # "" THEN Unexpected(e)
    ELSE IF ~ RAllFinite(e.r.pts) THEN {"result not finite"}
    ELSE LET P == TLCEval(Pts(e.r.pts))
             n == Len(P)
             B == CurveBreaks(c)
             S == SpanSamples(B, 11)
             sz == RMax(1, MaxAbs(Flatten([i \in 1 .. Len(c.P) |-> Project(c.P[i])])))
             tol == RMul(RQ(1, 10000), sz)
             \* vertices, spread evenly
             st == IF n > 24 THEN n \div 12 ELSE 1
             S96 == TLCEval(SpanSamples(B, 96))
             FS == TLCEval([i \in 1 .. Len(S96) |-> CurveP(c, S96[i])])
         IN  IF n < 2 THEN {"number of points"}
             ELSE Failing("starts and ends at the ends", VNear(P[1], CurveP(c, CurveDomLo(c)), RMul(TShape, sz)) /\ VNear(P[n], CurveP(c, CurveDomHi(c)), RMul(TShape, sz)))
                  \cup Failing("follows the curve", Follows(c, S, P, 1, RMul(tol, tol)))
                  \cup Failing("points of the curve", \A i \in 1 .. n : i % st = 0 => FirstNear(FS, 1, P[i], RMul(R(e.vt), R(e.vt))) # 0)

---------------------------------------------------------------------------
(* Extension *)
\* result on [0, 1]: curve and extension, one on each half
JudgeExtend(ev, e) ==
    LET c == CurveAt(ev, e.c)
        lo == CurveDomLo(c)
        hi == CurveDomHi(c)
        d == R(e.d)
        u0 == IF e.st THEN lo ELSE hi
        D == TLCEval(CurveDers(c, u0, 2))
        sz == RMax(1, MaxAbs(Flatten([i \in 1 .. Len(c.P) |-> Project(c.P[i])])))
        turn == RDiv(RMul(d, VLen(VCross(D[2], D[3]))), RMul(VLen(D[2]), VNorm2(D[2])))
    IN  \* more than a full circle is refused
        IF e.x = "out_of_range" /\ e.ty = 1 /\ RLt(RQ(628, 100), turn) THEN {}
        ELSE IF e.x # "" THEN Unexpected(e)
        ELSE LET F == Usable(e.r.c) IN IF F # {} THEN F
        ELSE LET q == RdCurve(e.r.c) IN
        IF e.ty = 2 THEN
            \* natural: same parameters on the old domain, the end polynomial beyond it
            LET k == IF e.st THEN KSpan(c.p, c.U, lo) ELSE KSpan(c.p, c.U, hi)
                qlo == CurveDomLo(q)
                qhi == CurveDomHi(q)
                S == SpanSamples(CurveBreaks(c), 2 * c.p + 1)
                X == IF e.st THEN SpanSamples(<<qlo, lo>>, 2 * c.p + 1) ELSE SpanSamples(<<hi, qhi>>, 2 * c.p + 1)
                L == IF e.st THEN ArcLen(q, qlo, lo) ELSE ArcLen(q, hi, qhi)
            IN  Failing("old domain kept", IF e.st THEN RNear(qhi, hi, TKnot) /\ RLt(qlo, lo) ELSE RNear(qlo, lo, TKnot) /\ RLt(hi, qhi))
                \cup (IF ~ (IF e.st THEN RNear(qhi, hi, TKnot) /\ RLt(qlo, lo) ELSE RNear(qlo, lo, TKnot) /\ RLt(hi, qhi)) THEN {} ELSE
                      Failing("the curve is kept", \A i \in 1 .. Len(S) : VNear(CurveP(q, Clip(q, S[i])), CurveP(c, S[i]), RMul(TShape, sz)))
                      \cup Failing("continues the end segment", \A i \in 1 .. Len(X) : LET y == CurveHAt(c, k, X[i]) IN
                               VClose(CurveP(q, Clip(q, X[i])), Project(y), RMul(TFrenet, sz)))
                      \cup Failing("length of the extension", RLe(RAbs(RSub(L[1], d)), RMul(RQ(1, 20), d))))
        ELSE
            LET m == RDiv(RAdd(CurveDomLo(q), CurveDomHi(q)), 2)
                el == IF e.st THEN CurveDomLo(q) ELSE m
                eh == IF e.st THEN m ELSE CurveDomHi(q)
                kept == IF e.st THEN TracesPart(c, q, m, CurveDomHi(q)) ELSE TracesPart(c, q, CurveDomLo(q), m)
                Ext == TLCEval([j \in 0 .. 12 |-> CurveP(q, RLerp(el, eh, RQ(j, 12)))])
                tan == VUnit(D[2])
                sg == IF e.st THEN -1 ELSE 1
                far == IF e.st THEN Ext[0] ELSE Ext[12]
                \* centre of curvature, unit normal
                bn == VCross(D[2], D[3])
                kap == RDiv(VLen(bn), RMul(VLen(D[2]), VNorm2(D[2])))
                nn == VUnit(VCross(bn, D[2]))
                rad == RDiv(1, kap)
                cen == VAdd(D[1], VScale(rad, nn))
                th == RMul(sg, RMul(d, kap))
            IN  \* no arc (the curve as it is) where the end is straight or turns by less than a thousandth
                IF e.ty = 1 /\ RLt(RMul(d, kap), RQ(1, 1000)) /\ q.p = c.p /\ KNear(q.U, c.U, TKnot) /\ \A i \in 1 .. Len(c.P) : VNear(q.P[i], c.P[i], TKnot) THEN {}
                ELSE
                Failing("the curve is kept", kept)
                \cup Failing("joined at the end", VNear(IF e.st THEN Ext[12] ELSE Ext[0], D[1], RMul(TShape, sz)))
                \cup (IF e.ty = 0 THEN
                      Failing("extended along the tangent", \A j \in 0 .. 12 :
                          LET w == VSub(Ext[j], D[1]) IN VNear(w, VScale(VDot(w, tan), tan), RMul(TFrenet, sz)))
                      \cup Failing("length of the extension", VNear(far, VAdd(D[1], VScale(RMul(sg, d), tan)), RMul(TFrenet, sz)))
                      ELSE
                      Failing("extended along the circle of curvature", \A j \in 0 .. 12 :
                          LET w == VSub(Ext[j], cen) IN RNear(VLen(w), rad, RMul(TArc, RMax(rad, sz))) /\ RNear(VDot(w, VUnit(bn)), 0, RMul(TArc, sz)))
                      \cup Failing("length of the extension", VNear(far, VAdd(cen, VAdd(VScale(RMul(rad, RSin(th)), tan), VScale(RNeg(RMul(rad, RCos(th))), nn))), RMul(TArc, RMax(rad, sz)))))

---------------------------------------------------------------------------
(* Shape modification *)
SameFrame(c, rc) == IF ~ FiniteCurve(rc) THEN {"result not finite"}
                    ELSE Failing("degree and knots kept", rc.p = c.p /\ KNear(RReadAll(rc.U), c.U, TKnot))
                         \cup Failing("control point count", Len(rc.P) = Len(c.P))
OthersKept(c, q, I) == \A i \in 1 .. Len(c.P) : i \notin I => VNear(q.P[i], c.P[i], RMul(TEval, MaxAbs(c.P[i])))
\* rational basis function
RatBasis(c, i, u) == RDiv(RMul(BasisAt(c, i, u), c.P[i][4]), CurveH(c, u)[4])

JudgeReposition(ev, e) ==
    LET c == CurveAt(ev, e.c)
        u == R(e.u)
        dir == VUnit(Pts(e.dir))
        rb == RatBasis(c, e.i + 1, u)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF RSgn(rb) = 0 THEN Failing("point moved that does not influence the curve there", ~ e.r.b)
        ELSE IF ~ e.r.b THEN {"reposition refused"}
        ELSE LET F == SameFrame(c, e.r.c) IN IF F # {} THEN F
        ELSE LET q == RdCurve(e.r.c) IN
             Failing("other control points kept", OthersKept(c, q, {e.i + 1}))
             \cup Failing("weight kept", RClose(q.P[e.i + 1][4], c.P[e.i + 1][4], TEval))
             \cup Failing("point moved by the distance in the direction",
                    VClose(CurveP(q, u), VAdd(CurveP(c, u), VScale(R(e.d), dir)), TFrenet))

JudgeWeightMod(ev, e) ==
    LET c == CurveAt(ev, e.c)
        u == R(e.u)
        X == CurveP(c, u)
        K == Project(c.P[e.i + 1])
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE LET F == SameFrame(c, e.r.c) IN IF F # {} THEN F
        ELSE LET q == RdCurve(e.r.c) IN
             Failing("other control points kept", OthersKept(c, q, {e.i + 1}))
             \cup Failing("control point kept", RSgn(q.P[e.i + 1][4]) # 0 /\ VClose(Project(q.P[e.i + 1]), K, TFrenet))
             \cup Failing("point moved by the distance towards the control point",
                    VClose(CurveP(q, u), VAdd(X, VScale(R(e.d), VUnit(VSub(K, X)))), TFrenet))

JudgeNeighborMod(ev, e) ==
    LET c == CurveAt(ev, e.c)
        u == R(e.u)
        X == CurveP(c, u)
        z == [c EXCEPT !.P = [i \in 1 .. Len(c.P) |-> IF i \in {e.i + 1, e.i + 2} THEN VZero(4) ELSE c.P[i]]]
        Y == CurveP(z, u)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ e.r.b THEN {"modification refused"}
        ELSE LET F == SameFrame(c, e.r.c) IN IF F # {} THEN F
        ELSE LET q == RdCurve(e.r.c) IN
             Failing("other control points kept", OthersKept(c, q, {e.i + 1, e.i + 2}))
             \cup Failing("point moved by the distance towards the leg", VClose(CurveP(q, u), VAdd(X, VScale(R(e.d), VUnit(VSub(X, Y)))), TArc))

JudgeWarp(ev, e) ==
    LET c == CurveAt(ev, e.c)
        f == RReadAll(e.f)
        h == RDiv(RAdd(R(e.lo), R(e.hi)), 2)
        W == VScale(R(e.d), VUnit(VCross(CurveDers(c, h, 1)[2], Pts(e.nrm))))
        S == SpanSamples(CurveBreaks(c), 2 * c.p + 1)
        Sh(u) == LET k == KSpan(c.p, c.U, u) IN
                 RDiv(RDot(BasisRow(c.U, k, c.p, u), [i \in 1 .. c.p + 1 |-> RMul(f[k - c.p + i - 1], c.P[k - c.p + i - 1][4])]), CurveH(c, u)[4])
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE LET F == SameFrame(c, e.r.c) IN IF F # {} THEN F
        ELSE LET q == RdCurve(e.r.c) IN
             Failing("warped by the shape function", \A i \in 1 .. Len(S) : VClose(CurveP(q, S[i]), VAdd(CurveP(c, S[i]), VScale(Sh(S[i]), W)), TFrenet))

\* the control points whose influence lies between the two parameters
Between(c, lo, hi) == {i \in 1 .. Len(c.P) : i >= KSpan(c.p, c.U, lo) /\ i <= KSpan(c.p, c.U, hi) - c.p - 1}
JudgeFlatten(ev, e) ==
    LET c == CurveAt(ev, e.c)
        a == Pts(e.a)
        b == Pts(e.b)
        I == Between(c, R(e.lo), R(e.hi))
        dir == VUnit(VSub(b, a))
        T(X) == VDot(VSub(X, a), dir)
        onSeg == {i \in I : RLe(0, T(Project(c.P[i]))) /\ RLe(T(Project(c.P[i])), VDist(a, b))}
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE LET F == SameFrame(c, e.r.c) IN IF F # {} THEN F
        ELSE LET q == RdCurve(e.r.c) IN
             Failing("other control points kept", OthersKept(c, q, onSeg))
             \cup Failing("projected onto the line", \A i \in onSeg :
                    VClose(Project(q.P[i]), VAdd(a, VScale(T(Project(c.P[i])), dir)), TFrenet) /\ RClose(q.P[i][4], c.P[i][4], TEval))
             \cup Failing("flat part reported", e.r.b = (Cardinality(onSeg) >= c.p + 1))

JudgeBend(ev, e) ==
    LET c == CurveAt(ev, e.c)
        o == Pts(e.o)
        cr == R(e.cr)
        I == Between(c, R(e.lo), R(e.hi))
        To(X) == LET s == RDiv(R(e.rad), VDist(o, X))
                     t == RDiv(RMul(cr, s), RAdd(1, RMul(RSub(cr, 1), s)))
                 IN  VAdd(o, VScale(t, VSub(X, o)))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE LET F == SameFrame(c, e.r.c) IN IF F # {} THEN F
        ELSE LET q == RdCurve(e.r.c) IN
             Failing("other control points kept", OthersKept(c, q, I))
             \cup Failing("bent towards the circle", \A i \in I : VClose(Project(q.P[i]), To(Project(c.P[i])), TFrenet) /\ RClose(q.P[i][4], c.P[i][4], TEval))

\* non-rational curves
JudgeConstrain(ev, e) ==
    LET c == CurveAt(ev, e.c)
        us == RReadAll(e.us)
        D == Pts(e.D)
        mx == 3
        sz == MaxAbs(Flatten(c.P))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE LET F == SameFrame(c, e.r.c) IN IF F # {} THEN F
        ELSE LET q == RdCurve(e.r.c) IN
             Failing("weights kept", \A i \in 1 .. Len(c.P) : RClose(q.P[i][4], c.P[i][4], TEval))
             \cup Failing("fixed control points kept", \A k \in 1 .. Len(e.fix) : VNear(q.P[e.fix[k] + 1], c.P[e.fix[k] + 1], RMul(TEval, sz)))
             \cup Failing("constraints met", \A k \in 1 .. Len(D) :
                    LET u == us[e.Dr[k] + 1]
                        x == CurveDers(c, u, e.Dk[k])[e.Dk[k] + 1]
                        y == CurveDers(q, u, e.Dk[k])[e.Dk[k] + 1]
                    IN  VNear(y, VAdd(x, D[k]), RMul(TArc, RMax(sz, MaxAbs(x)))))

JudgeCM(ev, i) ==
    LET e == ev[i] IN
    CASE e.op = "Line" -> JudgeLine(ev, e)
      [] e.op = "ProjNormals" -> JudgeProjNormals(ev, e)
      [] e.op = "CanDer" -> JudgeCanDer(ev, e)
      [] e.op = "Arc" -> JudgeArc(ev, e)
      [] e.op = "ConicOpen" -> JudgeConicOpen(ev, e)
      [] e.op = "ConicOne" -> JudgeConicOne(ev, e)
      [] e.op = "SplitArc" -> JudgeSplitArc(ev, e)
      [] e.op = "Hermite" -> JudgeHermite(ev, e)
      [] e.op = "Interp" -> JudgeInterp(ev, e)
      [] e.op = "InterpTan" -> JudgeInterpTan(ev, e)
      [] e.op = "CubicLocal" -> JudgeCubicLocal(ev, e)
      [] e.op = "LeastSquares" -> JudgeLeastSquares(ev, e)
      [] e.op = "WLeastSquares" -> JudgeWLeastSquares(ev, e)
      [] e.op = "ErrApprox" -> JudgeErrApprox(ev, e)
      [] e.op = "ParamOfPoint" -> JudgeParamOfPoint(ev, e)
      [] e.op = "AllParamsOfPoint" -> JudgeAllParams(ev, e)
      [] e.op \in {"Length", "LengthRange"} -> JudgeLength(ev, e)
      [] e.op = "ParamByLength" -> JudgeParamByLength(ev, e)
      [] e.op = "ParamsByLength" -> JudgeParamsByLength(ev, e)
      [] e.op = "EqTess" -> JudgeEqTess(ev, e)
      [] e.op = "Tess" -> JudgeTess(ev, e)
      [] e.op = "Extend" -> JudgeExtend(ev, e)
      [] e.op = "Reposition" -> JudgeReposition(ev, e)
      [] e.op = "WeightMod" -> JudgeWeightMod(ev, e)
      [] e.op = "NeighborMod" -> JudgeNeighborMod(ev, e)
      [] e.op = "Warp" -> JudgeWarp(ev, e)
      [] e.op = "Flatten" -> JudgeFlatten(ev, e)
      [] e.op = "Bend" -> JudgeBend(ev, e)
      [] e.op = "Constrain" -> JudgeConstrain(ev, e)
      [] OTHER -> JudgeC(ev, i)
=============================================================================
