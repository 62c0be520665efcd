------------------------------ MODULE FitRules ------------------------------
(***************************************************************************)
(* Conformance of data parametrization (parameters, knots and tangents     *)
(* derived from points) and of fitting points with one conic or one cubic  *)
(* segment.                                                                *)
(***************************************************************************)
EXTENDS CurveMore

\* running sums of a sequence of lengths, divided by the total
Cumulate(d) ==
    LET n == Len(d)
        tot == SumSeq(d, n)
    IN  TLCEval([i \in 1 .. n + 1 |-> RDiv(SumSeq(d, i - 1), tot)])
Evenly(n) == [i \in 1 .. n |-> RQ(i - 1, n - 1)]
ParOf(d, n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<R(0)>>
               ELSE IF REq(SumSeq(d, Len(d)), 0) THEN Evenly(n) ELSE Cumulate(d)
Roots(d) == [i \in 1 .. Len(d) |-> RSqrt(d[i])]
SeqClose(a, b, tol) == Len(a) = Len(b) /\ (\A i \in 1 .. Len(b) : RIsFinite(a[i])) /\ (\A i \in 1 .. Len(b) : RNear(R(a[i]), b[i], tol))
VecFin(v) == \A i \in 1 .. Len(v) : RAllFinite(v[i])

\* the five-point rule: directions
FiveTangents(Q) ==
    LET n == Len(Q)
        q == [k \in 1 .. n - 1 |-> VSub(Q[k + 1], Q[k])]
        q0 == VSub(VScale(2, q[1]), q[2])
        qm == VSub(VScale(2, q0), q[1])
        qn == VSub(VScale(2, q[n - 1]), q[n - 2])
        qp == VSub(VScale(2, qn), q[n - 1])
        X == TLCEval(<<qm, q0>> \o q \o <<qn, qp>>)          \* X[k + 1] is the chord that ends at point k, k = 0 .. n + 2
        Cr(a, b) == VLen(VCross(a, b))
        T(k) ==                                               \* point k lies between chords X[k + 1] and X[k + 2]
            LET a == Cr(X[k], X[k + 1])
                b == Cr(X[k + 2], X[k + 3])
                s == IF RLt(RAdd(a, b), RQ(1, 100000)) THEN RQ(1, 2) ELSE RDiv(a, RAdd(a, b))
            IN  VAdd(VScale(RSub(1, s), X[k + 1]), VScale(s, X[k + 2]))
    IN  TLCEval([k \in 1 .. n |-> T(k)])

JudgeParams(ev, e) ==
    LET Q == Pts(e.q)
        n == Len(Q)
        d == TLCEval(Chords(Q))
        u == ParOf(d, n)
        s == TLCEval(Roots(d))
        v == ParOf(s, n)
        len == IF n < 2 THEN R(0) ELSE SumSeq(d, n - 1)
        clen == IF n < 2 THEN R(0) ELSE SumSeq(s, n - 1)
        h == [i \in 1 .. n - 1 |-> RSub(u[i + 1], u[i])]
        Pos(i) == RLt(RQ(1, 100000), h[i])
        slope == TLCEval([i \in 1 .. n - 1 |-> IF Pos(i) THEN VScale(RDiv(1, h[i]), VSub(Q[i + 1], Q[i])) ELSE VZero(3)])
        T3 == Pts(e.r.t3)
        sz == RMax(1, RMul(1, MaxAbs(Flatten(slope))))
        \* T is d1 + a (d2 - d1) with 0 <= a <= 1, and halfway when the spacing is the same on both sides
        Between3(T, i) ==
            LET g == VSub(slope[i], slope[i - 1])
                gg == VNorm2(g)
                a == RDiv(VDot(VSub(T, slope[i - 1]), g), gg)
            IN  IF RLt(gg, RQ(1, 100000000)) THEN VNear(T, slope[i], RMul(TArc, sz))
                ELSE /\ RLe(RNeg(TFrenet), a) /\ RLe(a, RAdd(1, TFrenet))
                     /\ VNear(T, VAdd(slope[i - 1], VScale(a, g)), RMul(TShape, sz))
                     /\ (RNear(h[i], h[i - 1], TKnot) => RNear(a, RQ(1, 2), TArc))
        Inner(i) == IF Pos(i - 1) /\ Pos(i) THEN Between3(T3[i], i)
                    ELSE IF Pos(i) THEN VNear(T3[i], slope[i], RMul(TShape, sz))
                    ELSE IF Pos(i - 1) THEN VNear(T3[i], slope[i - 1], RMul(TShape, sz))
                    ELSE VNear(T3[i], VZero(3), TEval)
        EndT(k, i, m) == IF Pos(i) THEN VNear(T3[k], VSub(VScale(2, slope[i]), T3[m]), RMul(TShape, sz)) ELSE VNear(T3[k], T3[m], RMul(TShape, sz))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE Failing("chord length", RIsFinite(e.r.len) /\ RClose(R(e.r.len), len, TEval))
             \cup Failing("centripetal length", RIsFinite(e.r.clen) /\ RClose(R(e.r.clen), clen, TEval))
             \cup Failing("chord parameters", SeqClose(e.r.u, u, TKnot))
             \cup Failing("centripetal parameters", SeqClose(e.r.v, v, TKnot))
             \cup (IF ~ VecFin(e.r.t3) THEN {"tangents not finite"}
                   ELSE IF Len(e.r.t3) # n THEN {"number of tangents"}
                   ELSE IF n < 3 THEN Failing("tangents of a segment", n = 2 => \A i \in 1 .. 2 : VNear(T3[i], VSub(Q[2], Q[1]), TEval))
                   ELSE Failing("tangent between adjacent slopes", \A i \in 2 .. n - 1 : Inner(i))
                        \cup Failing("tangent at the start", EndT(1, 1, 2))
                        \cup Failing("tangent at the end", EndT(n, n - 1, n - 1)))
             \cup Failing("five points needed", e.r.b5 = (n >= 5))
             \cup (IF ~ e.r.b5 \/ n < 5 THEN {}
                   ELSE IF ~ VecFin(e.r.t5) \/ Len(e.r.t5) # n THEN {"unit tangents"}
                   ELSE LET T5 == Pts(e.r.t5)
                            E5 == FiveTangents(Q)
                        IN  Failing("unit tangents", \A k \in 1 .. n : RLt(RQ(1, 1000), VNorm2(E5[k])) => VNear(T5[k], VUnit(E5[k]), TFrenet)))

\* p-fold averages of parameters
AverageKnots(p, u) ==
    LET n == Len(u) IN
    [i \in 1 .. n + p + 1 |-> IF i <= p + 1 THEN u[1] ELSE IF i > n THEN u[n]
                              ELSE RDiv(RSum([k \in 1 .. p |-> u[i - p - 1 + k]]), p)]
\* knots that spread the parameters evenly over the spans
SpreadKnots(p, n, u) ==
    LET d == RQ(Len(u), n - p)
        K(j) == LET x == RMul(j, d)
                    i == RFloor(x)
                    a == RSub(x, i)
                IN  RAdd(RMul(RSub(1, a), u[i]), RMul(a, u[i + 1]))
    IN  [i \in 1 .. n + p + 1 |-> IF i <= p + 1 THEN R(0) ELSE IF i > n THEN R(1) ELSE K(i - p - 1)]
EverySpanHasOne(p, n, U, u) ==
    \A k \in p + 1 .. n : RLt(U[k], U[k + 1]) => \E i \in 1 .. Len(u) : RLe(RSub(U[k], TKnot), u[i]) /\ RLe(u[i], RAdd(U[k + 1], TKnot))

JudgeKnots(ev, e) ==
    LET u == RReadAll(e.u) IN
    IF e.x # "" THEN Unexpected(e)
    ELSE Failing("averaged knots", \A k \in 1 .. Len(e.ps) : SeqClose(e.r.av[k], AverageKnots(e.ps[k], u), RMul(TKnot, RMax(1, MaxAbs(u)))))
         \cup Failing("spread knots", \A k \in 1 .. Len(e.pn) : SeqClose(e.r.cv[k], SpreadKnots(e.pn[k][1], e.pn[k][2], u), TKnot))
         \cup Failing("every span has a parameter", \A k \in 1 .. Len(e.pn) : EverySpanHasOne(e.pn[k][1], e.pn[k][2], RReadAll(e.r.cv[k]), u))

\* averages over the lines that have a length
MeshPar(L) ==
    LET good == SelectSeq(L, LAMBDA q : ~ REq(SumSeq(Chords(q), Len(q) - 1), 0))
        P == TLCEval([i \in 1 .. Len(good) |-> Cumulate(Chords(good[i]))])
    IN  IF Len(good) = 0 THEN <<>> ELSE [k \in 1 .. Len(L[1]) |-> RDiv(RSum([i \in 1 .. Len(good) |-> P[i][k]]), Len(good))]
JudgeMeshParams(ev, e) ==
    LET Q == Pts(e.q)
        n == Len(Q)
        m == Len(Q[1])
        U == TLCEval(MeshPar([l \in 1 .. m |-> [k \in 1 .. n |-> Q[k][l]]]))
        V == TLCEval(MeshPar(Q))
        ok == U # <<>> /\ V # <<>>
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ ok \/ ~ e.r.b THEN Failing("parameters exist", ok = e.r.b)
        ELSE Failing("mesh parameters u", SeqClose(e.r.u, U, TKnot)) \cup Failing("mesh parameters v", SeqClose(e.r.v, V, TKnot))

---------------------------------------------------------------------------
(* One segment through Q[i] with direction ts and Q[j] with direction te *)
\* v points the way of t
Along(v, t) == /\ RLt(0, VDot(v, t))
               /\ RLe(VNorm2(VCross(v, t)), RMul(RMul(TFrenet, TFrenet), RMul(VNorm2(v), VNorm2(t))))
\* the arc whose shoulder lies midway between the points in which the bisectors of the angles at a and b meet the median
BisectorWeight(a, x, b) ==
    LET g1 == RDiv(VDist(a, b), VDist(a, x))
        g2 == RDiv(VDist(a, b), VDist(b, x))
        s == RMul(RQ(1, 2), RAdd(RDiv(g1, RAdd(2, g1)), RDiv(g2, RAdd(2, g2))))
    IN  RDiv(s, RSub(1, s))
BezierOf(P) == LET p == Len(P) - 1 IN [p |-> p, U |-> [i \in 1 .. 2 * p + 2 |-> IF i <= p + 1 THEN R(0) ELSE R(1)], P |-> P]
Hom(q) == q \o <<R(1)>>

JudgeFit(ev, e, cubic) ==
    LET Q == Pts(e.q)
        i == e.i + 1
        j == e.j + 1
        a == Q[i]
        b == Q[j]
        ts == Pts(e.ts)
        te == Pts(e.te)
        M == Pts(e.r.mid)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ e.r.b THEN (IF Has(e, "must") THEN {"a segment through the points exists"} ELSE {})
                             \cup Failing("nothing added without success", Len(e.r.mid) = 0)
        ELSE IF ~ VecFin(e.r.mid) THEN {"result not finite"}
        ELSE IF Len(M) # (IF cubic THEN 2 ELSE IF j - i > 1 \/ Len(M) = 1 THEN 1 ELSE 3) THEN {"number of control points"}
        ELSE IF \E k \in 1 .. Len(M) : ~ RLt(0, M[k][4]) THEN {"weights positive"}
        ELSE LET X == [k \in 1 .. Len(M) |-> Project(M[k])]
                 c == BezierOf(<<Hom(a)>> \o M \o <<Hom(b)>>)
             IN  Failing("start direction", Along(VSub(X[1], a), ts))
                 \cup Failing("end direction", Along(VSub(b, X[Len(X)]), te))
                 \cup Failing("smooth joint", Len(X) = 3 /\ ~ cubic => Along(VSub(X[2], X[1]), VSub(X[3], X[2])))
                 \cup Failing("weights from the angle bisectors", ~ cubic /\ j - i = 1 =>
                        IF Len(M) = 1 THEN RClose(M[1][4], BisectorWeight(a, X[1], b), TFrenet)
                        ELSE RClose(M[1][4], BisectorWeight(a, X[1], X[2]), TFrenet) /\ RClose(M[3][4], BisectorWeight(X[2], X[3], b), TFrenet))
                 \cup Failing("unit weights of a cubic", cubic => UnitW(c))
                 \cup Failing("points within the tolerance", j - i > 1 =>
                        \A k \in i + 1 .. j - 1 : RLe(VDist(CurveP(c, R(e.r.at[k - i])), Q[k]), RAdd(RMul(RAdd(1, TFrenet), R(e.eps)), TFrenet)))
                 \cup Failing("the segment the points come from", Has(e, "is") /\ Len(M) = Len(e.is) => LET I == Pts(e.is) IN \A k \in 1 .. Len(M) : VNear(X[k], Project(I[k]), RMul(TArc, RMax(1, MaxAbs(Project(I[k]))))) /\ RClose(M[k][4], I[k][4], TArc))

JudgeF(ev, i) ==
    LET e == ev[i] IN
    CASE e.op = "Params" -> JudgeParams(ev, e)
      [] e.op = "Knots" -> JudgeKnots(ev, e)
      [] e.op = "MeshParams" -> JudgeMeshParams(ev, e)
      [] e.op = "FitConic" -> JudgeFit(ev, e, FALSE)
      [] e.op = "FitCubic" -> JudgeFit(ev, e, TRUE)
      [] OTHER -> JudgeCM(ev, i)
=============================================================================
