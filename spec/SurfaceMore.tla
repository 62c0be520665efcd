---------------------------- MODULE SurfaceMore ----------------------------
(***************************************************************************)
(* Conformance of constructed surfaces, surface interpolation and          *)
(* approximation, inversion, area, boxes, tessellation and triangulation.  *)
(***************************************************************************)
EXTENDS SurfaceRules, CurveMore

\* a result that can be evaluated
SUsable(rs) ==
    IF ~ FiniteSurf(rs) THEN {"result not finite"}
    ELSE IF rs.pu < 1 \/ rs.pv < 1 \/ Len(rs.P) = 0 THEN {"degree"}
    ELSE Failing("result well formed", WellFormedSurface(RdSurf(rs)))
SScale(q) == MaxAbs([i \in 1 .. Len(q.P) |-> MaxAbs([j \in 1 .. Len(q.P[i]) |-> MaxAbs(Project(q.P[i][j]))])])
ULo(q) == DomLo(q.pu, q.U)
UHi(q) == DomHi(q.pu, q.U)
VLo(q) == DomLo(q.pv, q.V)
VHi(q) == DomHi(q.pv, q.V)
OnUnit(q) == RNear(ULo(q), 0, TKnot) /\ RNear(UHi(q), 1, TKnot) /\ RNear(VLo(q), 0, TKnot) /\ RNear(VHi(q), 1, TKnot)
ClipU(q, u) == RMax(ULo(q), RMin(UHi(q), u))
ClipV(q, v) == RMax(VLo(q), RMin(VHi(q), v))
\* surface q takes the value X(u, v) on the samples
TakesOn(q, SU, SV, X(_, _), tol) ==
    \A i \in 1 .. Len(SU) :
        LET row == SurfRow(q, ClipU(q, SU[i])) IN
        \A j \in 1 .. Len(SV) : VNear(CurveP(row, ClipV(q, SV[j])), X(SU[i], SV[j]), tol)
Eighths == [i \in 1 .. 9 |-> RQ(i - 1, 8)]

---------------------------------------------------------------------------
(* Elementary surfaces *)
JudgeBilinear(ev, e) ==
    LET X(u, v) == VLerp(VLerp(Pts(e.tl), Pts(e.tr), v), VLerp(Pts(e.bl), Pts(e.br), v), u) IN
    IF e.x # "" THEN Unexpected(e)
    ELSE LET F == SUsable(e.r.s) IN IF F # {} THEN F
    ELSE LET q == RdSurf(e.r.s) IN
         Failing("domain", OnUnit(q))
         \cup Failing("bilinear in the four corners", OnUnit(q) => TakesOn(q, Eighths, Eighths, X, RMul(TShape, RMax(1, SScale(q)))))

JudgeCylinder(ev, e) ==
    LET o == Pts(e.o)
        xa == VUnit(Pts(e.xa))
        ya == VUnit(Pts(e.ya))
        ax == VCross(xa, ya)
        r == R(e.rad)
        h == R(e.h)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ e.r.b THEN {"surface not created"}
        ELSE LET F == SUsable(e.r.s) IN IF F # {} THEN F
        ELSE LET q == RdSurf(e.r.s)
                 S == SpanSamples(SurfBreaksV(q), 10)
                 n == Len(S)
                 tol == RMul(TShape, RMax(1, RMax(MaxAbs(o), RMax(r, h))))
                 At(t, a) == VAdd(o, VAdd(VScale(RMul(h, RSub(1, t)), ax), VAdd(VScale(RMul(r, RCos(a)), xa), VScale(RMul(r, RSin(a)), ya))))
                 Row(t) == SurfRow(q, RLerp(ULo(q), UHi(q), t))
                 D == TLCEval([k \in 0 .. 4 |-> LET w == Row(RQ(k, 4)) IN TLCEval([i \in 1 .. n |->
                         LET d == VSub(CurveP(w, S[i]), o) IN <<VDot(d, xa), VDot(d, ya), VDot(d, ax)>>])])
                 Turn(k, i) == RDiv(RSub(RMul(D[k][i][1], D[k][i + 1][2]), RMul(D[k][i][2], D[k][i + 1][1])), RMul(r, r))
                 sweep == RSub(R(e.a1), R(e.a0))
             IN  Failing("corners", \A t \in {0, 1} : VNear(CurveP(Row(R(t)), S[1]), At(R(t), R(e.a0)), tol) /\ VNear(CurveP(Row(R(t)), S[n]), At(R(t), R(e.a1)), tol))
                 \cup Failing("on the cylinder", \A k \in 0 .. 4 : \A i \in 1 .. n :
                        RNear(RSqrt(RAdd(RMul(D[k][i][1], D[k][i][1]), RMul(D[k][i][2], D[k][i][2]))), r, tol))
                 \cup Failing("height", \A k \in 0 .. 4 : \A i \in 1 .. n : RNear(D[k][i][3], RMul(h, RQ(4 - k, 4)), tol))
                 \cup Failing("rulings are straight", \A k \in 1 .. 4 : \A i \in 1 .. n : RNear(D[k][i][1], D[0][i][1], tol) /\ RNear(D[k][i][2], D[0][i][2], tol))
                 \cup Failing("runs from start to end angle", \A i \in 1 .. n - 1 : RLt(0, Turn(0, i)) /\ RLt(Turn(0, i), RQ(1, 2)))
                 \cup Failing("swept angle", RNear(SumSeq([i \in 1 .. n - 1 |-> Turn(0, i)], n - 1), sweep, RAdd(RQ(1, 1000), RMul(RQ(1, 50), sweep))))

\* both curves at the ends, straight lines (blended by weight) between
JudgeRuled(ev, e) ==
    LET a == CurveAt(ev, e.c1)
        b == CurveAt(ev, e.c2)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE LET F == SUsable(e.r.s) IN IF F # {} THEN F
        ELSE LET q == RdSurf(e.r.s)
                 SU == SpanSamples(SurfBreaksU(q), 2 * q.pu + 1)
                 dom == RNear(ULo(q), CurveDomLo(a), TKnot) /\ RNear(UHi(q), CurveDomHi(a), TKnot) /\ RNear(VLo(q), 0, TKnot) /\ RNear(VHi(q), 1, TKnot)
             IN  Failing("domain", dom)
                 \cup Failing("degrees", q.pu = IF a.p > b.p THEN a.p ELSE b.p)
                 \cup Failing("straight between the two curves", dom => \A i \in 1 .. Len(SU) :
                        LET row == SurfRow(q, SU[i])
                            x == CurveH(a, Clip(a, SU[i]))
                            y == CurveH(b, Clip(b, SU[i]))
                        IN  \A j \in 0 .. 4 : VClose(CurveP(row, RQ(j, 4)), Project(VLerp(x, y, RQ(j, 4))), TShape))

\* the profile turned about the axis, by the same angle along the whole profile
JudgeRevolved(ev, e) ==
    LET o == Pts(e.o)
        ax == VUnit(Pts(e.ax))
        c == CurveAt(ev, e.c)
        th == R(e.rad)
        Along(X) == VDot(VSub(X, o), ax)
        Axis(X) == VAdd(o, VScale(Along(X), ax))
        Rot(X, cs, sn) == LET w == VSub(X, Axis(X)) IN VAdd(Axis(X), VAdd(VScale(cs, w), VScale(sn, VCross(ax, w))))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ e.r.b THEN {"surface not created"}
        ELSE LET F == SUsable(e.r.s) IN IF F # {} THEN F
        ELSE LET q == RdSurf(e.r.s)
                 SU == SpanSamples(SurfBreaksU(q), 10)
                 n == Len(SU)
                 SV == Sparse(SpanSamples(CurveBreaks(c), 2 * c.p + 1), 14)
                 tol == RMul(TShape, RMax(1, RMax(MaxAbs(o), SScale(q))))
                 dom == RNear(VLo(q), CurveDomLo(c), TKnot) /\ RNear(VHi(q), CurveDomHi(c), TKnot)
                 C == TLCEval([j \in 1 .. Len(SV) |-> CurveP(c, SV[j])])
                 Rad(X) == VDist(X, Axis(X))
                 \* the sample farthest from the axis tells the angle
                 far == CHOOSE j \in 1 .. Len(SV) : \A k \in 1 .. Len(SV) : RLe(Rad(C[k]), Rad(C[j]))
                 r == Rad(C[far])
                 e1 == VScale(RDiv(1, r), VSub(C[far], Axis(C[far])))
                 e2 == VCross(ax, e1)
                 X == TLCEval([i \in 1 .. n |-> LET w == SurfRow(q, SU[i]) IN TLCEval([j \in 1 .. Len(SV) |-> CurveP(w, ClipV(q, SV[j]))])])
                 A == TLCEval([i \in 1 .. n |-> LET w == VSub(X[i][far], Axis(X[i][far])) IN <<RDiv(VDot(w, e1), r), RDiv(VDot(w, e2), r)>>])
                 Turn(i) == RSub(RMul(A[i][1], A[i + 1][2]), RMul(A[i][2], A[i + 1][1]))
             IN  Failing("domain", dom)
                 \cup (IF ~ dom THEN {} ELSE
                       Failing("starts with the profile", \A j \in 1 .. Len(SV) : VNear(X[1][j], C[j], tol))
                       \cup Failing("ends with the profile turned by the angle", \A j \in 1 .. Len(SV) : VNear(X[n][j], Rot(C[j], RCos(th), RSin(th)), tol))
                       \cup Failing("on the circle about the axis", \A i \in 1 .. n : RNear(RAdd(RMul(A[i][1], A[i][1]), RMul(A[i][2], A[i][2])), 1, TFrenet))
                       \cup Failing("profile turned about the axis", \A i \in 1 .. n : \A j \in 1 .. Len(SV) : VNear(X[i][j], Rot(C[j], A[i][1], A[i][2]), RMul(10, tol)))
                       \cup Failing("turns steadily", \A i \in 1 .. n - 1 : RLt(0, Turn(i)) /\ RLt(Turn(i), RQ(1, 2)))
                       \cup Failing("turned angle", RNear(SumSeq([i \in 1 .. n - 1 |-> Turn(i)], n - 1), th, RAdd(RQ(1, 1000), RMul(RQ(1, 50), th)))))

JudgeNUScale(ev, e) ==
    LET s == SurfAt(ev, e.s)
        o == Pts(e.o)
        f == <<R(e.fx), R(e.fy), R(e.fz)>>
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE LET F == SUsable(e.r.s) IN IF F # {} THEN F
        ELSE LET q == RdSurf(e.r.s) IN
             IF ~ (Len(q.P) = Len(s.P) /\ Len(q.P[1]) = Len(s.P[1])) THEN {"control point count"} ELSE
             Failing("scaled from the reference point", \A i \in 1 .. Len(s.P) : \A j \in 1 .. Len(s.P[1]) :
                LET x == Project(s.P[i][j]) IN
                VClose(Project(q.P[i][j]), [k \in 1 .. 3 |-> RAdd(o[k], RMul(f[k], RSub(x[k], o[k])))], TShape) /\ RClose(q.P[i][j][4], s.P[i][j][4], TEval))

JudgeTransSweep(ev, e) ==
    LET a == CurveAt(ev, e.c1)
        b == CurveAt(ev, e.c2)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE LET F == SStructure(e.r.s, a.p, b.p, a.U, b.U, TKnot) \cup SUsable(e.r.s) IN IF F # {} THEN F
        ELSE LET q == RdSurf(e.r.s)
                 SU == SampU(q)
                 SV == SampV(q)
                 B == TLCEval([j \in 1 .. Len(SV) |-> CurveP(b, SV[j])])
             IN  Failing("sum of the two curves", \A i \in 1 .. Len(SU) :
                    LET row == SurfRow(q, SU[i])
                        x == CurveP(a, SU[i])
                    IN  \A j \in 1 .. Len(SV) : VClose(CurveP(row, SV[j]), VAdd(x, B[j]), TShape))

---------------------------------------------------------------------------
(* Sweeping a profile along a trajectory *)
\* samples that sample i is measured against
Witness(i, n) == {1, 2, (n + 1) \div 2, n, i}
\* the profile a, in the plane normal to curve b at t, is the section of q at v: lengths, angles and orientation about b(t) are kept
Placed(q, a, b, v, t, tol) ==
    LET O == CurveP(b, t)
        T == VUnit(DerAt(b, t))
        row == SurfRow(SwapUV(q), ClipV(q, v))
        SU == SampU(q)
        n == Len(SU)
        X == TLCEval([i \in 1 .. n |-> VSub(CurveP(row, SU[i]), O)])
        C == TLCEval([i \in 1 .. n |-> CurveP(a, Clip(a, SU[i]))])
        sz == RMax(1, MaxAbs(Flatten(C)))
        t1 == RMul(tol, sz)
        t2 == RMul(t1, sz)
    IN  /\ \A i \in 1 .. n : RNear(VDot(X[i], T), C[i][3], t1)
        /\ \A i \in 1 .. n : \A j \in Witness(i, n) : RNear(VDot(X[i], X[j]), VDot(C[i], C[j]), t2)
        /\ \A i \in 1 .. n : \A j \in Witness(i, n) : RNear(VDot(VCross(X[i], X[j]), T), VCross(C[i], C[j])[3], t2)
\* the section at v is congruent to the profile, wherever it lies
Rigid(q, a, v, tol) ==
    LET row == SurfRow(SwapUV(q), ClipV(q, v))
        SU == SampU(q)
        n == Len(SU)
        X == TLCEval([i \in 1 .. n |-> CurveP(row, SU[i])])
        C == TLCEval([i \in 1 .. n |-> CurveP(a, Clip(a, SU[i]))])
        sz == RMax(1, MaxAbs(Flatten(C)))
    IN  \A i \in 1 .. n : \A j \in Witness(i, n) : RNear(VDist(X[i], X[j]), VDist(C[i], C[j]), RMul(tol, sz))
\* averages of the knots under each control point, as fractions of the domain
AverageOf(b) == LET lo == CurveDomLo(b) hi == CurveDomHi(b) IN
                TLCEval([i \in 1 .. Len(b.P) |-> RDiv(RSub(RDiv(RSum([k \in 1 .. b.p |-> b.U[i + k]]), b.p), lo), RSub(hi, lo))])
\* a segment run through evenly
EvenLine(b) == LET g == AverageOf(b)
                   X == [i \in 1 .. Len(b.P) |-> Project(b.P[i])]
                   m == Len(X)
               IN  UnitW(b) /\ \A i \in 1 .. m : VNear(X[i], VAdd(X[1], VScale(g[i], VSub(X[m], X[1]))), TEval)
\* control points in order on a segment
OnLine(b) == LET X == [i \in 1 .. Len(b.P) |-> Project(b.P[i])]
                 m == Len(X)
                 d == VSub(X[m], X[1])
             IN  \A i \in 1 .. m - 1 : LET h == VSub(X[i + 1], X[i]) IN RLt(0, VDot(h, d)) /\ RLe(VNorm2(VCross(h, d)), RMul(RMul(TEval, TEval), VNorm2(d)))
JudgeSweep(ev, e, two) ==
    LET a == CurveAt(ev, e.c1)
        b == CurveAt(ev, e.c2)
        At(t) == RLerp(CurveDomLo(b), CurveDomHi(b), t)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE LET F == SUsable(e.r.s) IN IF F # {} THEN F
        ELSE LET q == RdSurf(e.r.s)
                 n == Len(q.P[1])
                 SU == SampU(q)
                 dom == RNear(ULo(q), CurveDomLo(a), TKnot) /\ RNear(UHi(q), CurveDomHi(a), TKnot) /\ RNear(VLo(q), 0, TKnot) /\ RNear(VHi(q), 1, TKnot)
                 ts == IF two THEN RReadAll(e.ts) ELSE AverageOf(b)     \* positions of the sections on the trajectory, as fractions of its domain
                 L == IF two THEN TLCEval([k \in 1 .. Len(ts) - 1 |-> ArcLen(b, At(ts[k]), At(ts[k + 1]))[1]]) ELSE <<>>
                 straight == IF two THEN EvenLine(b) ELSE OnLine(b)
                 A == [i \in 1 .. Len(SU) |-> SurfP(q, SU[i], R(0))]
                 D == VSub(CurveP(b, CurveDomHi(b)), CurveP(b, CurveDomLo(b)))
                 VS == [k \in 1 .. n |-> q.V[k + 1]]                     \* where a surface of degree one in v has its sections
             IN  Failing("domain", dom)
                 \cup Failing("degrees", q.pu = a.p /\ q.pv = IF two THEN e.q ELSE a.p)
                 \cup Failing("number of sections", IF two THEN n = e.n + 1 ELSE n >= e.n + 1)
                 \cup (IF ~ dom THEN {} ELSE
                    Failing("first section", Placed(q, a, b, R(0), At(0), TFrenet))
                    \cup Failing("last section", Placed(q, a, b, R(1), At(1), TFrenet))
                    \cup Failing("straight sweep", straight => \A j \in 1 .. 7 : LET row == SurfRow(SwapUV(q), RQ(j, 8)) IN
                            \A i \in 1 .. Len(SU) : VClose(CurveP(row, SU[i]), VAdd(A[i], VScale(RQ(j, 8), D)), TFrenet))
                    \cup Failing("congruent sections", q.pv = 1 => \A k \in 1 .. n : Rigid(q, a, VS[k], TFrenet))
                    \cup Failing("sections placed on the trajectory", IF ~ two THEN (q.pv = 1 /\ n = Len(b.P) => \A k \in 1 .. n : Placed(q, a, b, VS[k], At(ts[k]), TFrenet))
                            ELSE IF q.pv = 1 THEN \A k \in 1 .. n : Placed(q, a, b, VS[k], At(VS[k]), TFrenet)
                            ELSE \A k \in 2 .. Len(ts) - 1 : Placed(q, a, b, ts[k], At(ts[k]), RQ(1, 100)))
                    \cup Failing("scenario: equal steps", two => \A k \in 1 .. Len(L) : RNear(L[k], L[1], RMul(TLoose, L[1])))
                    \cup Failing("sections at equal distances", two /\ q.pv = 1 /\ n = Len(ts) => \A k \in 1 .. n : RNear(VS[k], ts[k], RMul(2, TLoose))))

---------------------------------------------------------------------------
(* Skinning and networks *)
\* the curve k of a family occupies the whole range [0, 1] or its own
Unit01(c, t) == CurveP(c, RLerp(CurveDomLo(c), CurveDomHi(c), t))
\* mean of the chord-length parameters of the columns of control points (sections of one structure)
LoftPar(cs) ==
    LET n == Len(cs[1].P)
        cp == TLCEval([i \in 1 .. n |-> ChordPar([k \in 1 .. Len(cs) |-> Project(cs[k].P[i])])])
    IN  TLCEval([k \in 1 .. Len(cs) |-> RDiv(RSum([i \in 1 .. n |-> cp[i][k]]), n)])
JudgeLoft(ev, e) ==
    LET n == Len(e.cs)
        cs == TLCEval([k \in 1 .. n |-> CurveAt(ev, e.cs[k])])
        alike == \A k \in 2 .. n : cs[k].p = cs[1].p /\ cs[k].U = cs[1].U
        vs == IF Has(e, "kv") THEN RReadAll(e.kv) ELSE IF alike THEN LoftPar(cs) ELSE <<R(0), R(1)>>
        Sec(k) == IF Has(e, "kv") \/ alike THEN cs[k] ELSE IF k = 1 THEN cs[1] ELSE cs[n]
        p == CHOOSE p \in {cs[k].p : k \in 1 .. n} : \A k \in 1 .. n : cs[k].p <= p
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE LET F == SUsable(e.r.s) IN IF F # {} THEN F
        ELSE LET q == RdSurf(e.r.s)
                 SU == SampU(q)
                 dom == RNear(ULo(q), CurveDomLo(cs[1]), TKnot) /\ RNear(UHi(q), CurveDomHi(cs[1]), TKnot) /\ RNear(VLo(q), vs[1], TKnot) /\ RNear(VHi(q), vs[Len(vs)], TKnot)
                 sw == SwapUV(q)
                 tol == RMul(TFrenet, RMax(1, SScale(q)))
             IN  Failing("domain", dom)
                 \cup Failing("degrees", q.pu = p /\ q.pv = IF Has(e, "q") THEN e.q ELSE p)
                 \cup Failing("passes through the sections", dom => \A k \in 1 .. Len(vs) :
                        LET row == SurfRow(sw, ClipV(q, vs[k])) IN
                        \A i \in 1 .. Len(SU) : VNear(CurveP(row, SU[i]), CurveP(Sec(k), Clip(Sec(k), SU[i])), tol))

JudgeGordon(ev, e) ==
    LET nv == Len(e.cu)
        nu == Len(e.cv)
        Q == Pts(e.q)
        us == ChordPar(Q[1])
        vs == ChordPar([k \in 1 .. nv |-> Q[k][1]])
        cu == TLCEval([k \in 1 .. nv |-> CurveAt(ev, e.cu[k])])
        cv == TLCEval([k \in 1 .. nu |-> CurveAt(ev, e.cv[k])])
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE LET F == SUsable(e.r.s) IN IF F # {} THEN F
        ELSE LET q == RdSurf(e.r.s)
                 sw == SwapUV(q)
                 tol == RMul(TArc, RMax(1, SScale(q)))
             IN  Failing("domain", OnUnit(q))
                 \cup (IF ~ OnUnit(q) THEN {} ELSE
                       Failing("passes through the curves along u", \A k \in 1 .. nv :
                            LET row == SurfRow(sw, ClipV(q, vs[k])) IN \A i \in 0 .. 24 : VNear(CurveP(row, RQ(i, 24)), Unit01(cu[k], RQ(i, 24)), tol))
                       \cup Failing("passes through the curves along v", \A k \in 1 .. nu :
                            LET row == SurfRow(q, ClipU(q, us[k])) IN \A i \in 0 .. 24 : VNear(CurveP(row, RQ(i, 24)), Unit01(cv[k], RQ(i, 24)), tol)))

\* left runs down, bottom to the right, right up, top back to the left; u upwards, v to the right
JudgeCoons(ev, e) ==
    LET l == CurveAt(ev, e.c1)
        b == CurveAt(ev, e.c2)
        r == CurveAt(ev, e.c3)
        t == CurveAt(ev, e.c4)
        L(u) == Unit01(l, RSub(1, u))
        B(v) == Unit01(b, v)
        Rt(u) == Unit01(r, u)
        T(v) == Unit01(t, RSub(1, v))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE LET F == SUsable(e.r.s) IN IF F # {} THEN F
        ELSE LET q == RdSurf(e.r.s)
                 tol == RMul(TShape, RMax(1, SScale(q)))
                 N == 12
                 Bs == TLCEval([j \in 0 .. N |-> B(RQ(j, N))])
                 Ts == TLCEval([j \in 0 .. N |-> T(RQ(j, N))])
                 Blend(u, v, lu, ru, bv, tv) == VSub(VAdd(VLerp(lu, ru, v), VLerp(bv, tv, u)), VLerp(VLerp(Bs[0], Bs[N], v), VLerp(Ts[0], Ts[N], v), u))
             IN  Failing("domain", OnUnit(q))
                 \cup (IF ~ OnUnit(q) THEN {} ELSE
                       LET Rows == TLCEval([i \in 0 .. N |-> LET w == SurfRow(q, RQ(i, N)) IN TLCEval([j \in 0 .. N |-> CurveP(w, RQ(j, N))])]) IN
                       Failing("bounded by the four curves", \A i \in 0 .. N :
                            VNear(Rows[i][0], L(RQ(i, N)), tol) /\ VNear(Rows[i][N], Rt(RQ(i, N)), tol) /\ VNear(Rows[0][i], Bs[i], tol) /\ VNear(Rows[N][i], Ts[i], tol))
                       \cup Failing("blends the boundary curves", \A i \in 0 .. N : LET lu == L(RQ(i, N)) ru == Rt(RQ(i, N)) IN
                            \A j \in 0 .. N : VNear(Rows[i][j], Blend(RQ(i, N), RQ(j, N), lu, ru, Bs[j], Ts[j]), RMul(10, tol))))

---------------------------------------------------------------------------
(* Interpolation and approximation of grids: row i, column j of the data; u along the columns *)
Column(Q, j) == [i \in 1 .. Len(Q) |-> Q[i][j]]
MeanPar(Rows) == LET P == TLCEval([i \in 1 .. Len(Rows) |-> ChordPar(Rows[i])]) IN
    TLCEval([j \in 1 .. Len(Rows[1]) |-> RTrim(RDiv(RSum([i \in 1 .. Len(Rows) |-> P[i][j]]), Len(Rows)))])
GridU(Q) == MeanPar(Q)
GridV(Q) == MeanPar([j \in 1 .. Len(Q[1]) |-> Column(Q, j)])
GScale(Q) == MaxAbs([i \in 1 .. Len(Q) |-> Scale(Q[i])])
Averaged(p, U, t) == \A j \in 1 .. Len(t) - 1 - p : RNear(U[p + 1 + j], RDiv(RSum([i \in 1 .. p |-> t[j + i]]), p), TFrenet)

JudgeSInterp(ev, e) ==
    LET Q == Pts(e.q)
        m == Len(Q)
        n == Len(Q[1])
        us == GridU(Q)
        vs == GridV(Q)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE LET F == SUsable(e.r.s) IN IF F # {} THEN F
        ELSE LET q == RdSurf(e.r.s) IN
             Failing("degrees", q.pu = e.pu /\ q.pv = e.pv)
             \cup Failing("one control point per point", Len(q.P) = n /\ Len(q.P[1]) = m)
             \cup Failing("domain", OnUnit(q))
             \cup Failing("not rational", \A i \in 1 .. Len(q.P) : \A j \in 1 .. Len(q.P[1]) : RClose(q.P[i][j][4], 1, TKnot))
             \cup (IF ~ OnUnit(q) THEN {} ELSE
                   Failing("passes through the points", \A j \in 1 .. n : LET row == SurfRow(q, us[j]) IN
                        \A i \in 1 .. m : VNear(CurveP(row, vs[i]), Q[i][j], RMul(TArc, RMax(1, GScale(Q)))))
                   \cup Failing("knots average the parameters", q.pu = e.pu /\ q.pv = e.pv /\ Len(q.P) = n /\ Len(q.P[1]) = m => Averaged(q.pu, q.U, us) /\ Averaged(q.pv, q.V, vs)))

\* local bicubic interpolation: u along the rows' index
LocalPar(Rows) ==     \* lengths of the steps summed over all rows, relative to the total
    LET D == TLCEval([i \in 1 .. Len(Rows) |-> Chords(Rows[i])])
        n == Len(Rows[1])
        st == TLCEval([j \in 1 .. n - 1 |-> RSum([i \in 1 .. Len(Rows) |-> D[i][j]])])
        tot == RSum(st)
    IN  TLCEval([j \in 1 .. n |-> RTrim(RDiv(SumSeq(st, j - 1), tot))])
JudgeSLocal(ev, e) ==
    LET Q == Pts(e.q)
        m == Len(Q)
        n == Len(Q[1])
        vs == LocalPar(Q)
        us == LocalPar([j \in 1 .. n |-> Column(Q, j)])
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ e.r.b THEN {"interpolation refused"}
        ELSE LET F == SUsable(e.r.s) IN IF F # {} THEN F
        ELSE LET q == RdSurf(e.r.s)
                 tol == RMul(TArc, RMax(1, GScale(Q)))
             IN
             Failing("bicubic", q.pu = 3 /\ q.pv = 3)
             \cup Failing("domain", OnUnit(q))
             \cup Failing("passes through the points", OnUnit(q) => \A i \in 1 .. m : LET row == SurfRow(q, us[i]) IN
                        \A j \in 1 .. n : VNear(CurveP(row, vs[j]), Q[i][j], tol))

\* data Q[i][j] = a[j] + b[i] (translated rows): the least squares problem splits into one for the rows and one for the columns
JudgeSApprox(ev, e) ==
    LET Q == Pts(e.q)
        m == Len(Q)
        n == Len(Q[1])
        us == ChordPar(Q[1])
        vs == ChordPar(Column(Q, 1))
        sz == RMax(1, GScale(Q))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ e.r.b THEN {"approximation refused"}
        ELSE LET F == SUsable(e.r.s) IN IF F # {} THEN F
        ELSE LET q == RdSurf(e.r.s)
                 fit == Len(q.P) = e.nv /\ Len(q.P[1]) = e.nu /\ OnUnit(q)
                 X(i, j) == SurfP(q, R(i), R(j))
             IN  Failing("degrees", q.pu = e.pu /\ q.pv = e.pv)
                 \cup Failing("number of control points", Len(q.P) = e.nv /\ Len(q.P[1]) = e.nu)
                 \cup Failing("domain", OnUnit(q))
                 \cup (IF ~ fit THEN {} ELSE
                       Failing("corners", VNear(X(0, 0), Q[1][1], RMul(TFrenet, sz)) /\ VNear(X(1, 0), Q[1][n], RMul(TFrenet, sz))
                            /\ VNear(X(0, 1), Q[m][1], RMul(TFrenet, sz)) /\ VNear(X(1, 1), Q[m][n], RMul(TFrenet, sz)))
                       \cup (IF ~ Has(e, "sum") THEN {} ELSE
                             LET bu == [p |-> q.pu, U |-> q.U, P |-> RowCurveU(q, 1).P]
                                 bv == [p |-> q.pv, U |-> q.V, P |-> q.P[1]]
                                 eu == TLCEval([k \in 1 .. n |-> VSub(SurfP(q, us[k], R(0)), Q[1][k])])
                                 evv == TLCEval([k \in 1 .. m |-> VSub(SurfP(q, R(0), vs[k]), Q[k][1])])
                             IN  Failing("least squares along u", \A i \in 2 .. Len(q.P) - 1 :
                                    VNear(VSumSeq([k \in 1 .. n |-> VScale(BasisAt(bu, i, us[k]), eu[k])], n), VZero(3), RMul(TArc, sz)))
                                 \cup Failing("least squares along v", \A i \in 2 .. Len(q.P[1]) - 1 :
                                    VNear(VSumSeq([k \in 1 .. m |-> VScale(BasisAt(bv, i, vs[k]), evv[k])], m), VZero(3), RMul(TArc, sz)))
                                 \cup Failing("translated rows stay translated", \A i \in 0 .. 6 : \A j \in 0 .. 6 :
                                    VNear(SurfP(q, RQ(i, 6), RQ(j, 6)), VSub(VAdd(SurfP(q, RQ(i, 6), R(0)), SurfP(q, R(0), RQ(j, 6))), X(0, 0)), RMul(TArc, sz)))))

---------------------------------------------------------------------------
(* Questions about a surface *)
InDom(q, t) == /\ RLe(RSub(ULo(q), TKnot), t[1]) /\ RLe(t[1], RAdd(UHi(q), TKnot))
               /\ RLe(RSub(VLo(q), TKnot), t[2]) /\ RLe(t[2], RAdd(VHi(q), TKnot))
AtUV(q, t) == SurfP(q, ClipU(q, t[1]), ClipV(q, t[2]))

\* closed in a direction: the first and the last iso curve coincide (or clearly do not)
JudgeSClosed(ev, e) ==
    LET s == SurfAt(ev, e.s)
        m == Len(s.P)
        n == Len(s.P[1])
        U == \A j \in 1 .. n : VNear(Project(s.P[1][j]), Project(s.P[m][j]), TKnot)
        V == \A i \in 1 .. m : VNear(Project(s.P[i][1]), Project(s.P[i][n]), TKnot)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE Failing("closed in u", e.r.u = U) \cup Failing("closed in v", e.r.v = V)

\* orthonormal axes; the surface inside; no face of the box clear of the control points
JudgeSOBB(ev, e) ==
    LET s == SurfAt(ev, e.s)
        o == Pts(e.r.o)
        A == Pts(e.r.ax)
        h == RReadAll(e.r.h)
        sz == RMax(1, SScale(s))
        tol == RMul(TFrenet, sz)
        P == TLCEval(Flatten([i \in 1 .. Len(s.P) |-> [j \in 1 .. Len(s.P[i]) |-> LET d == VSub(Project(s.P[i][j]), o) IN
                    [k \in 1 .. 3 |-> VDot(d, A[k])]]]))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ (RAllFinite(e.r.o) /\ RAllFinite(e.r.ax) /\ RAllFinite(e.r.h)) THEN {"box not finite"}
        ELSE Failing("axes orthonormal", \A i, j \in 1 .. 3 : i <= j => RNear(VDot(A[i], A[j]), IF i = j THEN 1 ELSE 0, TFrenet))
             \cup Failing("box holds the surface", \A i \in 1 .. Len(P) : \A k \in 1 .. 3 : RLe(RAbs(P[i][k]), RAdd(h[k], tol)))
             \cup Failing("box is tight", \A k \in 1 .. 3 : (\E i \in 1 .. Len(P) : RNear(P[i][k], h[k], tol)) /\ (\E i \in 1 .. Len(P) : RNear(P[i][k], RSub(0, h[k]), tol)))
             \cup (LET n == Len(P)
                       m == [k \in 1 .. 3 |-> RDiv(RSum([i \in 1 .. n |-> P[i][k]]), n)]
                       Cov(a, b) == RSum([i \in 1 .. n |-> RMul(RSub(P[i][a], m[a]), RSub(P[i][b], m[b]))])
                       tr == RAdd(Cov(1, 1), RAdd(Cov(2, 2), Cov(3, 3)))
                   IN  Failing("axes are the principal axes", \A a, b \in 1 .. 3 : a < b => RLe(RAbs(Cov(a, b)), RMul(TFrenet, RMax(1, tr)))))

\* the parameters found for the point q = S(at) + d n (at regular points, d small): nearest point at distance d at most
JudgeSParam(ev, e) ==
    LET s == SurfAt(ev, e.s)
        q == Pts(e.q)
        t == RReadAll(e.r.uv)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ RAllFinite(e.r.uv) THEN {"parameters not finite"}
        ELSE IF ~ InDom(s, t) THEN {"parameters outside the domain"}
        ELSE Failing("no point of the surface is nearer", RLe(VDist(AtUV(s, t), q), RAdd(RAbs(R(e.d)), RMul(TLoose, RQ(1, 10)))))

JudgeSAllParams(ev, e) ==
    LET s == SurfAt(ev, e.s)
        q == Pts(e.q)
        n == Len(e.r.uvs)
        T == TLCEval([i \in 1 .. n |-> RReadAll(e.r.uvs[i])])
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ RAllFinite(e.r.uvs) THEN {"parameters not finite"}
        ELSE Failing("parameters inside the domain", \A i \in 1 .. n : InDom(s, T[i]))
             \cup Failing("parameters of the point found", \E i \in 1 .. n : InDom(s, T[i]) /\ RLe(VDist(AtUV(s, T[i]), q), RAdd(RAbs(R(e.d)), RMul(TLoose, RQ(1, 10)))))
             \cup Failing("none listed twice", \A i, j \in 1 .. n : i < j => ~ VNear(T[i], T[j], TKnot))

\* q = S(at) + d n with the unit normal n: signed distance d
JudgeSSdf(ev, e) ==
    IF e.x # "" THEN Unexpected(e)
    ELSE Failing("signed distance", RIsFinite(e.r.d) /\ RNear(R(e.r.d), R(e.d), RMul(TLoose, RQ(1, 10))))

\* area of one patch by Gauss - Legendre, 8 by 8
PatchArea(s, hu, a, b, c, d) ==
    LET w == RSub(b, a)
        z == RSub(d, c)
        m == RLerp(c, d, RQ(1, 2))
        Line(i) ==
            LET u == RAdd(a, RMul(w, GLX[i]))
                row == TLCEval(SurfRow(s, u))
                du == TLCEval(SurfRow(hu, u))
                dv == TLCEval(Hodograph(row))
                El(j) ==
                    LET v == RAdd(c, RMul(z, GLX[j]))
                        H == CurveH(row, v)
                        Hu == CurveH(du, v)
                        Hv == CurveH(dv, v)
                        X == Project(H)
                        D(G) == [k \in 1 .. 3 |-> RTrim(RDiv(RSub(G[k], RMul(G[4], X[k])), H[4]))]
                    IN  VLen(VCross(D(Hu), D(Hv)))
            IN  RTrim(RDot(GLW, TLCEval([j \in 1 .. 8 |-> El(j)])))
    IN  RTrim(RMul(RMul(w, z), RDot(GLW, TLCEval([i \in 1 .. 8 |-> Line(i)]))))
SurfArea(s) ==
    LET BU == SurfBreaksU(s)
        BV == SurfBreaksV(s)
        hu == TLCEval(HodoU(s))
    IN  RSum(TLCEval([i \in 1 .. Len(BU) - 1 |-> RSum(TLCEval([j \in 1 .. Len(BV) - 1 |-> PatchArea(s, hu, BU[i], BU[i + 1], BV[j], BV[j + 1])]))]))
JudgeSArea(ev, e) ==
    LET A == SurfArea(SurfAt(ev, e.s)) IN
    IF e.x # "" THEN Unexpected(e)
    ELSE Failing("area", RIsFinite(e.r.a) /\ RLe(RAbs(RSub(R(e.r.a), A)), RMul(CASE e.m = 0 -> RQ(1, 100) [] e.m = 1 -> RQ(1, 20000) [] OTHER -> RQ(1, 20000), A)))

---------------------------------------------------------------------------
(* Tessellation and triangulation *)
\* a hundred steps per knot span, row by row, without the far edges, then the far corner; r holds the entries with numbers r.idx
JudgeSEqTess(ev, e) ==
    LET s == SurfAt(ev, e.s)
        BU == SurfBreaksU(s)
        BV == SurfBreaksV(s)
        nu == 100 * (Len(BU) - 1)
        nv == 100 * (Len(BV) - 1)
        TessPar(B, i) == RLerp(B[i \div 100 + 1], B[i \div 100 + 2], RQ(i % 100, 100))
        n == Len(e.r.idx)
        UV(i) == IF i = nu * nv THEN <<UHi(s), VHi(s)>> ELSE <<TessPar(BU, i \div nv), TessPar(BV, i % nv)>>
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ (RAllFinite(e.r.pts) /\ RAllFinite(e.r.ks)) THEN {"not finite"}
        ELSE Failing("a hundred steps per span", e.r.n = nu * nv + 1 /\ e.r.m = e.r.n)
             \cup Failing("parameters", e.r.n = nu * nv + 1 => \A k \in 1 .. n : VNear(RReadAll(e.r.ks[k]), UV(e.r.idx[k]), TKnot))
             \cup Failing("points at their parameters", \A k \in 1 .. n : VClose(RReadAll(e.r.pts[k]), AtUV(s, RReadAll(e.r.ks[k])), TShape))

\* a grid of nu by nv vertices over the whole domain, two triangles per cell
JudgeSTri(ev, e) ==
    LET s == SurfAt(ev, e.s)
        nu == e.nu
        nv == e.nv
        r == e.r
        n == Len(r.V)
        W(k) == <<RQ((k - 1) \div nv, nu - 1), RQ((k - 1) % nv, nv - 1)>>
        Id2(i, j) == i * nv + j
        Cell(i, j) == {{Id2(i, j), Id2(i, j + 1), Id2(i + 1, j)}, {Id2(i, j + 1), Id2(i + 1, j + 1), Id2(i + 1, j)}}
        Other(i, j) == {{Id2(i, j), Id2(i, j + 1), Id2(i + 1, j + 1)}, {Id2(i, j), Id2(i + 1, j + 1), Id2(i + 1, j)}}
        \* position of a corner in the grid, and orientation of a triangle there
        Or(f) == LET x == [k \in 1 .. 3 |-> f[k] \div nv]
                     y == [k \in 1 .. 3 |-> f[k] % nv]
                 IN  (x[2] - x[1]) * (y[3] - y[1]) - (x[3] - x[1]) * (y[2] - y[1])
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF n # nu * nv THEN {"number of vertices"}
        ELSE Failing("vertices on the surface, over the whole domain", RAllFinite(r.V) /\ \A k \in 1 .. n :
                    VClose(RReadAll(r.V[k]), AtUV(s, <<RLerp(ULo(s), UHi(s), W(k)[1]), RLerp(VLo(s), VHi(s), W(k)[2])>>), TShape))
             \cup Failing("texture coordinates", Len(r.UV) = n /\ \A k \in 1 .. n : VNear(RReadAll(r.UV[k]), W(k), TKnot))
             \cup Failing("two triangles per cell", Len(r.F) = 2 * (nu - 1) * (nv - 1) /\
                    LET T == {{r.F[k][c] : c \in 1 .. Len(r.F[k])} : k \in 1 .. Len(r.F)} IN
                    \A i \in 0 .. nu - 2 : \A j \in 0 .. nv - 2 : Cell(i, j) \subseteq T \/ Other(i, j) \subseteq T)
             \cup Failing("triangles face one way", \A k \in 1 .. Len(r.F) : Len(r.F[k]) = 3 /\ Or(r.F[k]) * Or(r.F[1]) > 0)
             \cup Failing("texture indices of the corners", Len(r.UI) = 3 * Len(r.F) /\ \A k \in 1 .. Len(r.F) : \A c \in 1 .. 3 : r.UI[3 * (k - 1) + c] = r.F[k][c])

\* Delaunay triangulation, judged on graphs (x, y are the parameters, the border is flat, so that both directions have scale 1)
JudgeSDel(ev, e) ==
    LET s == SurfAt(ev, e.s)
        r == e.r
        n == Len(r.V)
        X == TLCEval([i \in 1 .. n |-> RReadAll(r.V[i])])
        m == Len(r.F)
        Area2(a, b, c) == RSub(RMul(RSub(b[1], a[1]), RSub(c[2], a[2])), RMul(RSub(c[1], a[1]), RSub(b[2], a[2])))
        F == TLCEval([k \in 1 .. m |-> LET a == r.F[k][1] + 1 b == r.F[k][2] + 1 c == r.F[k][3] + 1 IN
                    IF RLt(Area2(X[a], X[b], X[c]), 0) THEN <<a, c, b>> ELSE <<a, b, c>>])
        \* d inside the circle through a, b, c (counterclockwise): positive
        In(a, b, c, d) ==
            LET ax == RSub(a[1], d[1]) ay == RSub(a[2], d[2]) bx == RSub(b[1], d[1]) byy == RSub(b[2], d[2]) cx == RSub(c[1], d[1]) cy == RSub(c[2], d[2])
                A == RAdd(RMul(ax, ax), RMul(ay, ay)) B == RAdd(RMul(bx, bx), RMul(byy, byy)) C == RAdd(RMul(cx, cx), RMul(cy, cy))
            IN  RAdd(RSub(RMul(ax, RSub(RMul(byy, C), RMul(cy, B))), RMul(ay, RSub(RMul(bx, C), RMul(cx, B)))), RMul(A, RSub(RMul(bx, cy), RMul(byy, cx))))
        \* edges of one triangle only are the border; it runs along the hull
        Dir(k) == {<<F[k][1], F[k][2]>>, <<F[k][2], F[k][3]>>, <<F[k][3], F[k][1]>>}
        Edges == TLCEval(UNION {Dir(k) : k \in 1 .. m})
        Border == {d \in Edges : <<d[2], d[1]>> \notin Edges}
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ RAllFinite(r.V) THEN {"vertices not finite"}
        ELSE IF ~ (m > 0 /\ \A k \in 1 .. m : Len(r.F[k]) = 3 /\ (\A c \in 1 .. 3 : r.F[k][c] \in 0 .. n - 1) /\ Cardinality({r.F[k][c] : c \in 1 .. 3}) = 3) THEN {"triangles refer to vertices"}
        ELSE Failing("vertices on the surface", \A i \in 1 .. n : InDom(s, X[i]) /\ VClose(X[i], AtUV(s, X[i]), TShape))
             \cup Failing("every vertex used", UNION {{F[k][1], F[k][2], F[k][3]} : k \in 1 .. m} = 1 .. n)
             \cup Failing("triangles do not overlap", Cardinality(Edges) = 3 * m)
             \cup Failing("triangles cover the hull of the vertices", \A d \in Border : \A i \in 1 .. n : RLe(RMul(-1, TLoose), Area2(X[d[1]], X[d[2]], X[i])))
             \cup Failing("no vertex inside the circle of a triangle", \A k \in 1 .. m : \A i \in 1 .. n : i \in {F[k][1], F[k][2], F[k][3]}
                        \/ RLe(In(X[F[k][1]], X[F[k][2]], X[F[k][3]], X[i]), TLoose))

---------------------------------------------------------------------------
JudgeSM(ev, i) ==
    LET e == ev[i] IN
    CASE e.op = "Bilinear" -> JudgeBilinear(ev, e)
      [] e.op = "Cylinder" -> JudgeCylinder(ev, e)
      [] e.op = "Ruled" -> JudgeRuled(ev, e)
      [] e.op = "Revolved" -> JudgeRevolved(ev, e)
      [] e.op = "NUScale" -> JudgeNUScale(ev, e)
      [] e.op = "TransSweep" -> JudgeTransSweep(ev, e)
      [] e.op = "Sweep1" -> JudgeSweep(ev, e, FALSE)
      [] e.op = "Sweep2" -> JudgeSweep(ev, e, TRUE)
      [] e.op = "Loft" -> JudgeLoft(ev, e)
      [] e.op = "Gordon" -> JudgeGordon(ev, e)
      [] e.op = "Coons" -> JudgeCoons(ev, e)
      [] e.op = "SInterp" -> JudgeSInterp(ev, e)
      [] e.op = "SLocal" -> JudgeSLocal(ev, e)
      [] e.op = "SApprox" -> JudgeSApprox(ev, e)
      [] e.op = "SClosed" -> JudgeSClosed(ev, e)
      [] e.op = "SOBB" -> JudgeSOBB(ev, e)
      [] e.op = "SParam" -> JudgeSParam(ev, e)
      [] e.op = "SAllParams" -> JudgeSAllParams(ev, e)
      [] e.op = "SSdf" -> JudgeSSdf(ev, e)
      [] e.op = "SArea" -> JudgeSArea(ev, e)
      [] e.op = "SEqTess" -> JudgeSEqTess(ev, e)
      [] e.op = "STri" -> IF e.del THEN JudgeSDel(ev, e) ELSE JudgeSTri(ev, e)
      [] e.op = "Interp" -> JudgeCM(ev, i)      \* curves of a network
      [] OTHER -> JudgeS(ev, i)
=============================================================================
