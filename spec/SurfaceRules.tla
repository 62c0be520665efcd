---------------------------- MODULE SurfaceRules ----------------------------
(* Conformance of surface evaluation and of the shape-preserving surface operations. *)
EXTENDS CurveRules

\* samples that determine a rational surface of degrees (pu, pv) on every patch
SampU(s) == TLCEval(SpanSamples(SurfBreaksU(s), 2 * s.pu + 1))
SampV(s) == TLCEval(SpanSamples(SurfBreaksV(s), 2 * s.pv + 1))

\* the same surface point at (f(u), g(v)) in s2 as at (u, v) in s1, on the samples U x V of s1.
\* The difference of two tensor-product rational surfaces vanishes on the patch iff it vanishes on the grid; to keep
\* this affordable the grid is judged along every sample of u with all samples of v (basis rows are shared).
SurfRow(s, u) == LET ku == KSpan(s.pu, s.U, u)
                     Nu == BasisRow(s.U, ku, s.pu, u)
                 IN  [p |-> s.pv, U |-> s.V,
                      P |-> TLCEval([j \in 1 .. Len(s.P[1]) |-> VComb(Nu, [i \in 1 .. s.pu + 1 |-> s.P[ku - s.pu + i - 1][j]])])]
SameSurfOn(s1, s2, SU, SV, f(_), g(_), tol) ==
    \A i \in 1 .. Len(SU) :
        LET a == SurfRow(s1, SU[i])
            b == SurfRow(s2, f(SU[i]))
        IN  \A j \in 1 .. Len(SV) : VClose(CurveP(a, SV[j]), CurveP(b, g(SV[j])), tol)

\* fewer samples for large patches: SU and SV are thinned to every k-th so that at most about n remain (seed independent)
RECURSIVE Thin(_, _, _)
Thin(S, k, i) == IF i > Len(S) THEN <<>> ELSE <<S[i]>> \o Thin(S, k, i + k)
Sparse(S, n) == IF Len(S) <= n THEN S ELSE Thin(S, (Len(S) + n - 1) \div n, 1) \o <<S[Len(S)]>>

SStructure(rs, pu, pv, U, V, tol) ==
    IF ~ FiniteSurf(rs) THEN {"result not finite"}
    ELSE Failing("degree in u", rs.pu = pu) \cup Failing("degree in v", rs.pv = pv)
    \cup Failing("knot vector in u", KNear(RReadAll(rs.U), U, tol))
    \cup Failing("knot vector in v", KNear(RReadAll(rs.V), V, tol))
    \cup Failing("control point count", Counts(rs.pu, rs.U, Len(rs.P)) /\ \A i \in 1 .. Len(rs.P) : Counts(rs.pv, rs.V, Len(rs.P[i])))

SShapeAs(s, rs, pu, pv, U, V, f(_), g(_)) ==
    LET F == SStructure(rs, pu, pv, U, V, TKnot) IN
    IF F # {} THEN F
    ELSE LET q == RdSurf(rs) IN
         IF ~ WellFormedSurface(q) THEN {"result well formed"}
         ELSE Failing("shape", SameSurfOn(s, q, SampU(s), SampV(s), f, g, TShape))

---------------------------------------------------------------------------
SDecart(s) == [s EXCEPT !.P = [i \in 1 .. Len(s.P) |-> Decart(s.P[i])]]

JudgeSEval(ev, e) ==
    LET s == SurfAt(ev, e.s)
        u == R(e.u)
        v == R(e.v)
        H == SurfH(s, u, v)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE Failing("point on surface", PtNear(e.r.pt, Project(H), TEval))
        \cup Failing("homogeneous point", PtNear(e.r.h, H, TEval))
        \cup Failing("non-rational point", PtNear(e.r.poly, XYZOf(SurfH(SDecart(s), u, v)), TEval))

JudgeSBezEval(ev, e) ==
    LET s == SurfAt(ev, e.s)
        u == R(e.u)
        v == R(e.v)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE Failing("de Casteljau", PtNear(e.r.cast, SurfH(s, u, v), TEval))
        \cup Failing("de Casteljau (non-rational)", PtNear(e.r.pcast, XYZOf(SurfH(SDecart(s), u, v)), TEval))

\* matrices of partials D[a][b] (0-based functions) with a + b <= d; compared relative to the largest one of at most the same order
RECURSIVE SMaxAbs(_, _)
SMaxAbs(H, T) == IF T = {} THEN R(1) ELSE LET t == CHOOSE t \in T : TRUE IN RMax(MaxAbs(H[t[1]][t[2]]), SMaxAbs(H, T \ {t}))
Upto(d) == {ab \in (0 .. d) \X (0 .. d) : ab[1] + ab[2] <= d}
SDersNear(a, D, S, d, tol) ==
    /\ Len(a) = d + 1 /\ RAllFinite(a)
    /\ \A k \in 0 .. d :
        LET m == TLCEval(RMul(tol, RMax(SMaxAbs(D, Upto(k)), SMaxAbs(S, Upto(k))))) IN
        \A i \in 0 .. k : Len(a[i + 1]) >= k - i + 1 /\ VNear(RReadAll(a[i + 1][k - i + 1]), D[i][k - i], m)

JudgeSDers(ev, e) ==
    LET s == SurfAt(ev, e.s)
        u == R(e.u)
        v == R(e.v)
        d == e.d
        H == SurfHDers(s, u, v, d)
        D == TLCEval([a \in 0 .. d |-> TLCEval([b \in 0 .. d - a |-> SurfDer(H, a, b)])])
        G == SurfHDers(SDecart(s), u, v, d)
        Q == TLCEval([a \in 0 .. d |-> [b \in 0 .. d - a |-> XYZOf(G[a][b])]])
        m1 == RMul(TDer, RMax(SMaxAbs(D, Upto(1)), SMaxAbs(H, Upto(1))))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE Failing("rational derivatives", SDersNear(e.r.rat, D, H, d, TDer))
        \cup Failing("homogeneous derivatives", SDersNear(e.r.h, H, H, d, TDer))
        \cup Failing("homogeneous derivatives (all basis functions)", SDersNear(e.r.hall, H, H, d, TDer))
        \cup Failing("non-rational derivatives", SDersNear(e.r.poly, Q, G, d, TDer))
        \cup Failing("first order derivatives", RAllFinite(e.r.first) /\ VNear(RReadAll(e.r.first[1]), D[0][0], m1)
                /\ VNear(RReadAll(e.r.first[2]), D[1][0], m1) /\ VNear(RReadAll(e.r.first[3]), D[0][1], m1))
        \cup Failing("first order derivatives (homogeneous)", RAllFinite(e.r.hfirst) /\ VNear(RReadAll(e.r.hfirst[1]), H[0][0], m1)
                /\ VNear(RReadAll(e.r.hfirst[2]), H[1][0], m1) /\ VNear(RReadAll(e.r.hfirst[3]), H[0][1], m1))

\* normal and curvatures, from the exact derivatives; judged where the tangent plane is well conditioned
JudgeSGeom(ev, e) ==
    LET s == SurfAt(ev, e.s)
        H == SurfHDers(s, R(e.u), R(e.v), 2)
        D(a, b) == SurfDer(H, a, b)
        Su == D(1, 0)
        Sv == D(0, 1)
        W == VCross(Su, Sv)
        l == VLen(W)
        n == VScale(RDiv(1, l), W)
        good == RLt(RQ(1, 50), VLen(Su)) /\ RLt(RQ(1, 50), VLen(Sv)) /\ RLt(RMul(RQ(1, 50), RMul(VLen(Su), VLen(Sv))), l) /\ RLt(RQ(1, 50), l)
        E == RDot(Su, Su)
        F == RDot(Su, Sv)
        G == RDot(Sv, Sv)
        L == RDot(D(2, 0), n)
        M == RDot(D(1, 1), n)
        N == RDot(D(0, 2), n)
        g == RSub(RMul(E, G), RMul(F, F))
        K == RDiv(RSub(RMul(L, N), RMul(M, M)), g)
        Hm == RDiv(RSub(RAdd(RMul(E, N), RMul(G, L)), RMul(2, RMul(F, M))), RMul(2, g))
        disc == RMax(R(0), RSub(RMul(Hm, Hm), K))
        rt == RSqrt(disc)
        k1 == RAdd(Hm, rt)
        k2 == RSub(Hm, rt)
        \* scale: curvature squared amplifies rounding
        tol == RMul(TFrenet, RMax(R(1), RMul(RMax(RAbs(k1), RAbs(k2)), RMax(R(1), RMax(RAbs(k1), RAbs(k2))))))
        \* the principal curvatures lose half the digits where they coincide
        tolp == RMul(RSqrt(TFrenet), RMax(R(1), RMax(RAbs(k1), RAbs(k2))))
        Near(i, x, t) == RIsFinite(e.r.k[i]) /\ RNear(e.r.k[i], x, t)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ good THEN {}
        ELSE Failing("normal", PtNear(e.r.n, n, TFrenet))
        \cup Failing("Gauss curvature", Near(3, K, tol))
        \cup Failing("mean curvature", Near(4, Hm, tol))
        \cup Failing("maximum curvature", Near(1, k1, tolp))
        \cup Failing("minimum curvature", Near(2, k2, tolp))
        \cup Failing("absolute curvature", Near(5, RAdd(RAbs(k1), RAbs(k2)), RMul(2, tolp)))
        \cup Failing("rms curvature", Near(6, RSqrt(RAdd(RMul(k1, k1), RMul(k2, k2))), RMul(2, tolp)))

\* a vector t of the tangent plane has the parameter direction (a, b) with a Su + b Sv = t
JudgeSUVTangent(ev, e) ==
    LET s == SurfAt(ev, e.s)
        H == SurfHDers(s, R(e.u), R(e.v), 1)
        Su == SurfDer(H, 1, 0)
        Sv == SurfDer(H, 0, 1)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ e.r.b THEN {"tangent direction not found"}
        ELSE Failing("tangent direction", RAllFinite(e.r.uv) /\ VClose(VAdd(VScale(R(e.r.uv[1]), Su), VScale(R(e.r.uv[2]), Sv)), RReadAll(e.t), TFrenet))

JudgeSIso(ev, e) ==
    LET s == IF e.isu THEN SurfAt(ev, e.s) ELSE SwapUV(SurfAt(ev, e.s))
        w == R(e.w)
        F == Structure(e.r.c, s.pu, s.U, TKnot)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF F # {} THEN F
        ELSE LET c == RdCurve(e.r.c)
                 S == SpanSamples(CurveBreaks(c), 2 * c.p + 1)
             IN  Failing("iso curve", WellFormedCurve(c) /\ \A i \in 1 .. Len(S) : VClose(CurveP(c, S[i]), SurfP(s, S[i], w), TShape))

---------------------------------------------------------------------------
(* shape-preserving operations; e.isu selects the direction *)
JudgeSInsert(ev, e) ==
    LET s == SurfAt(ev, e.s)
        u == R(e.u)
        room == IF e.isu THEN s.pu - KMult(s.U, u) ELSE s.pv - KMult(s.V, u)   \* copies the degree admits
        n == IF e.t <= room THEN e.t ELSE IF room > 0 THEN room ELSE 0
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE SShapeAs(s, e.r.s, s.pu, s.pv, IF e.isu THEN KInsert(s.U, u, n) ELSE s.U, IF e.isu THEN s.V ELSE KInsert(s.V, u, n), Id, Id)
JudgeSRefine(ev, e) ==
    LET s == SurfAt(ev, e.s)
        X == RReadAll(e.X)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE SShapeAs(s, e.r.s, s.pu, s.pv, IF e.isu THEN KInsertAll(s.U, X) ELSE s.U, IF e.isu THEN s.V ELSE KInsertAll(s.V, X), Id, Id)
\* either nothing happens or between 1 and t copies go
JudgeSRemove(ev, e) ==
    LET s == SurfAt(ev, e.s)
        u == R(e.u)
        k == IF e.isu THEN Len(s.U) - Len(e.r.s.U) ELSE Len(s.V) - Len(e.r.s.V)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF k \notin 0 .. e.t THEN {"number of knots removed"}
        ELSE Failing("redundant knot not removed", e.must => k = e.t)
             \cup SShapeAs(s, e.r.s, s.pu, s.pv, IF e.isu THEN KRemove(s.U, u, k) ELSE s.U, IF e.isu THEN s.V ELSE KRemove(s.V, u, k), Id, Id)
JudgeSElevate(ev, e) ==
    LET s == SurfAt(ev, e.s) IN
    IF e.x # "" THEN Unexpected(e)
    ELSE IF e.isu THEN SShapeAs(s, e.r.s, s.pu + e.t, s.pv, KElevate(s.U, e.t), s.V, Id, Id)
         ELSE SShapeAs(s, e.r.s, s.pu, s.pv + e.t, s.U, KElevate(s.V, e.t), Id, Id)
JudgeSReduce(ev, e) ==
    LET s == SurfAt(ev, e.s) IN
    IF e.x # "" THEN Unexpected(e)
    ELSE IF ~ e.r.b THEN Failing("reducible surface not reduced", ~ e.must)
    ELSE IF e.isu THEN SShapeAs(s, e.r.s, s.pu - 1, s.pv, KElevate(s.U, -1), s.V, Id, Id)
         ELSE SShapeAs(s, e.r.s, s.pu, s.pv - 1, s.U, KElevate(s.V, -1), Id, Id)
JudgeSSwap(ev, e) ==
    LET s == SwapUV(SurfAt(ev, e.s)) IN
    IF e.x # "" THEN Unexpected(e) ELSE SShapeAs(s, e.r.s, s.pu, s.pv, s.U, s.V, Id, Id)
JudgeSReverse(ev, e) ==
    LET s == SurfAt(ev, e.s)
        ru == e.dir # 2
        rv == e.dir # 1
        mu == RAdd(DomLo(s.pu, s.U), DomHi(s.pu, s.U))
        mv == RAdd(DomLo(s.pv, s.V), DomHi(s.pv, s.V))
        F(u) == IF ru THEN RSub(mu, u) ELSE u
        G(v) == IF rv THEN RSub(mv, v) ELSE v
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE SShapeAs(s, e.r.s, s.pu, s.pv, IF ru THEN KReverse(s.U) ELSE s.U, IF rv THEN KReverse(s.V) ELSE s.V, F, G)
JudgeSReparam(ev, e) ==
    LET s == SurfAt(ev, e.s)
        Map(U, p, lo, hi, x) == RAdd(lo, RMul(RDiv(RSub(hi, lo), RSub(DomHi(p, U), DomLo(p, U))), RSub(x, DomLo(p, U))))
        F(u) == Map(s.U, s.pu, R(e.ulo), R(e.uhi), u)
        G(v) == Map(s.V, s.pv, R(e.vlo), R(e.vhi), v)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE SShapeAs(s, e.r.s, s.pu, s.pv, KAffine(s.U, R(e.ulo), R(e.uhi)), KAffine(s.V, R(e.vlo), R(e.vhi)), F, G)
\* one Bezier patch per pair of spans; the order is the library's: for each u span, all v spans
JudgeSDecompose(ev, e) ==
    LET s == SurfAt(ev, e.s)
        BU == SurfBreaksU(s)
        BV == SurfBreaksV(s)
        nv == Len(BV) - 1
        Patch(i, j) ==
            LET rs == e.r.ss[(i - 1) * nv + j] IN
            IF ~ FiniteSurf(rs) THEN {"patch not finite"}
            ELSE LET q == RdSurf(rs) IN
                 IF ~ (q.pu = s.pu /\ q.pv = s.pv /\ Len(q.P) = s.pu + 1 /\ (\A k \in 1 .. Len(q.P) : Len(q.P[k]) = s.pv + 1)
                       /\ Counts(q.pu, q.U, Len(q.P)) /\ Counts(q.pv, q.V, Len(q.P[1])) /\ Clamped(q.pu, q.U) /\ Clamped(q.pv, q.V) /\ WellFormedSurface(q))
                 THEN {"patch is not a Bezier patch"}
                 ELSE LET SU == [k \in 1 .. 2 * s.pu + 1 |-> RQ(k - 1, 2 * s.pu)]
                          SV == [k \in 1 .. 2 * s.pv + 1 |-> RQ(k - 1, 2 * s.pv)]
                      IN  Failing("patch shape", \A a \in 1 .. Len(SU) :
                             LET ra == SurfRow(s, RLerp(BU[i], BU[i + 1], SU[a]))
                                 rb == SurfRow(q, RLerp(DomLo(q.pu, q.U), DomHi(q.pu, q.U), SU[a]))
                             IN  \A b \in 1 .. Len(SV) :
                                 VClose(CurveP(rb, RLerp(DomLo(q.pv, q.V), DomHi(q.pv, q.V), SV[b])), CurveP(ra, RLerp(BV[j], BV[j + 1], SV[b])), TShape))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF Len(e.r.ss) # (Len(BU) - 1) * nv THEN {"number of patches"}
        ELSE UNION {Patch(i, j) : i \in 1 .. Len(BU) - 1, j \in 1 .. nv}

JudgeS(ev, i) ==
    LET e == ev[i] IN
    CASE e.op = "DefSurf" -> {}
      [] e.op = "SEval" -> JudgeSEval(ev, e)
      [] e.op = "SBezEval" -> JudgeSBezEval(ev, e)
      [] e.op = "SDers" -> JudgeSDers(ev, e)
      [] e.op = "SGeom" -> JudgeSGeom(ev, e)
      [] e.op = "SUVTangent" -> JudgeSUVTangent(ev, e)
      [] e.op = "SIso" -> JudgeSIso(ev, e)
      [] e.op = "SInsert" -> JudgeSInsert(ev, e)
      [] e.op = "SRefine" -> JudgeSRefine(ev, e)
      [] e.op = "SRemove" -> JudgeSRemove(ev, e)
      [] e.op = "SElevate" -> JudgeSElevate(ev, e)
      [] e.op = "SReduce" -> JudgeSReduce(ev, e)
      [] e.op = "SSwap" -> JudgeSSwap(ev, e)
      [] e.op = "SReverse" -> JudgeSReverse(ev, e)
      [] e.op = "SReparam" -> JudgeSReparam(ev, e)
      [] e.op = "SDecompose" -> JudgeSDecompose(ev, e)
      [] OTHER -> JudgeC(ev, i)

=============================================================================
