----------------------------- MODULE CurveRules -----------------------------
(* Conformance of curve evaluation and of the shape-preserving curve operations. *)
EXTENDS TraceBase

Unexpected(e) == {"unexpected exception " \o e.x}
SeqNear(a, b, tol) == Len(a) = Len(b) /\ RAllFinite(a) /\ \A i \in 1 .. Len(b) : RClose(a[i], b[i], tol)
PtNear(a, b, tol) == RAllFinite(a) /\ VClose(RReadAll(a), b, tol)
PtsNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1 .. Len(b) : PtNear(a[i], b[i], tol)

\* structural part of a result: degree, knots (expected sequence), counting law, finite
Structure(rc, p, U, tol) ==
    IF ~ FiniteCurve(rc) THEN {"result not finite"}
    ELSE Failing("degree", rc.p = p)
    \cup Failing("knot vector", KNear(RReadAll(rc.U), U, tol))
    \cup Failing("control point count", Counts(rc.p, rc.U, Len(rc.P)))

\* a result with the expected structure whose point at f(u) is c's point at u
ShapeAs(c, rc, p, U, f(_)) ==
    LET F == Structure(rc, p, U, TKnot) IN
    IF F # {} THEN F
    ELSE LET q == RdCurve(rc)
         IN  Failing("result well formed", WellFormedCurve(q))
             \cup (IF ~ WellFormedCurve(q) THEN {} ELSE
                   Failing("shape", SameCurveOn(c, q, SpanSamples(CurveBreaks(c), 2 * c.p + 1), f, TShape)))

Id(u) == u

---------------------------------------------------------------------------
Decart(P) == [i \in 1 .. Len(P) |-> Project(P[i]) \o <<R(1)>>]   \* the same control points with unit weights

JudgeEval(ev, e) ==
    LET c == CurveAt(ev, e.c)
        u == R(e.u)
        H == CurveH(c, u)
        Q == Project(H)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE Failing("point on curve", PtNear(e.r.pt, Q, TEval))
        \cup Failing("corner cutting", PtNear(e.r.cut, Q, TEval))
        \cup Failing("homogeneous point", PtNear(e.r.h, H, TEval))
        \cup Failing("non-rational point", PtNear(e.r.poly, XYZOf(CurveH([c EXCEPT !.P = Decart(c.P)], u)), TEval))

JudgeBezierEval(ev, e) ==
    LET c == CurveAt(ev, e.c)
        u == R(e.u)
        H == CurveH(c, u)
        Q == CurveH([c EXCEPT !.P = Decart(c.P)], u)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE Failing("Bernstein form", PtNear(e.r.bern, H, TEval))
        \cup Failing("de Casteljau", PtNear(e.r.cast, H, TEval))
        \cup Failing("Bernstein form (non-rational)", PtNear(e.r.pbern, XYZOf(Q), TEval))
        \cup Failing("de Casteljau (non-rational)", PtNear(e.r.pcast, XYZOf(Q), TEval))
        \cup Failing("quadratic arc", Has(e.r, "quad") => PtNear(e.r.quad, Project(H), TEval))

\* derivative k is compared relative to the largest magnitude among the derivatives up to order k (of S): rounding errors
\* of the lower orders propagate
RECURSIVE MaxAbs(_)
MaxAbs(v) == IF v = <<>> THEN R(1) ELSE RMax(RAbs(v[1]), MaxAbs(Tail(v)))
DersNear(a, b, S, tol) ==
    /\ Len(a) = Len(b) /\ RAllFinite(a)
    /\ \A k \in 1 .. Len(b) :
        LET m == MaxAbs([i \in 1 .. k |-> RMax(MaxAbs(b[i]), MaxAbs(S[i]))]) IN
        VNear(RReadAll(a[k]), b[k], RMul(tol, m))

JudgeDers(ev, e) ==
    LET c == CurveAt(ev, e.c)
        u == R(e.u)
        k == KSpan(c.p, c.U, u)
        H == CurveHDers(c, k, u, e.d)
        D == RatDers(H, e.d)
        Q == CurveHDers([c EXCEPT !.P = Decart(c.P)], k, u, e.d)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE Failing("rational derivatives", DersNear(e.r.rat, D, H, TDer))
        \cup Failing("homogeneous derivatives", DersNear(e.r.h, H, H, TDer))
        \cup Failing("homogeneous derivatives (all basis functions)", Has(e.r, "hall") => DersNear(e.r.hall, H, H, TDer))
        \cup Failing("non-rational derivatives", DersNear(e.r.poly, [i \in 1 .. e.d + 1 |-> XYZOf(Q[i])], Q, TDer))

---------------------------------------------------------------------------
JudgeInsert(ev, e) ==
    LET c == CurveAt(ev, e.c) IN
    IF e.x # "" THEN Unexpected(e)
    ELSE Failing("number of insertions", IF Has(e, "over") THEN e.r.n \in 0 .. e.t ELSE e.r.n = e.t)
    \cup (IF e.r.n \in 0 .. e.t THEN ShapeAs(c, e.r.c, c.p, KInsert(c.U, R(e.u), e.r.n), Id) ELSE {})

JudgeRefine(ev, e) ==
    LET c == CurveAt(ev, e.c) IN
    IF e.x # "" THEN Unexpected(e)
    ELSE ShapeAs(c, e.r.c, c.p, KInsertAll(c.U, RReadAll(e.X)), Id)

\* e.must: the copies are known to be redundant, so all of them go; otherwise the library removes as many copies as it
\* finds redundant (up to its tolerance) and says whether it removed any
JudgeRemove(ev, e) ==
    LET c == CurveAt(ev, e.c)
        k == Len(c.U) - Len(e.r.c.U) IN
    IF e.x # "" THEN Unexpected(e)
    ELSE IF ~ e.r.b THEN Failing("redundant knot not removed", ~ e.must)
    ELSE IF k \notin 1 .. e.t THEN {"number of knots removed"}
    ELSE Failing("fewer knots removed than redundant", e.must => k = e.t) \cup ShapeAs(c, e.r.c, c.p, KRemove(c.U, R(e.u), k), Id)

\* the result has no more knots than the curve, and traces it
JudgeRemoveExcessive(ev, e) ==
    LET c == CurveAt(ev, e.c) IN
    IF e.x # "" THEN Unexpected(e)
    ELSE IF ~ FiniteCurve(e.r.c) THEN {"result not finite"}
    ELSE LET q == RdCurve(e.r.c) IN
         Failing("degree", q.p = c.p)
         \cup Failing("control point count", Counts(q.p, q.U, Len(q.P)))
         \cup Failing("knots are knots of the curve", \A i \in 1 .. Len(q.U) : KMult(q.U, q.U[i]) <= KMult(c.U, q.U[i]))
         \cup Failing("redundant knots removed", Has(e, "left") => Len(q.U) <= e.left)
         \cup (IF ~ WellFormedCurve(q) THEN {"result well formed"} ELSE
               Failing("shape", SameCurveOn(c, q, SpanSamples(CurveBreaks(c), 2 * c.p + 1), Id, TLoose)))

JudgeElevate(ev, e) ==
    LET c == CurveAt(ev, e.c) IN
    IF e.x # "" THEN Unexpected(e)
    ELSE ShapeAs(c, e.r.c, c.p + e.t, KElevate(c.U, e.t), Id)

JudgeReduce(ev, e) ==
    LET c == CurveAt(ev, e.c) IN
    IF e.x # "" THEN Unexpected(e)
    ELSE IF ~ e.r.b THEN Failing("reducible curve not reduced", ~ e.must)
    ELSE ShapeAs(c, e.r.c, c.p - 1, KElevate(c.U, -1), Id)

\* rc is the part of c over [lo, hi], with the same parameters
PartAs(c, rc, U, lo, hi) ==
    LET F == Structure(rc, c.p, U, TKnot) IN
    IF F # {} THEN F
    ELSE LET q == RdCurve(rc) IN
         Failing("part well formed", WellFormedCurve(q))
         \cup (IF ~ WellFormedCurve(q) THEN {} ELSE
               Failing("part shape", \A i \in 1 .. Len(SpanSamples(CurveBreaks(q), 2 * c.p + 1)) :
                   LET u == SpanSamples(CurveBreaks(q), 2 * c.p + 1)[i] IN VClose(CurveP(c, u), CurveP(q, u), TShape)))

JudgeSplit(ev, e) ==
    LET c == CurveAt(ev, e.c)
        u == R(e.u)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ e.r.b THEN {"interior parameter not split"}
        ELSE PartAs(c, e.r.l, KSplitLeft(c.p, c.U, u), CurveDomLo(c), u)
             \cup PartAs(c, e.r.r, KSplitRight(c.p, c.U, u), u, CurveDomHi(c))

JudgeReverse(ev, e) ==
    LET c == CurveAt(ev, e.c)
        m == RAdd(CurveDomLo(c), CurveDomHi(c))
        F(u) == RSub(m, u)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE ShapeAs(c, e.r.c, c.p, KReverse(c.U), F)

JudgeReparam(ev, e) ==
    LET c == CurveAt(ev, e.c)
        k == RDiv(RSub(R(e.hi), R(e.lo)), RSub(CurveDomHi(c), CurveDomLo(c)))
        F(u) == RAdd(R(e.lo), RMul(k, RSub(u, CurveDomLo(c))))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE ShapeAs(c, e.r.c, c.p, KAffine(c.U, R(e.lo), R(e.hi)), F)

JudgeDecompose(ev, e) ==
    LET c == CurveAt(ev, e.c)
        B == CurveBreaks(c)
        Piece(i) ==
            LET rc == e.r.cs[i] IN
            IF ~ FiniteCurve(rc) THEN {"piece not finite"}
            ELSE LET q == RdCurve(rc) IN
                 IF ~ (q.p = c.p /\ Len(q.P) = c.p + 1 /\ Counts(q.p, q.U, Len(q.P)) /\ Clamped(q.p, q.U) /\ WellFormedCurve(q))
                 THEN {"piece is not a Bezier segment"}
                 ELSE Failing("piece shape", \A j \in 0 .. 2 * c.p :
                        LET t == RQ(j, 2 * c.p) IN
                        VClose(CurveP(q, RLerp(CurveDomLo(q), CurveDomHi(q), t)),
                               \* the last sample belongs to this span, not the next: curves are continuous
                               CurveP(c, RLerp(B[i], B[i + 1], t)), TShape))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF Len(e.r.cs) # Len(B) - 1 THEN {"number of pieces"}
        ELSE UNION {Piece(i) : i \in 1 .. Len(B) - 1}

---------------------------------------------------------------------------
(* Frenet frame: curvature, torsion, normal, binormal from the exact derivatives.  Judged where the frame is well *)
(* conditioned: |C'| and |C' x C''| not (relatively) small.                                                        *)
JudgeFrenet(ev, e) ==
    LET c == CurveAt(ev, e.c)
        D == TLCEval(CurveDers(c, R(e.u), 3))
        d1 == D[2]
        d2 == D[3]
        B == VCross(d1, d2)
        l1 == VLen(d1)
        lb == VLen(B)
        good == RLt(RQ(1, 100), l1) /\ RLt(RMul(RQ(1, 1000), RMul(l1, VLen(d2))), lb) /\ RLt(RQ(1, 1000), lb)
        b == VScale(RDiv(1, lb), B)
        t == VScale(RDiv(1, l1), d1)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE Failing("curvature", RLt(RQ(1, 100), l1) => RIsFinite(e.r.k) /\ RClose(e.r.k, RDiv(lb, RMul(l1, RMul(l1, l1))), TFrenet))
        \cup (IF ~ good THEN {} ELSE
              Failing("torsion", RIsFinite(e.r.t) /\ RClose(e.r.t, RDiv(RDot(B, D[4]), RMul(lb, lb)), TFrenet))
              \cup Failing("binormal", PtNear(e.r.b, b, TFrenet))
              \cup Failing("normal", PtNear(e.r.n, VCross(b, t), TFrenet)))

---------------------------------------------------------------------------
KRange(p, U, a, b) ==
    LET V == IF RLe(b, RSub(DomHi(p, U), KTol)) THEN KSplitLeft(p, U, b) ELSE U
    IN  IF RLe(RAdd(DomLo(p, U), KTol), a) THEN KSplitRight(p, V, a) ELSE V

JudgeExtract(ev, e) ==
    LET c == CurveAt(ev, e.c) IN
    IF e.x # "" THEN Unexpected(e)
    ELSE PartAs(c, e.r.c, KRange(c.p, c.U, R(e.lo), R(e.hi)), R(e.lo), R(e.hi))

\* q over [a, b] traces c over its whole domain
TracesPart(c, q, a, b) ==
    LET S == SpanSamples(CurveBreaks(c), 2 * c.p + 1)
        k == RDiv(RSub(b, a), RSub(CurveDomHi(c), CurveDomLo(c)))
    IN  \A i \in 1 .. Len(S) : VClose(CurveP(c, S[i]), CurveP(q, RAdd(a, RMul(k, RSub(S[i], CurveDomLo(c))))), TShape)

MergeAs(l, r, rc) ==
    IF ~ FiniteCurve(rc) THEN {"result not finite"}
    ELSE LET q == RdCurve(rc) IN
         IF ~ WellFormedCurve(q) THEN {"merged curve well formed"}
         ELSE LET m == RDiv(RAdd(CurveDomLo(q), CurveDomHi(q)), 2) IN
              Failing("degree", q.p = IF l.p > r.p THEN l.p ELSE r.p)
              \cup Failing("domain [0, 1]", RNear(CurveDomLo(q), 0, TKnot) /\ RNear(CurveDomHi(q), 1, TKnot))
              \cup Failing("first half is the left curve", TracesPart(l, q, CurveDomLo(q), m))
              \cup Failing("second half is the right curve", TracesPart(r, q, m, CurveDomHi(q)))

JudgeMerge(ev, e) ==
    IF e.x # "" THEN Unexpected(e)
    ELSE IF e.r.b # e.expect THEN {"merge accepted or refused wrongly"}
    ELSE IF ~ e.r.b THEN {}
    ELSE MergeAs(CurveAt(ev, e.c1), CurveAt(ev, e.c2), e.r.c)

\* q(f(u)) = c(u) with f(u) = (al*u + be) / (ga*u + de)
JudgeMoebius(ev, e) ==
    LET c == CurveAt(ev, e.c)
        F(u) == RDiv(RAdd(RMul(R(e.al), u), R(e.be)), RAdd(RMul(R(e.ga), u), R(e.de)))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE LET K == Structure(e.r.c, c.p, [i \in 1 .. Len(c.U) |-> F(c.U[i])], TKnot) IN
             IF K # {} THEN K
             ELSE LET q == RdCurve(e.r.c)
                      S == SpanSamples(CurveBreaks(c), 2 * c.p + 1)
                      \* keep inside the (rounded) domain
                      G(u) == LET v == F(u) IN IF RLt(v, CurveDomLo(q)) THEN CurveDomLo(q) ELSE IF RLt(CurveDomHi(q), v) THEN CurveDomHi(q) ELSE v
                  IN  IF ~ WellFormedCurve(q) THEN {"result well formed"}
                      ELSE Failing("shape", SameCurveOn(c, q, S, G, TShape))

MatPoint(m, x) == [i \in 1 .. 3 |-> RAdd(RAdd(RMul(m[i][1], x[1]), RMul(m[i][2], x[2])), RAdd(RMul(m[i][3], x[3]), m[i][4]))]
JudgeTransform(ev, e) ==
    LET c == CurveAt(ev, e.c)
        m == RReadAll(e.m)
        S == SpanSamples(CurveBreaks(c), 2 * c.p + 1)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE LET K == Structure(e.r.c, c.p, c.U, TKnot) IN
             IF K # {} THEN K
             ELSE LET q == RdCurve(e.r.c) IN
                  Failing("transformed points", WellFormedCurve(q) /\ \A i \in 1 .. Len(S) : VClose(CurveP(q, S[i]), MatPoint(m, CurveP(c, S[i])), TShape))

---------------------------------------------------------------------------
(* Clamping *)
\* the knot vector with end multiplicities p + 1 at the ends of the domain
KClamp(p, U) == LET a == DomLo(p, U)
                    b == DomHi(p, U)
                IN  Rep(a, p + 1) \o SelectSeq(U, LAMBDA x : RLt(a, x) /\ RLt(x, b) /\ ~ KEq(a, x) /\ ~ KEq(b, x)) \o Rep(b, p + 1)

JudgeToClamp(ev, e) ==
    LET c == CurveAt(ev, e.c) IN
    IF e.x # "" THEN Unexpected(e)
    ELSE ShapeAs(c, e.r.c, c.p, KClamp(c.p, c.U), Id)

\* interior knots kept, ends opened, same points over the domain
JudgeToUnclamp(ev, e) ==
    LET c == CurveAt(ev, e.c) IN
    IF e.x # "" THEN Unexpected(e)
    ELSE IF ~ FiniteCurve(e.r.c) THEN {"result not finite"}
    ELSE LET q == RdCurve(e.r.c) IN
         IF ~ (q.p = c.p /\ Len(q.U) = Len(c.U) /\ Len(q.P) = Len(c.P)) THEN {"counts"}
         ELSE Failing("interior knots", KNear(SubSeq(q.U, q.p + 1, Len(q.U) - q.p), SubSeq(c.U, c.p + 1, Len(c.U) - c.p), TKnot))
              \cup Failing("unclamped", NonDecreasing(q.U) /\ (c.p > 1 => KMult(q.U, q.U[1]) <= c.p /\ KMult(q.U, q.U[Len(q.U)]) <= c.p))
              \cup (IF ~ WellFormedKnots(q.p, q.U) THEN {"result well formed"} ELSE
                    Failing("shape", SameCurveOn(c, q, SpanSamples(CurveBreaks(c), 2 * c.p + 1), Id, TShape)))

\* control points on one line (exactly, or off by more than off)
CollinearPts(P) == \A i, j \in 2 .. Len(P) : VLen(VCross(VSub(P[i], P[1]), VSub(P[j], P[1]))) = VLen(VZero(3))
JudgePredicates(ev, e) ==
    LET c == CurveAt(ev, e.c)
        a == CurveP(c, CurveDomLo(c))
        b == CurveP(c, CurveDomHi(c))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE Failing("closed", e.r.closed = RLt(VDist(a, b), KTol))
        \cup Failing("clamped", e.r.clamp = (KMult(c.U, c.U[1]) = c.p + 1 /\ KMult(c.U, c.U[Len(c.U)]) = c.p + 1))
        \cup Failing("linear", Has(e, "linear") => e.r.linear = e.linear)
        \cup Failing("periodic", Has(e, "periodic") => e.r.periodic = e.periodic)

JudgeIsArc(ev, e) ==
    IF e.x # "" THEN Unexpected(e)
    ELSE Failing("arc", e.r.b = e.expect)
    \cup (IF ~ e.expect \/ ~ e.r.b THEN {} ELSE
          Failing("radius", RIsFinite(e.r.radius) /\ RClose(e.r.radius, R(e.radius), TArc))
          \cup Failing("center", PtNear(e.r.center, RReadAll(e.center), TArc))
          \cup Failing("circle", e.r.circle = e.circle))

JudgeCheckCurve(ev, e) == Failing("valid curve accepted / malformed curve rejected", e.x = e.expect)

\* asked through the C interface and of the library itself: the same answer, or refused by both
JudgeCSame(ev, e) ==
    IF e.x # "" THEN Unexpected(e)
    ELSE Failing("same answer as the library's", e.r.c = e.r.lib)

JudgeC(ev, i) ==
    LET e == ev[i] IN
    CASE e.op = "DefCurve" -> {}
      [] e.op = "Eval" -> JudgeEval(ev, e)
      [] e.op = "BezierEval" -> JudgeBezierEval(ev, e)
      [] e.op = "Ders" -> JudgeDers(ev, e)
      [] e.op = "InsertKnot" -> JudgeInsert(ev, e)
      [] e.op = "Refine" -> JudgeRefine(ev, e)
      [] e.op = "RemoveKnot" -> JudgeRemove(ev, e)
      [] e.op = "RemoveExcessive" -> JudgeRemoveExcessive(ev, e)
      [] e.op = "Elevate" -> JudgeElevate(ev, e)
      [] e.op = "Reduce" -> JudgeReduce(ev, e)
      [] e.op = "Split" -> JudgeSplit(ev, e)
      [] e.op = "Reverse" -> JudgeReverse(ev, e)
      [] e.op = "Reparam" -> JudgeReparam(ev, e)
      [] e.op = "Decompose" -> JudgeDecompose(ev, e)
      [] e.op = "Frenet" -> JudgeFrenet(ev, e)
      [] e.op = "Extract" -> JudgeExtract(ev, e)
      [] e.op = "Merge" -> JudgeMerge(ev, e)
      [] e.op = "Moebius" -> JudgeMoebius(ev, e)
      [] e.op = "Transform" -> JudgeTransform(ev, e)
      [] e.op = "ToClamp" -> JudgeToClamp(ev, e)
      [] e.op = "ToUnclamp" -> JudgeToUnclamp(ev, e)
      [] e.op = "Predicates" -> JudgePredicates(ev, e)
      [] e.op = "IsArc" -> JudgeIsArc(ev, e)
      [] e.op = "CheckCurve" -> JudgeCheckCurve(ev, e)
      [] e.op = "CSame" -> JudgeCSame(ev, e)

=============================================================================
