---------------------------- MODULE VolumeRules ----------------------------
(* Conformance of trivariate (volume) evaluation and operations.  Directions are numbered 0 (u), 1 (v), 2 (w) as in   *)
(* the library's enumeration; e.q is the v parameter of an event (e.v refers to the volume).                       *)
EXTENDS SurfaceRules

VStructure(rv, pu, pv, pw, U, V, W) ==
    IF ~ FiniteVol(rv) THEN {"result not finite"}
    ELSE Failing("degrees", rv.pu = pu /\ rv.pv = pv /\ rv.pw = pw)
    \cup Failing("knot vector in u", KNear(RReadAll(rv.U), U, TKnot))
    \cup Failing("knot vector in v", KNear(RReadAll(rv.V), V, TKnot))
    \cup Failing("knot vector in w", KNear(RReadAll(rv.W), W, TKnot))
    \cup Failing("control point count", Counts(rv.pu, rv.U, Len(rv.P)) /\ \A i \in 1 .. Len(rv.P) : Counts(rv.pv, rv.V, Len(rv.P[i]))
                                        /\ \A j \in 1 .. Len(rv.P[i]) : Counts(rv.pw, rv.W, Len(rv.P[i][j])))

SameVolOn(o1, o2, SU, SV, SW, f(_), g(_), h(_)) ==
    \A i \in 1 .. Len(SU) : SameSurfOn(VolSliceU(o1, SU[i]), VolSliceU(o2, f(SU[i])), SV, SW, g, h, TShape)

\* a point sample per direction: every span, and enough points per span in a direction that was changed
Samp(p, U, s) == TLCEval(SpanSamples(KBreaks(p, U), s))

VShapeAs(o, rv, pu, pv, pw, U, V, W, f(_), g(_), h(_)) ==
    LET F == VStructure(rv, pu, pv, pw, U, V, W) IN
    IF F # {} THEN F
    ELSE LET q == RdVol(rv) IN
         IF ~ WellFormedVolume(q) THEN {"result well formed"}
         ELSE Failing("shape", SameVolOn(o, q, Samp(o.pu, o.U, o.pu + 1), Samp(o.pv, o.V, o.pv + 1), Samp(o.pw, o.W, o.pw + 1), f, g, h))

\* apply a knot function to direction d
On(d, k, F(_), K) == IF d = k THEN F(K) ELSE K
Inc(d, k, t, p) == IF d = k THEN p + t ELSE p

JudgeVEval(ev, e) ==
    IF e.x # "" THEN Unexpected(e)
    ELSE Failing("point in volume", PtNear(e.r.pt, VolP(VolAt(ev, e.v), R(e.u), R(e.q), R(e.w)), TEval))

RECURSIVE VMaxAbs(_, _)
VMaxAbs(H, T) == IF T = {} THEN R(1) ELSE LET t == CHOOSE t \in T : TRUE IN RMax(MaxAbs(H[t[1]][t[2]][t[3]]), VMaxAbs(H, T \ {t}))
Upto3(d) == {t \in (0 .. d) \X (0 .. d) \X (0 .. d) : t[1] + t[2] + t[3] <= d}
JudgeVDers(ev, e) ==
    LET o == VolAt(ev, e.v)
        d == e.d
        H == VolHDers(o, R(e.u), R(e.q), R(e.w), d)
        D == TLCEval([a \in 0 .. d |-> TLCEval([b \in 0 .. d - a |-> TLCEval([c \in 0 .. d - a - b |-> VolDer(H, a, b, c)])])])
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ RAllFinite(e.r.d) THEN {"derivatives not finite"}
        ELSE Failing("volume derivatives", \A k \in 0 .. d :
                LET m == TLCEval(RMul(TDer, RMax(VMaxAbs(D, Upto3(k)), VMaxAbs(H, Upto3(k))))) IN
                \A t \in Upto3(k) : t[1] + t[2] + t[3] = k => VNear(RReadAll(e.r.d[t[1] + 1][t[2] + 1][t[3] + 1]), D[t[1]][t[2]][t[3]], m))

\* the free direction of an iso curve is marked by -1 in the call
JudgeVIso(ev, e) ==
    LET o == VolAt(ev, e.v)
        p == <<o.pu, o.pv, o.pw>>[e.free + 1]
        U == <<o.U, o.V, o.W>>[e.free + 1]
        At(x) == IF e.free = 0 THEN VolP(o, x, R(e.q), R(e.w)) ELSE IF e.free = 1 THEN VolP(o, R(e.u), x, R(e.w)) ELSE VolP(o, R(e.u), R(e.q), x)
        F == Structure(e.r.c, p, U, TKnot)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF F # {} THEN F
        ELSE LET c == RdCurve(e.r.c)
                 S == SpanSamples(CurveBreaks(c), 2 * c.p + 1)
             IN  Failing("iso curve", WellFormedCurve(c) /\ \A i \in 1 .. Len(S) : VClose(CurveP(c, S[i]), At(S[i]), TShape))

VKnotOp(ev, e, t, F(_)) ==
    LET o == VolAt(ev, e.v)
        d == e.dir
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE VShapeAs(o, e.r.v, Inc(d, 0, t, o.pu), Inc(d, 1, t, o.pv), Inc(d, 2, t, o.pw),
                      On(d, 0, F, o.U), On(d, 1, F, o.V), On(d, 2, F, o.W), Id, Id, Id)

JudgeVReverse(ev, e) ==
    LET o == VolAt(ev, e.v)
        d == e.dir
        Mir(k, p, U, x) == IF d = k THEN RSub(RAdd(DomLo(p, U), DomHi(p, U)), x) ELSE x
        FU(x) == Mir(0, o.pu, o.U, x)
        FV(x) == Mir(1, o.pv, o.V, x)
        FW(x) == Mir(2, o.pw, o.W, x)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE VShapeAs(o, e.r.v, o.pu, o.pv, o.pw, On(d, 0, KReverse, o.U), On(d, 1, KReverse, o.V), On(d, 2, KReverse, o.W), FU, FV, FW)

JudgeVSwap(ev, e) ==
    LET o == VolSwap(VolAt(ev, e.v), e.dir + 1, e.dir2 + 1) IN
    IF e.x # "" THEN Unexpected(e)
    ELSE VShapeAs(o, e.r.v, o.pu, o.pv, o.pw, o.U, o.V, o.W, Id, Id, Id)

\* the part of o with the new knot vectors U, V, W (same parameters)
VPartAs(o, rv, U, V, W) ==
    LET F == VStructure(rv, o.pu, o.pv, o.pw, U, V, W) IN
    IF F # {} THEN F
    ELSE LET q == RdVol(rv) IN
         IF ~ WellFormedVolume(q) THEN {"result well formed"}
         ELSE Failing("part shape", SameVolOn(q, o, Samp(q.pu, q.U, q.pu + 1), Samp(q.pv, q.V, q.pv + 1), Samp(q.pw, q.W, q.pw + 1), Id, Id, Id))
JudgeVSplit(ev, e) ==
    LET o == VolAt(ev, e.v)
        d == e.dir
        x == R(e.u)
        L(k, p, U) == IF d = k THEN KSplitLeft(p, U, x) ELSE U
        G(k, p, U) == IF d = k THEN KSplitRight(p, U, x) ELSE U
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ e.r.b THEN {"interior parameter not split"}
        ELSE VPartAs(o, e.r.l, L(0, o.pu, o.U), L(1, o.pv, o.V), L(2, o.pw, o.W))
             \cup VPartAs(o, e.r.r, G(0, o.pu, o.U), G(1, o.pv, o.V), G(2, o.pw, o.W))

\* the section at a fixed parameter: the two remaining directions, in order
JudgeVExtract(ev, e) ==
    LET o == VolAt(ev, e.v)
        d == e.dir
        x == R(e.u)
        s == VolSliceU(IF d = 0 THEN o ELSE IF d = 1 THEN VolSwap(o, 1, 2) ELSE VolSwap(VolSwap(o, 1, 3), 2, 3), x)
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ e.r.b THEN {"section not extracted"}
        ELSE SShapeAs(s, e.r.s, s.pu, s.pv, s.U, s.V, Id, Id)

JudgeVClosed(ev, e) == IF e.x # "" THEN Unexpected(e) ELSE Failing("closed", e.r.b = e.expect)

\* the parameter found for a point of the volume maps to that point
JudgeVParam(ev, e) ==
    LET o == VolAt(ev, e.v)
        t == RReadAll(e.r.uvw)
        In(p, U, x) == RLe(RSub(DomLo(p, U), TKnot), x) /\ RLe(x, RAdd(DomHi(p, U), TKnot))
    IN  IF e.x # "" THEN Unexpected(e)
        ELSE IF ~ RAllFinite(e.r.uvw) THEN {"parameter not finite"}
        ELSE IF ~ (In(o.pu, o.U, t[1]) /\ In(o.pv, o.V, t[2]) /\ In(o.pw, o.W, t[3])) THEN {"parameter outside the domain"}
        ELSE Failing("point at the parameter", RLe(VDist(VolP(o, t[1], t[2], t[3]), RReadAll(e.q)), TLoose))

JudgeV(ev, i) ==
    LET e == ev[i] IN
    CASE e.op = "DefVol" -> {}
      [] e.op = "VEval" -> JudgeVEval(ev, e)
      [] e.op = "VDers" -> JudgeVDers(ev, e)
      [] e.op = "VIso" -> JudgeVIso(ev, e)
      [] e.op = "VInsert" -> VKnotOp(ev, e, 0, LAMBDA K : KInsert(K, R(e.u), e.t))
      [] e.op = "VRefine" -> VKnotOp(ev, e, 0, LAMBDA K : KInsertAll(K, RReadAll(e.X)))
      [] e.op = "VElevate" -> VKnotOp(ev, e, e.t, LAMBDA K : KElevate(K, e.t))
      [] e.op = "VReverse" -> JudgeVReverse(ev, e)
      [] e.op = "VSwap" -> JudgeVSwap(ev, e)
      [] e.op = "VSplit" -> JudgeVSplit(ev, e)
      [] e.op = "VExtract" -> JudgeVExtract(ev, e)
      [] e.op = "VClosed" -> JudgeVClosed(ev, e)
      [] e.op = "VParam" -> JudgeVParam(ev, e)
      [] OTHER -> JudgeS(ev, i)
=============================================================================
