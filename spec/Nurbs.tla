------------------------------- MODULE Nurbs -------------------------------
(***************************************************************************)
(* Exact geometry of NURBS curves, surfaces and volumes, straight from the *)
(* definitions (Cox - de Boor recursion, tensor products, quotient rule)   *)
(* and independent of the algorithms the implementation uses.              *)
(* A curve is [p, U, P]: degree, knots, homogeneous control points         *)
(* <<w*x, w*y, w*z, w>>.  A surface is [pu, pv, U, V, P] with P[i][j], i    *)
(* along U.  A volume is [pu, pv, pw, U, V, W, P] with P[i][j][k].          *)
(***************************************************************************)
EXTENDS Knots

\* row p of the Cox - de Boor triangle on span k: <<N_{k-p,p}(u), ..., N_{k,p}(u)>>
RECURSIVE BasisRow(_, _, _, _)
BasisRow(U, k, p, u) ==
    IF p = 0 THEN <<R(1)>>
    ELSE LET prev == BasisRow(U, k, p - 1, u)
             N(i) == IF i < k - p + 1 \/ i > k THEN R(0) ELSE prev[i - (k - p)]
             Ratio(a, b) == IF RSgn(b) = 0 THEN R(0) ELSE RDiv(a, b)
         IN  TLCEval([j \in 1 .. p + 1 |->
                LET i == k - p + j - 1 IN
                RTrim(RAdd(IF j = 1     THEN R(0) ELSE RMul(Ratio(RSub(u, U[i]), RSub(U[i + p], U[i])), N(i)),
                           IF j = p + 1 THEN R(0) ELSE RMul(Ratio(RSub(U[i + p + 1], u), RSub(U[i + p + 1], U[i + 1])), N(i + 1))))])

\* the i-th basis function (1-based i) of degree p, by the recursion itself, on half-open spans
RECURSIVE BasisFun(_, _, _, _)
BasisFun(U, i, p, u) ==
    IF p = 0 THEN IF RLe(U[i], u) /\ RLt(u, U[i + 1]) THEN R(1) ELSE R(0)
    ELSE LET Ratio(a, b) == IF RSgn(b) = 0 THEN R(0) ELSE RDiv(a, b)
         IN  RAdd(RMul(Ratio(RSub(u, U[i]), RSub(U[i + p], U[i])), BasisFun(U, i, p - 1, u)),
                  RMul(Ratio(RSub(U[i + p + 1], u), RSub(U[i + p + 1], U[i + 1])), BasisFun(U, i + 1, p - 1, u)))

Project(h) == <<RTrim(RDiv(h[1], h[4])), RTrim(RDiv(h[2], h[4])), RTrim(RDiv(h[3], h[4]))>>

---------------------------------------------------------------------------
(* Curves *)

\* homogeneous point, any span k containing u
CurveHAt(c, k, u) == VComb(BasisRow(c.U, k, c.p, u), SubSeq(c.P, k - c.p, k))
CurveH(c, u) == CurveHAt(c, KSpan(c.p, c.U, u), u)
CurveP(c, u) == Project(CurveH(c, u))

CurveDomLo(c) == DomLo(c.p, c.U)
CurveDomHi(c) == DomHi(c.p, c.U)
CurveBreaks(c) == KBreaks(c.p, c.U)

\* derivative curve in homogeneous space
Hodograph(c) ==
    [p |-> c.p - 1,
     U |-> SubSeq(c.U, 2, Len(c.U) - 1),
     P |-> TLCEval([i \in 1 .. Len(c.P) - 1 |->
              LET d == RSub(c.U[i + c.p + 1], c.U[i + 1]) IN
              IF RSgn(d) = 0 THEN VZero(Len(c.P[1])) ELSE VScale(RDiv(c.p, d), VSub(c.P[i + 1], c.P[i]))])]

\* <<H(u), H'(u), ..., H^(d)(u)>> on span k
RECURSIVE CurveHDers(_, _, _, _)
CurveHDers(c, k, u, d) ==
    IF d < 0 THEN <<>>
    ELSE IF c.p = 0 THEN <<c.P[k]>> \o [i \in 1 .. d |-> VZero(Len(c.P[1]))]
    ELSE <<CurveHAt(c, k, u)>> \o (IF d = 0 THEN <<>> ELSE CurveHDers(Hodograph(c), k - 1, u, d - 1))

Fact[n \in 0 .. 12] == IF n = 0 THEN 1 ELSE n * Fact[n - 1]
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE Fact[n] \div (Fact[k] * Fact[n - k])

XYZOf(h) == <<h[1], h[2], h[3]>>

\* quotient rule: <<C(u), C'(u), ..., C^(d)(u)>>
RECURSIVE RatDers(_, _)
RatDers(H, d) ==
    IF d = 0 THEN <<Project(H[1])>>
    ELSE LET prev == RatDers(H, d - 1)
             S == VComb([i \in 1 .. d |-> RMul(Binom(d, i), H[i + 1][4])], [i \in 1 .. d |-> prev[d - i + 1]])
         IN  Append(prev, VScale(RDiv(1, H[1][4]), VSub(XYZOf(H[d + 1]), S)))

CurveDers(c, u, d) == RatDers(CurveHDers(c, KSpan(c.p, c.U, u), u, d), d)
CurveDersAt(c, k, u, d) == RatDers(CurveHDers(c, k, u, d), d)

WellFormedCurve(c) ==
    /\ WellFormedKnots(c.p, c.U)
    /\ Counts(c.p, c.U, Len(c.P))
    /\ \A i \in 1 .. Len(c.P) : Len(c.P[i]) = 4 /\ RLt(0, c.P[i][4])

\* two curves trace the same points with the same parameters (after mapping u by f): checked at s
\* intervals per span of B; 2p samples per span determine a rational curve of degree p
SameCurveOn(c1, c2, S, f(_), tol) == \A i \in 1 .. Len(S) : VClose(CurveP(c1, S[i]), CurveP(c2, f(S[i])), tol)
SameCurve(c1, c2, tol) ==
    /\ RNear(CurveDomLo(c1), CurveDomLo(c2), KTol)
    /\ RNear(CurveDomHi(c1), CurveDomHi(c2), KTol)
    /\ SameCurveOn(c1, c2, SpanSamples(CurveBreaks(c2), 2 * c1.p + 1), LAMBDA u : u, tol)

---------------------------------------------------------------------------
(* Surfaces *)
RowCurveU(s, j) == [p |-> s.pu, U |-> s.U, P |-> [i \in 1 .. Len(s.P) |-> s.P[i][j]]]
RowCurveV(s, i) == [p |-> s.pv, U |-> s.V, P |-> s.P[i]]

SurfHAt(s, ku, kv, u, v) ==
    LET Nu == BasisRow(s.U, ku, s.pu, u)
        Nv == BasisRow(s.V, kv, s.pv, v)
    IN  VComb(Nu, [i \in 1 .. s.pu + 1 |-> VComb(Nv, SubSeq(s.P[ku - s.pu + i - 1], kv - s.pv, kv))])
SurfH(s, u, v) == SurfHAt(s, KSpan(s.pu, s.U, u), KSpan(s.pv, s.V, v), u, v)
SurfP(s, u, v) == Project(SurfH(s, u, v))

HodoU(s) == [s EXCEPT !.pu = s.pu - 1, !.U = SubSeq(s.U, 2, Len(s.U) - 1),
                      !.P = TLCEval([i \in 1 .. Len(s.P) - 1 |->
                         LET d == RSub(s.U[i + s.pu + 1], s.U[i + 1]) IN
                         TLCEval([j \in 1 .. Len(s.P[1]) |->
                            IF RSgn(d) = 0 THEN VZero(4) ELSE VScale(RDiv(s.pu, d), VSub(s.P[i + 1][j], s.P[i][j]))])])]
HodoV(s) == [s EXCEPT !.pv = s.pv - 1, !.V = SubSeq(s.V, 2, Len(s.V) - 1),
                      !.P = TLCEval([i \in 1 .. Len(s.P) |->
                         TLCEval([j \in 1 .. Len(s.P[1]) - 1 |->
                            LET d == RSub(s.V[j + s.pv + 1], s.V[j + 1]) IN
                            IF RSgn(d) = 0 THEN VZero(4) ELSE VScale(RDiv(s.pv, d), VSub(s.P[i][j + 1], s.P[i][j]))])])]

\* homogeneous partial derivative (a times in u, b times in v)
RECURSIVE SurfHDer(_, _, _, _, _, _, _)
SurfHDer(s, ku, kv, u, v, a, b) ==
    IF a > s.pu \/ b > s.pv THEN VZero(4)
    ELSE IF a > 0 THEN SurfHDer(HodoU(s), ku - 1, kv, u, v, a - 1, b)
    ELSE IF b > 0 THEN SurfHDer(HodoV(s), ku, kv - 1, u, v, a, b - 1)
    ELSE SurfHAt(s, ku, kv, u, v)

\* all partials with a + b <= d, as a matrix D[a+1][b+1]; H likewise
SurfHDers(s, u, v, d) ==
    LET ku == KSpan(s.pu, s.U, u)
        kv == KSpan(s.pv, s.V, v)
    IN  TLCEval([a \in 0 .. d |-> TLCEval([b \in 0 .. d - a |-> SurfHDer(s, ku, kv, u, v, a, b)])])

\* quotient rule in two variables
RECURSIVE SurfDer(_, _, _)
SurfDer(H, a, b) ==
    IF a = 0 /\ b = 0 THEN Project(H[0][0])
    ELSE LET T == {ij \in (0 .. a) \X (0 .. b) : ij # <<0, 0>>}
             RECURSIVE Acc(_)
             Acc(S) == IF S = {} THEN VZero(3)
                       ELSE LET ij == CHOOSE x \in S : TRUE IN
                            VAdd(VScale(RMul(Binom(a, ij[1]) * Binom(b, ij[2]), H[ij[1]][ij[2]][4]), SurfDer(H, a - ij[1], b - ij[2])),
                                 Acc(S \ {ij}))
         IN  VScale(RDiv(1, H[0][0][4]), VSub(XYZOf(H[a][b]), Acc(T)))

WellFormedSurface(s) ==
    /\ WellFormedKnots(s.pu, s.U) /\ WellFormedKnots(s.pv, s.V)
    /\ Counts(s.pu, s.U, Len(s.P))
    /\ \A i \in 1 .. Len(s.P) : Counts(s.pv, s.V, Len(s.P[i]))
    /\ \A i \in 1 .. Len(s.P) : \A j \in 1 .. Len(s.P[i]) : RLt(0, s.P[i][j][4])

SurfBreaksU(s) == KBreaks(s.pu, s.U)
SurfBreaksV(s) == KBreaks(s.pv, s.V)
SwapUV(s) == [pu |-> s.pv, pv |-> s.pu, U |-> s.V, V |-> s.U,
              P |-> [j \in 1 .. Len(s.P[1]) |-> [i \in 1 .. Len(s.P) |-> s.P[i][j]]]]

---------------------------------------------------------------------------
(* Volumes *)
\* a-th derivatives of the basis functions of degree p that do not vanish on span k: <<N_{k-p,p}^(a)(u), ..., N_{k,p}^(a)(u)>>
RECURSIVE DerRow(_, _, _, _, _)
DerRow(U, k, p, u, a) ==
    IF a = 0 THEN BasisRow(U, k, p, u)
    ELSE IF p = 0 THEN <<R(0)>>
    ELSE LET prev == DerRow(U, k, p - 1, u, a - 1)
             N(i) == IF i < k - p + 1 \/ i > k THEN R(0) ELSE prev[i - (k - p)]
             Q(x, d) == IF RSgn(d) = 0 THEN R(0) ELSE RDiv(x, d)
         IN  TLCEval([j \in 1 .. p + 1 |->
                LET i == k - p + j - 1 IN
                RTrim(RMul(p, RSub(Q(N(i), RSub(U[i + p], U[i])), Q(N(i + 1), RSub(U[i + p + 1], U[i + 1])))))])

VolHDer(o, u, v, w, a, b, c) ==
    LET ku == KSpan(o.pu, o.U, u)
        kv == KSpan(o.pv, o.V, v)
        kw == KSpan(o.pw, o.W, w)
        Nu == DerRow(o.U, ku, o.pu, u, a)
        Nv == DerRow(o.V, kv, o.pv, v, b)
        Nw == DerRow(o.W, kw, o.pw, w, c)
    IN  VComb(Nu, [i \in 1 .. o.pu + 1 |->
          VComb(Nv, [j \in 1 .. o.pv + 1 |->
             VComb(Nw, SubSeq(o.P[ku - o.pu + i - 1][kv - o.pv + j - 1], kw - o.pw, kw))])])

\* H[a][b][c] for a + b + c <= d
VolHDers(o, u, v, w, d) ==
    TLCEval([a \in 0 .. d |-> TLCEval([b \in 0 .. d - a |-> TLCEval([c \in 0 .. d - a - b |-> VolHDer(o, u, v, w, a, b, c)])])])

\* quotient rule in three variables
RECURSIVE VolDer(_, _, _, _)
VolDer(H, a, b, c) ==
    IF a = 0 /\ b = 0 /\ c = 0 THEN Project(H[0][0][0])
    ELSE LET T == {t \in (0 .. a) \X (0 .. b) \X (0 .. c) : t # <<0, 0, 0>>}
             RECURSIVE Acc(_)
             Acc(S) == IF S = {} THEN VZero(3)
                       ELSE LET t == CHOOSE x \in S : TRUE IN
                            VAdd(VScale(RMul(Binom(a, t[1]) * Binom(b, t[2]) * Binom(c, t[3]), H[t[1]][t[2]][t[3]][4]),
                                        VolDer(H, a - t[1], b - t[2], c - t[3])),
                                 Acc(S \ {t}))
         IN  VScale(RDiv(1, H[0][0][0][4]), VSub(XYZOf(H[a][b][c]), Acc(T)))

VolH(o, u, v, w) ==
    LET ku == KSpan(o.pu, o.U, u)
        kv == KSpan(o.pv, o.V, v)
        kw == KSpan(o.pw, o.W, w)
        Nu == BasisRow(o.U, ku, o.pu, u)
        Nv == BasisRow(o.V, kv, o.pv, v)
        Nw == BasisRow(o.W, kw, o.pw, w)
    IN  VComb(Nu, [i \in 1 .. o.pu + 1 |->
          VComb(Nv, [j \in 1 .. o.pv + 1 |->
             VComb(Nw, SubSeq(o.P[ku - o.pu + i - 1][kv - o.pv + j - 1], kw - o.pw, kw))])])
VolP(o, u, v, w) == Project(VolH(o, u, v, w))
WellFormedVolume(o) ==
    /\ WellFormedKnots(o.pu, o.U) /\ WellFormedKnots(o.pv, o.V) /\ WellFormedKnots(o.pw, o.W)
    /\ Counts(o.pu, o.U, Len(o.P))
    /\ \A i \in 1 .. Len(o.P) : Counts(o.pv, o.V, Len(o.P[i]))
    /\ \A i \in 1 .. Len(o.P) : \A j \in 1 .. Len(o.P[i]) : Counts(o.pw, o.W, Len(o.P[i][j]))
    /\ \A i \in 1 .. Len(o.P) : \A j \in 1 .. Len(o.P[i]) : \A k \in 1 .. Len(o.P[i][j]) : RLt(0, o.P[i][j][k][4])

\* the surface w |-> const, v |-> const, u |-> const
VolSliceU(o, u) ==
    LET ku == KSpan(o.pu, o.U, u)
        Nu == BasisRow(o.U, ku, o.pu, u)
    IN  [pu |-> o.pv, pv |-> o.pw, U |-> o.V, V |-> o.W,
         P |-> TLCEval([j \in 1 .. Len(o.P[1]) |-> TLCEval([k \in 1 .. Len(o.P[1][1]) |->
                  VComb(Nu, [i \in 1 .. o.pu + 1 |-> o.P[ku - o.pu + i - 1][j][k]])])])]
\* exchange two directions (1 = u, 2 = v, 3 = w)
VolSwap(o, a, b) ==
    LET ps == <<o.pu, o.pv, o.pw>>
        Ks == <<o.U, o.V, o.W>>
        Ns == <<Len(o.P), Len(o.P[1]), Len(o.P[1][1])>>
        s(x) == IF x = a THEN b ELSE IF x = b THEN a ELSE x
        At(t) == o.P[t[s(1)]][t[s(2)]][t[s(3)]]
    IN  [pu |-> ps[s(1)], pv |-> ps[s(2)], pw |-> ps[s(3)], U |-> Ks[s(1)], V |-> Ks[s(2)], W |-> Ks[s(3)],
         P |-> TLCEval([i \in 1 .. Ns[s(1)] |-> TLCEval([j \in 1 .. Ns[s(2)] |-> TLCEval([k \in 1 .. Ns[s(3)] |-> At(<<i, j, k>>)])])])]
=============================================================================
