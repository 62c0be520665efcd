----------------------------- MODULE TraceBasis -----------------------------
(* Conformance of basis functions, knot-vector utilities and polynomials. *)
EXTENDS TraceBase

\* rows of derivatives of the p+1 basis functions alive on span k: [d+1] -> sequence, via unit control points
UnitCurve(p, U, i) == [p |-> p, U |-> U, P |-> [j \in 1 .. Len(U) - p - 1 |-> <<IF j = i THEN R(1) ELSE R(0)>>]]

BasisDer(p, U, k, i, u, d) == \* <<N_i(u), N_i'(u), ... N_i^(d)(u)>>, i 1-based, on span k
    LET H == CurveHDers(UnitCurve(p, U, i), k, u, d) IN [n \in 1 .. d + 1 |-> H[n][1]]

SeqNear(a, b, tol) == Len(a) = Len(b) /\ RAllFinite(a) /\ \A i \in 1 .. Len(b) : RClose(a[i], b[i], tol)

\* a row of derivatives of one order: the derivatives of a basis cancel to zero, so rounding is measured against the
\* largest of the row (relative), not against an entry that may itself vanish
RECURSIVE RowMax(_)
RowMax(b) == IF Len(b) = 1 THEN RMax(1, RAbs(b[1])) ELSE RMax(RAbs(b[1]), RowMax(Tail(b)))
RowNear(a, b, tol) == Len(a) = Len(b) /\ RAllFinite(a) /\
    (LET m == RowMax(b) IN \A i \in 1 .. Len(b) : RLe(RAbs(RSub(a[i], b[i])), RMul(RMul(tol, RQ(1, 100)), m)) \/ RClose(a[i], b[i], tol))

RECURSIVE MinGap(_)
MinGap(B) == IF Len(B) = 2 THEN RSub(B[2], B[1]) ELSE RMin(RSub(B[2], B[1]), MinGap(Tail(B)))
RECURSIVE Pow(_, _)
Pow(t, i) == IF i = 0 THEN R(1) ELSE RMul(t, Pow(t, i - 1))

\* natural magnitude of a d-th derivative of a degree p basis function
DerScale(p, U, d) == RMax(1, RDiv(Fact[p] \div Fact[p - d], Pow(MinGap(KDistinct(U)), d)))

JudgeBasis(e) ==
    LET p == e.p
        U == RReadAll(e.U)
        u == R(e.u)
        k == KSpan(p, U, u)
        N == BasisRow(U, k, p, u)
        n == Len(U) - p - 1
        D == TLCEval([i \in 1 .. p + 1 |-> BasisDer(p, U, k, k - p + i - 1, u, e.d)])
        r == e.r
        atHi == KEq(u, DomHi(p, U))
    IN  IF e.x # "" THEN {"unexpected exception " \o e.x}
        ELSE Failing("knot span", r.span = k - 1)
        \cup Failing("basis functions", SeqNear(r.N, N, TEval))
        \cup Failing("partition of unity", RAllFinite(r.N) /\ RNear(RSum(r.N), 1, TEval) /\ \A i \in 1 .. p + 1 : RLe(RQ(-1, 1000000000), r.N[i]))
        \cup Failing("basis derivatives", Len(r.ders) = e.d + 1 /\
               \A d \in 0 .. e.d : RowNear(r.ders[d + 1], [i \in 1 .. p + 1 |-> D[i][d + 1]], TEval))
        \cup Failing("first order derivatives",
               /\ SeqNear(r.first[1], N, TEval)
               /\ RowNear(r.first[2], [i \in 1 .. p + 1 |-> BasisDer(p, U, k, k - p + i - 1, u, 1)[2]], TEval))
        \cup Failing("one basis function", Len(r.one) = n /\ RAllFinite(r.one) /\
               \A i \in 1 .. n : RNear(r.one[i], IF i < k - p \/ i > k THEN R(0) ELSE N[i - (k - p) + 1], TOne))
        \cup Failing("one basis function derivatives", atHi \/ (Len(r.oned) = n /\
               \A i \in 1 .. n : Len(r.oned[i]) = e.d + 1 /\ RAllFinite(r.oned[i]) /\ \A d \in 0 .. e.d :
                   RNear(r.oned[i][d + 1], IF i < k - p \/ i > k THEN R(0) ELSE D[i - (k - p) + 1][d + 1], RMul(TOne, RMul(2 ^ d, DerScale(p, U, d))))))
        \cup Failing("all basis functions", \A q \in 0 .. p : LET M == BasisRow(U, k, q, u) IN
               \A j \in 0 .. q : RIsFinite(r.all[j + 1][q + 1]) /\ RClose(r.all[j + 1][q + 1], M[j + 1], TEval))
        \cup Failing("knot multiplicity", r.mult = KMult(U, u))
        \cup Failing("continuity", r.cont = p - KMult(U, u))

JudgeSpans(e) ==
    LET p == e.p
        U == RReadAll(e.U)
        S == RReadAll(e.us)
        r == e.r
    IN  IF e.x # "" THEN {"unexpected exception " \o e.x}
        ELSE UNION {LET u == S[i]
                        k == KSpan(p, U, u)
                    IN  Failing("knot span", r.spans[i] = k - 1)
                        \cup Failing("knot multiplicity", r.mults[i] = KMult(U, u))
                        \cup Failing("continuity", r.conts[i] = p - KMult(U, u))
                        \cup Failing("basis functions", SeqNear(r.N[i], BasisRow(U, k, p, u), TEval))
                    : i \in 1 .. Len(S)}

---------------------------------------------------------------------------
Bern(i, p, t) == RMul(Binom(p, i), RMul(Pow(t, i), Pow(RSub(1, t), p - i)))
JudgeBernstein(e) ==
    LET t == R(e.u)
        B == [i \in 1 .. e.p + 1 |-> Bern(i - 1, e.p, t)]
    IN  IF e.x # "" THEN {"unexpected exception " \o e.x}
        ELSE Failing("Bernstein", SeqNear(e.r.one, B, TEval)) \cup Failing("all Bernstein", SeqNear(e.r.all, B, TEval))

PolyVal(a, t) == RDot(RReadAll(a), [i \in 1 .. Len(a) |-> Pow(t, i - 1)])
JudgeHorner(e) ==
    IF e.x # "" THEN {"unexpected exception " \o e.x}
    ELSE Failing("Horner", RIsFinite(e.r.y) /\ RClose(e.r.y, PolyVal(e.a, R(e.u)), TEval))
JudgeHorner2(e) ==
    IF e.x # "" THEN {"unexpected exception " \o e.x}
    ELSE Failing("Horner (two variables)", RIsFinite(e.r.y) /\
           RClose(e.r.y, PolyVal([i \in 1 .. Len(e.a) |-> PolyVal(e.a[i], R(e.t))], R(e.u)), TEval))

\* BezierToPower: column of Bernstein coefficients to power coefficients; entry (j,k) = (-1)^(j-k) C(p,k) C(p-k,j-k), k <= j
PowEntry(p, j, k) == IF k > j THEN 0 ELSE (IF (j - k) % 2 = 0 THEN 1 ELSE -1) * Binom(p, k) * Binom(p - k, j - k)
JudgePowerMatrices(e) ==
    LET p == e.p IN
    IF e.x # "" THEN {"unexpected exception " \o e.x}
    ELSE Failing("Bezier to power matrix", \A j \in 0 .. p : SeqNear(e.r.m[j + 1], [k \in 1 .. p + 1 |-> R(PowEntry(p, j, k - 1))], TEval))
    \cup Failing("power to Bezier matrix is the inverse", RAllFinite(e.r.im) /\ Len(e.r.im) = p + 1 /\ \A i \in 0 .. p, k \in 0 .. p :
             RNear(RDot([j \in 1 .. p + 1 |-> R(PowEntry(p, i, j - 1))], [j \in 1 .. p + 1 |-> R(e.r.im[j][k + 1])]), IF i = k THEN 1 ELSE 0, TEval))

---------------------------------------------------------------------------
(* knot vector utilities *)
SubMulti(A, B) == \A i \in 1 .. Len(A) : KMult(B, A[i]) >= KMult(A, A[i])
SortedSeq(A) == NonDecreasing(A)

JudgeKvMaps(e) ==
    LET U == RReadAll(e.U)
        D == KDistinct(U)
        Map(m, E) == Len(m) = Len(E) /\ \A i \in 1 .. Len(E) : RNear(m[i][1], E[i], TKnot) /\ m[i][2] = KMult(U, E[i])
        nd == Len(D)
        unif == /\ nd >= 2
                /\ KMult(U, D[1]) = KMult(U, D[nd])
                /\ \A i \in 2 .. nd - 1 : RNear(RSub(D[i + 1], D[i]), RSub(D[2], D[1]), KTol)
                /\ \A i \in 2 .. nd - 2 : KMult(U, D[i]) = KMult(U, D[i + 1])
    IN  IF e.x # "" THEN {"unexpected exception " \o e.x}
        ELSE Failing("multiplicity map", Map(e.r.all, D))
        \cup Failing("internal multiplicity map", Map(e.r.in, SubSeq(D, 2, nd - 1)))
        \cup Failing("uniformity", e.r.uniform = unif)
        \cup Failing("validity", e.r.valid = NonDecreasing(U))

RECURSIVE Least(_, _)
Least(s, a) == IF s = <<>> THEN a ELSE Least(Tail(s), RMin(a, s[1]))
RECURSIVE Most(_, _)
Most(s, a) == IF s = <<>> THEN a ELSE Most(Tail(s), RMax(a, s[1]))
\* k knots and n control points belong to a curve of degree p exactly when k = n + p + 1 (one Bezier segment: n = p + 1).
\* The tolerance for modifications: distance tolerance, less for small weights and far control points
JudgeCounts(e) ==
    LET P == [i \in 1 .. Len(e.P) |-> RReadAll(e.P[i])]
        w == Least([i \in 1 .. Len(P) |-> P[i][4]], 1)
        d2 == Most([i \in 1 .. Len(P) |-> RDiv(RAdd(RMul(P[i][1], P[i][1]), RAdd(RMul(P[i][2], P[i][2]), RMul(P[i][3], P[i][3]))), RMul(P[i][4], P[i][4]))], 0)
    IN  IF e.x # "" THEN {"unexpected exception " \o e.x}
        ELSE Failing("Bezier counts", e.r.bezier = (e.n = e.p + 1))
        \cup Failing("B-spline counts", e.r.bspline = (e.k = e.n + e.p + 1))
        \cup Failing("NURBS counts", e.r.nurbs = (e.k = e.n + e.p + 1))
        \cup Failing("reducible degree", e.r.reduce = (e.p > 1))
        \cup Failing("modification tolerance", RAllFinite(<<e.r.tol>>) /\ RNear(RMul(R(e.r.tol), RAdd(1, RSqrt(d2))), RMul(RQ(1, 10000), w), RMul(RQ(1, 1000000), RQ(1, 1000000))))

JudgeKvRescale(e) ==
    IF e.x # "" THEN {"unexpected exception " \o e.x}
    ELSE Failing("rescaled knots", RAllFinite(e.r.U) /\ KNear(RReadAll(e.r.U), KAffine(RReadAll(e.U), R(e.lo), R(e.hi)), TKnot))

\* the union (as multisets, larger multiplicity wins) of the knot vectors in L
KUnionMult(L, x) == LET M == {KMult(L[i], x) : i \in 1 .. Len(L)} IN CHOOSE m \in M : \A k \in M : k <= m
Completes(U, X, L) == \* inserting X into U gives the union of L
    /\ SortedSeq(X)
    /\ \A i \in 1 .. Len(X) : \E n \in 1 .. Len(L) : KMult(L[n], X[i]) > 0
    /\ \A n \in 1 .. Len(L) : \A i \in 1 .. Len(L[n]) : KMult(U, L[n][i]) + KMult(X, L[n][i]) = KUnionMult(L, L[n][i])
JudgeKvMerge2(e) ==
    LET A == RReadAll(e.A)
        B == RReadAll(e.B) IN
    IF e.x # "" THEN {"unexpected exception " \o e.x}
    ELSE Failing("knots to insert into the first", Completes(A, RReadAll(e.r.a), <<A, B>>))
    \cup Failing("knots to insert into the second", Completes(B, RReadAll(e.r.b), <<A, B>>))
JudgeKvMergeAll(e) ==
    LET L == RReadAll(e.L) IN
    IF e.x # "" THEN {"unexpected exception " \o e.x}
    ELSE Failing("knots to insert", Len(e.r.X) = Len(L) /\ \A n \in 1 .. Len(L) : Completes(L[n], RReadAll(e.r.X[n]), L))
\* k midpoints, each halving a longest gap of the distinct knots so far (ties may be broken
\* either way, so the gap lengths are compared)
RECURSIVE HalveLongest(_, _)
HalveLongest(G, k) ==
    IF k = 0 THEN G
    ELSE LET i == CHOOSE j \in 1 .. Len(G) : \A h \in 1 .. Len(G) : RLe(G[h], RAdd(G[j], TKnot))
         IN  HalveLongest(SubSeq(G, 1, i - 1) \o <<RDiv(G[i], 2), RDiv(G[i], 2)>> \o SubSeq(G, i + 1, Len(G)), k - 1)
Gaps(D) == [i \in 1 .. Len(D) - 1 |-> RSub(D[i + 1], D[i])]
JudgeKvMidInsert(e) ==
    LET U == RReadAll(e.U)
        X == RReadAll(e.r.X)
    IN  IF e.x # "" THEN {"unexpected exception " \o e.x}
        ELSE Failing("number of knots", Len(X) = e.k)
        \cup Failing("sorted, inside the range", SortedSeq(X) /\ \A i \in 1 .. Len(X) : RLt(U[1], X[i]) /\ RLt(X[i], U[Len(U)]))
        \cup Failing("the longest gaps are halved", KNear(SortSeq(Gaps(KDistinct(KInsertAll(U, X))), RLt), SortSeq(HalveLongest(Gaps(KDistinct(U)), e.k), RLt), TKnot))
        \cup Failing("new and distinct", \A i \in 1 .. Len(X) : KMult(U, X[i]) = 0 /\ KMult(X, X[i]) = 1)

JudgeKvClampInsert(e) ==
    LET U == RReadAll(e.U)
        X == RReadAll(e.r.X) IN
    IF e.x # "" THEN {"unexpected exception " \o e.x}
    ELSE Failing("end multiplicities become p + 1",
           /\ \A i \in 1 .. Len(X) : KEq(X[i], e.lo) \/ KEq(X[i], e.hi)
           /\ KMult(U, e.lo) + KMult(X, e.lo) = e.p + 1
           /\ KMult(U, e.hi) + KMult(X, e.hi) = e.p + 1)

\* averaging of parameters (The NURBS Book, eq. 9.8)
JudgeKvAverage(e) ==
    LET t == RReadAll(e.t)
        n == Len(t)
        p == e.p
        E == Rep(t[1], p + 1) \o [j \in 1 .. n - p - 1 |-> RDiv(RSum(SubSeq(t, j + 1, j + p)), p)] \o Rep(t[n], p + 1)
    IN  IF e.x # "" THEN {"unexpected exception " \o e.x}
        ELSE Failing("averaged knots", RAllFinite(e.r.U) /\ KNear(RReadAll(e.r.U), E, TKnot))

Judge(ev, i) ==
    LET e == ev[i] IN
    CASE e.op = "Basis" -> JudgeBasis(e)
      [] e.op = "Spans" -> JudgeSpans(e)
      [] e.op = "Bernstein" -> JudgeBernstein(e)
      [] e.op = "Horner" -> JudgeHorner(e)
      [] e.op = "Horner2" -> JudgeHorner2(e)
      [] e.op = "PowerMatrices" -> JudgePowerMatrices(e)
      [] e.op = "KvMaps" -> JudgeKvMaps(e)
      [] e.op = "Counts" -> JudgeCounts(e)
      [] e.op = "KvRescale" -> JudgeKvRescale(e)
      [] e.op = "KvMerge2" -> JudgeKvMerge2(e)
      [] e.op = "KvMergeAll" -> JudgeKvMergeAll(e)
      [] e.op = "KvMidInsert" -> JudgeKvMidInsert(e)
      [] e.op = "KvClampInsert" -> JudgeKvClampInsert(e)
      [] e.op = "KvAverage" -> JudgeKvAverage(e)

TNext == TraceStep(Judge)
=============================================================================
