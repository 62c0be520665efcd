------------------------------- MODULE Knots -------------------------------
(***************************************************************************)
(* Knot vectors: the discrete skeleton of every curve, surface and volume. *)
(* A knot vector is a non-decreasing sequence of numbers.  All operators   *)
(* compare with RLt/REq, so they apply both to the integer grids of the    *)
(* abstract machine (Machine.tla) and to the exact values of the doubles   *)
(* that the implementation produced (Trace*.tla).                          *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, TLC

\* two knots closer than this are one knot (the library uses 1e-6)
KTol == RQ(1, 1000000)
KEq(a, b) == RLt(RAbs(RSub(a, b)), KTol)

NonDecreasing(U) == \A i \in 1 .. Len(U) - 1 : RLe(U[i], U[i + 1])

KMult(U, u) == Len(SelectSeq(U, LAMBDA x : KEq(x, u)))

\* domain of a degree p knot vector: [U_p, U_{n+1}]  (1-based: U[p+1], U[Len-p])
DomLo(p, U) == U[p + 1]
DomHi(p, U) == U[Len(U) - p]

Clamped(p, U) == /\ \A i \in 1 .. p + 1 : KEq(U[i], U[1])
                 /\ \A i \in Len(U) - p .. Len(U) : KEq(U[i], U[Len(U)])

\* the counting law  m = n + p + 1
Counts(p, U, n) == Len(U) = n + p + 1

WellFormedKnots(p, U) ==
    /\ p >= 1
    /\ Len(U) >= 2 * (p + 1)
    /\ NonDecreasing(U)
    /\ RLt(DomLo(p, U), DomHi(p, U))

\* span of u: the largest k with U[k] <= u < U[k+1]; at the right end of the domain the last non-empty span.
\* Right-continuous, as the library documents (The NURBS Book, A2.1).
KSpan(p, U, u) ==
    LET n == Len(U) - p - 1
        k == IF RLe(DomHi(p, U), u)
             THEN CHOOSE i \in p + 1 .. n : RLt(U[i], U[n + 1]) /\ (\A j \in i + 1 .. n : ~ RLt(U[j], U[n + 1]))
             ELSE CHOOSE i \in p + 1 .. n : RLe(U[i], u) /\ RLt(u, U[i + 1])
    IN  k

\* insert u, times times, keeping the order
KInsert(U, u, times) ==
    LET lo == SelectSeq(U, LAMBDA x : RLe(x, u))
        hi == SelectSeq(U, LAMBDA x : RLt(u, x))
    IN  lo \o [i \in 1 .. times |-> u] \o hi

RECURSIVE KInsertAll(_, _)
KInsertAll(U, X) == IF X = <<>> THEN U ELSE KInsertAll(TLCEval(KInsert(U, Head(X), 1)), Tail(X))

\* remove u, times times (times <= KMult)
RECURSIVE KRemove(_, _, _)
KRemove(U, u, times) ==
    IF times = 0 THEN U
    ELSE LET i == CHOOSE j \in 1 .. Len(U) : KEq(U[j], u)
         IN  KRemove(TLCEval(SubSeq(U, 1, i - 1) \o SubSeq(U, i + 1, Len(U))), u, times - 1)

\* distinct values, in order
RECURSIVE KDistinct(_)
KDistinct(U) ==
    IF Len(U) <= 1 THEN U
    ELSE IF KEq(U[1], U[2]) THEN KDistinct(<<U[1]>> \o SubSeq(U, 3, Len(U)))
    ELSE <<U[1]>> \o KDistinct(Tail(U))

\* breakpoints inside the domain (both ends included)
KBreaks(p, U) == KDistinct(SubSeq(U, p + 1, Len(U) - p))

Rep(x, k) == [i \in 1 .. k |-> x]
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

\* raise every multiplicity by t (degree elevation)
KElevate(U, t) == LET D == KDistinct(U) IN Flatten([i \in 1 .. Len(D) |-> Rep(D[i], KMult(U, D[i]) + t)])

\* u |-> a + b - u
KReverse(U) == [i \in 1 .. Len(U) |-> RSub(RAdd(U[1], U[Len(U)]), U[Len(U) + 1 - i])]

\* affine map of [U_first, U_last] onto [lo, hi]
KAffine(U, lo, hi) == [i \in 1 .. Len(U) |->
       RAdd(lo, RDiv(RMul(RSub(hi, lo), RSub(U[i], U[1])), RSub(U[Len(U)], U[1])))]

\* values agree up to tol
KNear(U, V, tol) == Len(U) = Len(V) /\ \A i \in 1 .. Len(U) : RNear(U[i], V[i], tol)

\* left and right knot vectors of a split at interior u
KSplitLeft(p, U, u)  == SelectSeq(U, LAMBDA x : RLt(x, u) /\ ~ KEq(x, u)) \o Rep(u, p + 1)
KSplitRight(p, U, u) == Rep(u, p + 1) \o SelectSeq(U, LAMBDA x : RLt(u, x) /\ ~ KEq(x, u))

\* s subintervals per span: sample parameters lo + j*(hi-lo)/s over all spans, both ends included
RECURSIVE SpanSamples(_, _)
SpanSamples(B, s) ==
    IF Len(B) <= 1 THEN B
    ELSE [j \in 1 .. s |-> RAdd(B[1], RMul(RQ(j - 1, s), RSub(B[2], B[1])))] \o SpanSamples(Tail(B), s)
=============================================================================
