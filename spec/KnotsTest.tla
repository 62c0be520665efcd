----------------------------- MODULE KnotsTest -----------------------------
(* The Java overrides in Knots agree with the TLA+ definitions, on every short knot vector over a small grid. *)
EXTENDS Knots, FiniteSets
G == 0 .. 4
KEqDef(a, b) == RLt(RAbs(RSub(a, b)), KTol)
KMultDef(U, u) == Len(SelectSeq(U, LAMBDA x : KEqDef(x, u)))
NonDecreasingDef(U) == \A i \in 1 .. Len(U) - 1 : RLe(U[i], U[i + 1])
KSpanDef(p, U, u) ==
    LET n == Len(U) - p - 1
    IN  IF RLe(DomHi(p, U), u)
        THEN CHOOSE i \in p + 1 .. n : RLt(U[i], U[n + 1]) /\ (\A j \in i + 1 .. n : ~ RLt(U[j], U[n + 1]))
        ELSE CHOOSE i \in p + 1 .. n : RLe(U[i], u) /\ RLt(u, U[i + 1])
RECURSIVE KDistinctDef(_)
KDistinctDef(U) ==
    IF Len(U) <= 1 THEN U
    ELSE IF KEqDef(U[1], U[2]) THEN KDistinctDef(<<U[1]>> \o SubSeq(U, 3, Len(U)))
    ELSE <<U[1]>> \o KDistinctDef(Tail(U))
ASSUME \A a \in {<<0, 1>>, <<1, 1>>, <<1, 2000000>>, <<1, 1000000>>, <<-1, 2000000>>, <<-1, 1000000>>}, b \in {0, 1} :
    KEq(a, b) = KEqDef(a, b) /\ KEq(b, b) /\ KEq(b, 1 - b) = KEqDef(b, 1 - b)
ASSUME \A k \in 2 .. 6 : \A U \in [1 .. k -> 0 .. 3] :
    /\ NonDecreasing(U) = NonDecreasingDef(U)
    /\ KDistinct(U) = KDistinctDef(U)
    /\ \A u \in G : KMult(U, u) = KMultDef(U, u)
    /\ \A p \in 1 .. 2 : (NonDecreasing(U) /\ Len(U) >= 2 * p + 2 /\ DomLo(p, U) < DomHi(p, U)) =>
          \A j \in 2 * DomLo(p, U) .. 2 * DomHi(p, U) : KSpan(p, U, RQ(j, 2)) = KSpanDef(p, U, RQ(j, 2))
VARIABLE x
Init == x = 0
Next == x < 1 /\ x' = x + 1
=============================================================================
