----------------------------- MODULE GenShapes -----------------------------
(***************************************************************************)
(* Enumerates knot-vector shapes (degree, interior multiplicities, end     *)
(* condition) together with every parameter position worth distinguishing: *)
(* the ends, every interior knot, and points inside every span.            *)
(* End conditions: "clamped" (p+1 equal knots), "open" (simple, evenly     *)
(* continued end knots: an unclamped vector) and "half" (clamped left,     *)
(* open right).                                                            *)
(***************************************************************************)
EXTENDS Knots, FiniteSets, Json
CONSTANTS MinP, MaxP, Spans, Unit, Offs, Ends, MaxMult
VARIABLES shape, pos
RECURSIVE FromMults(_, _)
FromMults(ms, i) == IF i > Len(ms) THEN <<>> ELSE Rep(i * Unit, ms[i]) \o FromMults(ms, i + 1)
MinI(a, b) == IF a < b THEN a ELSE b
LeftEnd(q, e)  == IF e = "open" THEN [i \in 1 .. q + 1 |-> (i - q - 1) * Unit] ELSE Rep(0, q + 1)
RightEnd(q, e, hi) == IF e = "clamped" THEN Rep(hi, q + 1) ELSE [i \in 1 .. q + 1 |-> hi + (i - 1) * Unit]
Shapes == UNION { {[p |-> q, ms |-> ms, e |-> e] : ms \in UNION { [1 .. k -> 1 .. MinI(q, MaxMult)] : k \in 0 .. Spans - 1 }, e \in Ends} : q \in MinP .. MaxP }
KnotsOf(sh) == LeftEnd(sh.p, sh.e) \o FromMults(sh.ms, 1) \o RightEnd(sh.p, sh.e, (Len(sh.ms) + 1) * Unit)
PosOf(sh) == {x \in 0 .. (Len(sh.ms) + 1) * Unit : x % Unit \in {0} \cup Offs}
Init == /\ shape \in Shapes
        /\ pos \in PosOf(shape)
Next == FALSE /\ UNCHANGED <<shape, pos>>
\* theorems about spans on every generated vector
Inv == LET U == KnotsOf(shape)
           k == KSpan(shape.p, U, pos)
       IN  /\ WellFormedKnots(shape.p, U)
           /\ U[k] < U[k + 1]
           /\ U[k] <= pos /\ (pos < U[k + 1] \/ pos = DomHi(shape.p, U))
Emit == PrintT(ToJson([tag |-> "SCN", p |-> shape.p, e |-> shape.e, K |-> KnotsOf(shape), u |-> pos, spans |-> Len(shape.ms) + 1]))
=============================================================================
