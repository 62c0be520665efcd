--------------------------- MODULE TensorMachine ---------------------------
(***************************************************************************)
(* The abstract machine of shape-preserving operations on tensor-product   *)
(* objects: surfaces (NDim = 2) and volumes (NDim = 3).  Each direction    *)
(* has the structure of a curve (degree p, knots K on an integer grid,     *)
(* number n of control points, removable copies rem, degrees raised elev); *)
(* an operation acts on one direction and leaves the others alone, swap    *)
(* exchanges two.  TLC checks the invariants (counting law per direction,  *)
(* clamped, continuous) and prints complete histories for replay.          *)
(***************************************************************************)
EXTENDS Knots, FiniteSets, Json, Randomization

CONSTANTS NDim, MinP, MaxP, Spans, Unit, Offs, Depth, CapP, Long, OpSet, Caps   \* Caps: most spans per direction

VARIABLES D,       \* sequence of directions
          hist, shape,
          want     \* -1: finished
vars == <<D, hist, shape, want>>
Dirs == 1 .. NDim

RECURSIVE FromMults(_, _)
FromMults(ms, i) == IF i > Len(ms) THEN <<>> ELSE Rep(i * Unit, ms[i]) \o FromMults(ms, i + 1)
ShapeKnots(q, ms) == Rep(0, q + 1) \o FromMults(ms, 1) \o Rep((Len(ms) + 1) * Unit, q + 1)
DirOf(q, ms) == [p |-> q, K |-> ShapeKnots(q, ms), n |-> Len(ShapeKnots(q, ms)) - q - 1, rem |-> [x \in 0 .. Spans * Unit |-> 0], elev |-> 0]
AllDirs == {DirOf(sh.p, sh.ms) : sh \in UNION { {[p |-> q, ms |-> ms] : ms \in UNION { [1 .. k -> 1 .. q] : k \in 0 .. Spans - 1 }} : q \in MinP .. MaxP }}
ShapeOf(T) == [i \in 1 .. Len(T) |-> [p |-> T[i].p, K |-> T[i].K]]

Few(S, k) == IF Cardinality(S) <= Long THEN S ELSE RandomSubset(k, S)

Init == /\ D \in [Dirs -> AllDirs]
        /\ shape = ShapeOf(D) /\ hist = <<>> /\ want = 0

\* random shapes (simulation): start from single spans, then grow each direction
InitGrow == /\ \E q \in [Dirs -> MinP .. MaxP] : D = [i \in Dirs |-> DirOf(q[i], <<>>)]
            /\ shape = ShapeOf(D) /\ hist = <<>> /\ want \in 1 .. NDim * Spans
Grow == /\ want > 0
        /\ want' = want - 1
        /\ UNCHANGED hist
        /\ \E i \in Dirs : \E m \in 1 .. D[i].p :
            LET K == D[i].K
                p == D[i].p
                N == SubSeq(K, 1, Len(K) - p - 1) \o Rep(K[Len(K)], m) \o Rep(K[Len(K)] + Unit, p + 1)
            IN  IF K[Len(K)] >= Caps * Unit THEN UNCHANGED <<D, shape>>
                ELSE /\ D' = [D EXCEPT ![i].K = N, ![i].n = @ + m]
                     /\ shape' = ShapeOf(D')

Lo(K) == K[1]
Hi(K) == K[Len(K)]
Positions(K) == LET S == {K[i] : i \in 1 .. Len(K)} IN {x \in Lo(K) + 1 .. Hi(K) - 1 : x \in S \/ x % Unit \in Offs}
Log(r) == hist' = Append(hist, r) /\ UNCHANGED <<shape, want>>

Insert(i) == \E x \in Few(Positions(D[i].K), 5), t \in 1 .. D[i].p :
    /\ KMult(D[i].K, x) + t <= D[i].p
    /\ D' = [D EXCEPT ![i] = [@ EXCEPT !.K = KInsert(@, x, t), !.n = @ + t, !.rem[x] = @ + t]]
    /\ Log([op |-> "Insert", d |-> i, u |-> x, t |-> t])
Refine(i) == \E S \in {TLCEval(Few(Positions(D[i].K), 4))} : \E x \in S, y \in S, t \in Few(0 .. D[i].p, 3), v \in Few(1 .. D[i].p, 3) :
    /\ x < y /\ KMult(D[i].K, x) + t <= D[i].p /\ KMult(D[i].K, y) + v <= D[i].p
    /\ D' = [D EXCEPT ![i] = [@ EXCEPT !.K = KInsertAll(@, Rep(x, t) \o Rep(y, v)), !.n = @ + t + v, !.rem[x] = @ + t, !.rem[y] = @ + v]]
    /\ Log([op |-> "Refine", d |-> i, X |-> Rep(x, t) \o Rep(y, v)])
Remove(i) == \E x \in Positions(D[i].K) : \E t \in 1 .. D[i].rem[x] :
    /\ D' = [D EXCEPT ![i] = [@ EXCEPT !.K = KRemove(@, x, t), !.n = @ - t, !.rem[x] = @ - t]]
    /\ Log([op |-> "Remove", d |-> i, u |-> x, t |-> t])
Elevate(i) == \E t \in 1 .. CapP :
    /\ D[i].p + t <= CapP
    /\ D' = [D EXCEPT ![i] = [@ EXCEPT !.p = @ + t, !.K = KElevate(@, t), !.n = @ + t * (Len(KDistinct(D[i].K)) - 1), !.elev = @ + t]]
    /\ Log([op |-> "Elevate", d |-> i, t |-> t])
Reduce(i) ==
    /\ D[i].elev > 0 /\ Len(KDistinct(D[i].K)) = 2
    /\ D' = [D EXCEPT ![i] = [@ EXCEPT !.p = @ - 1, !.K = KElevate(@, -1), !.n = @ - 1, !.elev = @ - 1]]
    /\ Log([op |-> "Reduce", d |-> i])
Reverse(i) ==
    LET K == D[i].K IN
    /\ D' = [D EXCEPT ![i] = [@ EXCEPT !.K = [j \in 1 .. Len(K) |-> K[1] + K[Len(K)] - K[Len(K) + 1 - j]],
                                       !.rem = [x \in DOMAIN @ |-> IF x \in Lo(K) .. Hi(K) THEN @[Lo(K) + Hi(K) - x] ELSE 0]]]
    /\ Log([op |-> "Reverse", d |-> i])
Split(i) == \E x \in Few(Positions(D[i].K), 4), right \in BOOLEAN :
    LET K == D[i].K IN
    /\ D' = [D EXCEPT ![i] = [@ EXCEPT !.K = IF right THEN KSplitRight(D[i].p, K, x) ELSE KSplitLeft(D[i].p, K, x),
                                       !.n = IF right THEN Len(SelectSeq(K, LAMBDA y : y > x)) ELSE Len(SelectSeq(K, LAMBDA y : y < x)),
                                       !.rem = [y \in DOMAIN @ |-> IF (right /\ y > x) \/ (~right /\ y < x) THEN @[y] ELSE 0]]]
    /\ Log([op |-> "Split", d |-> i, u |-> x, right |-> right])
Swap(i) == \E j \in Dirs : i # j /\ D' = [D EXCEPT ![i] = D[j], ![j] = D[i]] /\ Log([op |-> "Swap", d |-> i, d2 |-> j])
Reparam(i) == \E w \in {"shift", "double", "unit"} : UNCHANGED D /\ Log([op |-> "Reparam", d |-> i, w |-> w])

Step(O) == \E i \in Dirs :
    \/ ("Insert" \in O /\ Insert(i))
    \/ ("Refine" \in O /\ Refine(i))
    \/ ("Remove" \in O /\ Remove(i))
    \/ ("Elevate" \in O /\ Elevate(i))
    \/ ("Reduce" \in O /\ Reduce(i))
    \/ ("Reverse" \in O /\ Reverse(i))
    \/ ("Split" \in O /\ Split(i))
    \/ ("Swap" \in O /\ Swap(i))
    \/ ("Reparam" \in O /\ Reparam(i))
Done == want = 0 /\ Len(hist) = Depth /\ want' = -1 /\ UNCHANGED <<D, hist, shape>>
Next == Grow \/ (want = 0 /\ Len(hist) < Depth /\ Step(Few(OpSet, 3))) \/ Done

Inv == \A i \in Dirs :
       LET p == D[i].p
           K == D[i].K
       IN  /\ p \in 1 .. CapP
           /\ NonDecreasing(K)
           /\ Len(K) = D[i].n + p + 1
           /\ D[i].n >= p + 1
           /\ KMult(K, Lo(K)) = p + 1 /\ KMult(K, Hi(K)) = p + 1
           /\ \A j \in 1 .. Len(K) : K[j] \in {Lo(K), Hi(K)} \/ KMult(K, K[j]) <= p
           /\ Lo(K) < Hi(K)
Emit == want = -1 => PrintT(ToJson([tag |-> "SCN", shape |-> shape, hist |-> hist, now |-> ShapeOf(D)]))
=============================================================================
