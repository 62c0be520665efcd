------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The abstract machine of shape-preserving curve operations.              *)
(*                                                                         *)
(* State: the structure of one NURBS curve - degree p, knots K on an       *)
(* integer grid (Unit positions per span), number n of control points -    *)
(* plus what is known about the geometry: rem[x], how many copies of knot  *)
(* x are redundant (were inserted and can be removed), and elev, by how    *)
(* many degrees the curve has been raised.  Control point counts follow    *)
(* each operation's own counting rule, so the law m = n + p + 1 is a       *)
(* theorem checked by TLC (Inv), not a definition.                         *)
(*                                                                         *)
(* The same module generates the operation histories that are replayed on  *)
(* the implementation: every reachable state with Len(hist) = Depth is     *)
(* printed as a scenario.  The structural operators (KInsert, KElevate,    *)
(* KSplitLeft, ...) are the ones the trace specifications judge the        *)
(* implementation's results with.                                          *)
(***************************************************************************)
EXTENDS Knots, FiniteSets, Json, Randomization

CONSTANTS MaxP,      \* degrees 1 .. MaxP for initial shapes
          MinP,
          Spans,     \* at most this many spans initially
          Unit,      \* grid positions per span
          Offs,      \* offsets within a span that are used as parameters
          Depth,     \* length of histories
          CapP,      \* degree never raised above this
          Long,      \* choices among more than this many elements are sampled
          OpSet      \* names of enabled operations

VARIABLES p, K, n, rem, elev, hist, shape,
          want       \* number of spans the initial curve still has to grow to (0: operations may follow; -1: finished)
vars == <<p, K, n, rem, elev, hist, shape, want>>

Lo == K[1]
Hi == K[Len(K)]
GridOf(k) == 0 .. k * Unit

RECURSIVE FromMults(_, _)
FromMults(ms, i) == IF i > Len(ms) THEN <<>> ELSE Rep(i * Unit, ms[i]) \o FromMults(ms, i + 1)

\* a clamped knot vector with interior multiplicities ms at Unit, 2*Unit, ...
ShapeKnots(q, ms) == Rep(0, q + 1) \o FromMults(ms, 1) \o Rep((Len(ms) + 1) * Unit, q + 1)

ShapesUpTo(s) == UNION { {[p |-> q, ms |-> ms] : ms \in UNION { [1 .. k -> 1 .. q] : k \in 0 .. s - 1 }} : q \in MinP .. MaxP }

Init == /\ \E sh \in ShapesUpTo(Spans) : /\ p = sh.p
                              /\ K = ShapeKnots(sh.p, sh.ms)
                              /\ n = Len(ShapeKnots(sh.p, sh.ms)) - sh.p - 1
                              /\ shape = [p |-> sh.p, K |-> ShapeKnots(sh.p, sh.ms)]
        /\ rem = [x \in 0 .. Spans * Unit |-> 0]
        /\ elev = 0
        /\ hist = <<>>
        /\ want = 0

\* curves too long to enumerate: start with one span and append spans one by one (used with TLC's simulation mode)
InitGrow == /\ p \in MinP .. MaxP
            /\ K = ShapeKnots(p, <<>>)
            /\ n = p + 1
            /\ shape = [p |-> p, K |-> K]
            /\ rem = [x \in 0 .. Spans * Unit |-> 0]
            /\ elev = 0
            /\ hist = <<>>
            /\ want \in 2 .. Spans
GrowSpan == \E m \in 1 .. p :
    /\ want > 0
    /\ K' = SubSeq(K, 1, Len(K) - p - 1) \o Rep(K[Len(K)], m) \o Rep(K[Len(K)] + Unit, p + 1)
    /\ n' = n + m
    /\ shape' = [p |-> p, K |-> K']
    /\ want' = IF K[Len(K)] + Unit = want * Unit THEN 0 ELSE want
    /\ UNCHANGED <<p, rem, elev, hist>>

SpansOf == Len(KDistinct(K)) - 1
Interior == {x \in Lo + 1 .. Hi - 1 : TRUE}
\* positions worth distinguishing: knots, and the chosen points within spans
Positions == LET S == {K[i] : i \in 1 .. Len(K)} IN {x \in Interior : x \in S \/ x % Unit \in Offs}
EndPositions == {Lo, Hi}

Log(op) == hist' = Append(hist, op)

\* (long curves have too many pairs: simulation looks at a random few)
Few(S, k) == IF Cardinality(S) <= Long THEN S ELSE RandomSubset(k, S)

InsertKnot(O) == "Insert" \in O /\ \E x \in Few(Positions, 6), t \in 1 .. p :
    /\ KMult(K, x) + t <= p
    /\ K' = KInsert(K, x, t)
    /\ n' = n + t
    /\ rem' = [rem EXCEPT ![x] = @ + t]
    /\ Log([op |-> "InsertKnot", u |-> x, t |-> t])
    /\ UNCHANGED <<p, elev, shape, want>>

\* refine by up to two distinct positions, up to the admissible multiplicity
Refine(O) == "Refine" \in O /\ \E S \in {TLCEval(Few(Positions, 4))} : \E x \in S, y \in S, t \in Few(0 .. p, 3), v \in Few(1 .. p, 3) :
    /\ x < y /\ KMult(K, x) + t <= p /\ KMult(K, y) + v <= p
    /\ K' = KInsertAll(K, Rep(x, t) \o Rep(y, v))
    /\ n' = n + t + v
    /\ rem' = [rem EXCEPT ![x] = @ + t, ![y] = @ + v]
    /\ Log([op |-> "Refine", X |-> Rep(x, t) \o Rep(y, v)])
    /\ UNCHANGED <<p, elev, shape, want>>

RemoveKnot(O) == \E x \in Positions : \E t \in 1 .. rem[x] :
    /\ "Remove" \in O
    /\ K' = KRemove(K, x, t)
    /\ n' = n - t
    /\ rem' = [rem EXCEPT ![x] = @ - t]
    /\ Log([op |-> "RemoveKnot", u |-> x, t |-> t])
    /\ UNCHANGED <<p, elev, shape, want>>

Elevate(O) == \E t \in 1 .. CapP :
    /\ "Elevate" \in O
    /\ p + t <= CapP
    /\ p' = p + t
    /\ K' = KElevate(K, t)
    /\ n' = n + t * SpansOf
    /\ elev' = elev + t
    /\ Log([op |-> "Elevate", t |-> t])
    /\ UNCHANGED <<rem, shape, want>>

Reduce(O) ==
    /\ "Reduce" \in O
    /\ elev > 0 /\ SpansOf = 1
    /\ p' = p - 1
    /\ K' = KElevate(K, -1)
    /\ n' = n - 1
    /\ elev' = elev - 1
    /\ Log([op |-> "Reduce"])
    /\ UNCHANGED <<rem, shape, want>>

Split(O) == "Split" \in O /\ \E x \in Few(Positions, 4), right \in BOOLEAN :
    /\ K' = IF right THEN KSplitRight(p, K, x) ELSE KSplitLeft(p, K, x)
    /\ n' = (IF right THEN Len(SelectSeq(K, LAMBDA y : y > x)) ELSE Len(SelectSeq(K, LAMBDA y : y < x)))
    /\ rem' = [y \in DOMAIN rem |-> IF (right /\ y > x) \/ (~right /\ y < x) THEN rem[y] ELSE 0]
    /\ Log([op |-> "Split", u |-> x, right |-> right])
    /\ UNCHANGED <<p, elev, shape, want>>

\* the part over [x, y] (x, y may be the ends)
Extract(O) == "Extract" \in O /\ \E x \in Few(Positions, 3) \cup {Lo}, y \in Few(Positions, 3) \cup {Hi} :
    /\ x < y /\ (x > Lo \/ y < Hi)
    /\ LET L == IF y < Hi THEN KSplitLeft(p, K, y) ELSE K
           Q == IF x > Lo THEN KSplitRight(p, L, x) ELSE L
       IN  K' = Q
    /\ n' = p + 1 + Len(SelectSeq(K, LAMBDA z : z > x /\ z < y))
    /\ rem' = [z \in DOMAIN rem |-> IF x < z /\ z < y THEN rem[z] ELSE 0]
    /\ Log([op |-> "Extract", lo |-> x, hi |-> y])
    /\ UNCHANGED <<p, elev, shape, want>>

Reverse(O) ==
    /\ "Reverse" \in O
    /\ K' = [i \in 1 .. Len(K) |-> K[1] + K[Len(K)] - K[Len(K) + 1 - i]]
    /\ rem' = [x \in DOMAIN rem |-> IF x \in Lo .. Hi THEN rem[Lo + Hi - x] ELSE 0]
    /\ Log([op |-> "Reverse"])
    /\ UNCHANGED <<p, n, elev, shape, want>>

\* affine reparametrization; the grid keeps naming the same curve points
Reparam(O) == \E w \in {"shift", "double", "unit"} :
    /\ "Reparam" \in O
    /\ Log([op |-> "Reparam", w |-> w])
    /\ UNCHANGED <<p, K, n, rem, elev, shape, want>>

Step(O) == \/ InsertKnot(O) \/ Refine(O) \/ RemoveKnot(O) \/ Elevate(O) \/ Reduce(O)
           \/ Split(O) \/ Extract(O) \/ Reverse(O) \/ Reparam(O)
\* the history is complete
Done == want = 0 /\ Len(hist) = Depth /\ want' = -1 /\ UNCHANGED <<p, K, n, rem, elev, hist, shape>>
Next == \/ GrowSpan
        \/ want = 0 /\ Len(hist) < Depth /\ Step(Few(OpSet, 3))
        \/ Done

---------------------------------------------------------------------------
Inv == /\ p \in 1 .. CapP
       /\ NonDecreasing(K)
       /\ Len(K) = n + p + 1                                    \* the counting law
       /\ n >= p + 1
       /\ KMult(K, Lo) = p + 1 /\ KMult(K, Hi) = p + 1          \* stays clamped
       /\ \A i \in 1 .. Len(K) : K[i] \in {Lo, Hi} \/ KMult(K, K[i]) <= p    \* stays continuous
       /\ \A x \in DOMAIN rem : rem[x] = 0 \/ rem[x] \in 1 .. KMult(K, x)
       /\ Lo < Hi

\* laws that relate operations
Laws == /\ \A x \in Positions : KMult(K, x) < p => KRemove(KInsert(K, x, 1), x, 1) = K
        /\ KElevate(KElevate(K, 1), -1) = K
        /\ \A x \in Positions : /\ Len(KSplitLeft(p, K, x)) + Len(KSplitRight(p, K, x)) = Len(K) + 2 * (p + 1) - KMult(K, x)
                                /\ KSplitLeft(p, K, x)[1] = Lo /\ KSplitRight(p, K, x)[Len(KSplitRight(p, K, x))] = Hi

\* scenarios for replay
Emit == want = -1 => PrintT(ToJson([tag |-> "SCN", shape |-> shape, hist |-> hist, p |-> p, K |-> K]))
=============================================================================
