-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational numbers.                                                 *)
(*                                                                         *)
(* The bodies below define every operator on pairs <<numerator,            *)
(* denominator>> (an integer n stands for <<n, 1>>).  TLC's integers have 32   *)
(* bits, so for checking they are overridden by java/RatOps.java, which    *)
(* computes the same functions on unbounded integers and additionally      *)
(* accepts the number strings that the conformance driver writes: "n/d"    *)
(* and C hexadecimal floating point ("0x1.8p+3"), which denotes the IEEE   *)
(* double *exactly*.  RatTest.tla checks that definitions and overrides    *)
(* agree on a grid.                                                        *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

QNum(a) == a[1]
QDen(a) == a[2]
QAbs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE QGcd(_, _)
QGcd(a, b) == IF b = 0 THEN a ELSE QGcd(b, a % b)
QNorm(n, d) == LET g == QGcd(QAbs(n), QAbs(d))
                   s == IF d < 0 THEN -1 ELSE 1
               IN  <<s * (n \div g), s * (d \div g)>>
QAdd(a, b) == QNorm(QNum(a) * QDen(b) + QNum(b) * QDen(a), QDen(a) * QDen(b))
QSub(a, b) == QNorm(QNum(a) * QDen(b) - QNum(b) * QDen(a), QDen(a) * QDen(b))
QMul(a, b) == QNorm(QNum(a) * QNum(b), QDen(a) * QDen(b))
QDiv(a, b) == QNorm(QNum(a) * QDen(b), QDen(a) * QNum(b))
QLe(a, b)  == QNum(a) * QDen(b) <= QNum(b) * QDen(a)
QLt(a, b)  == QNum(a) * QDen(b) < QNum(b) * QDen(a)

R(a) == a
RQ(n, d) == QDiv(n, d)
RAdd(a, b) == QAdd(a, b)
RSub(a, b) == QSub(a, b)
RMul(a, b) == QMul(a, b)
RDiv(a, b) == QDiv(a, b)
RNeg(a) == QSub(<<0, 1>>, a)
RAbs(a) == IF QLt(a, <<0, 1>>) THEN QSub(<<0, 1>>, a) ELSE a
RLe(a, b) == QLe(a, b)
RLt(a, b) == QLt(a, b)
REq(a, b) == QLe(a, b) /\ QLe(b, a)
RSgn(a) == IF QLt(a, <<0, 1>>) THEN -1 ELSE IF QLt(<<0, 1>>, a) THEN 1 ELSE 0
RFloor(a) == QNum(a) \div QDen(a)

\* rounding to a multiple of 2^-160: keeps denominators bounded (identity on the pairs above)
RTrim(a) == a
RShow(a) == a
\* number strings: TRUE unless "nan", "inf", "-nan", "-inf"
RIsFinite(a) == TRUE
RAllFinite(s) == TRUE
\* nested sequences of number strings to nested sequences of rationals
RReadAll(s) == s

\* correct to 2^-160 (RSqrt), 40 digits (others); override only
RSqrt(a) == CHOOSE s \in Nat \X Nat : REq(QMul(s, s), a)
RSin(a) == CHOOSE s \in {-1, 0, 1} : TRUE
RCos(a) == CHOOSE s \in {-1, 0, 1} : TRUE
RPi == <<355, 113>>

RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN 0 ELSE RAdd(Head(s), RSum(Tail(s)))
RECURSIVE RDot(_, _)
RDot(s, t) == IF s = <<>> THEN 0 ELSE RAdd(RMul(Head(s), Head(t)), RDot(Tail(s), Tail(t)))

VAdd(a, b) == [i \in 1 .. Len(a) |-> RAdd(a[i], b[i])]
VSub(a, b) == [i \in 1 .. Len(a) |-> RSub(a[i], b[i])]
VScale(k, a) == [i \in 1 .. Len(a) |-> RMul(k, a[i])]
VComb(c, v) == [j \in 1 .. Len(v[1]) |-> RDot(c, [i \in 1 .. Len(v) |-> v[i][j]])]

---------------------------------------------------------------------------
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RNear(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
\* relative-or-absolute closeness
RClose(a, b, tol) == RLe(RAbs(RSub(a, b)), RMul(tol, RMax(1, RMax(RAbs(a), RAbs(b)))))
VNear(a, b, tol) == \A i \in 1 .. Len(a) : RNear(a[i], b[i], tol)
VClose(a, b, tol) == \A i \in 1 .. Len(a) : RClose(a[i], b[i], tol)
VDot(a, b) == RDot(a, b)
VNorm2(a) == RDot(a, a)
VLen(a) == RSqrt(RDot(a, a))
VDist(a, b) == VLen(VSub(a, b))
VCross(a, b) == << RSub(RMul(a[2], b[3]), RMul(a[3], b[2])),
                   RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
                   RSub(RMul(a[1], b[2]), RMul(a[2], b[1])) >>
VNeg(a) == VScale(-1, a)
VZero(n) == [i \in 1 .. n |-> R(0)]
RLerp(a, b, t) == RAdd(a, RMul(t, RSub(b, a)))
VLerp(a, b, t) == VAdd(a, VScale(t, VSub(b, a)))
=============================================================================
