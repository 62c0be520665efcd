------------------------------ MODULE RatTest ------------------------------
(* The Java overrides of Rat agree with its definitions on a grid of pairs. *)
EXTENDS Rat, Poly, Integers, Sequences, TLC
G == {<<n, d>> : n \in -3 .. 3, d \in {1, 2, 3, 7}}
ASSUME \A a \in G, b \in G :
   /\ REq(RAdd(a, b), QAdd(a, b))
   /\ REq(RSub(a, b), QSub(a, b))
   /\ REq(RMul(a, b), QMul(a, b))
   /\ (b[1] # 0 => REq(RDiv(a, b), QDiv(a, b)))
   /\ RLe(a, b) = QLe(a, b)
   /\ RLt(a, b) = QLt(a, b)
   /\ REq(RAbs(a), IF QLt(a, <<0, 1>>) THEN QSub(<<0, 1>>, a) ELSE a)
   /\ RFloor(a) = a[1] \div a[2]
   /\ REq(RDot(<<a, b>>, <<b, a>>), QAdd(QMul(a, b), QMul(b, a)))
   /\ VNear(VComb(<<a, b>>, <<<<1, a>>, <<b, 2>>>>), <<QAdd(a, QMul(b, b)), QAdd(QMul(a, a), QMul(b, <<2, 1>>))>>, RQ(1, 1000000))
ASSUME REq("0x1.8p+3", 12) /\ REq("-0x1p-2", <<-1, 4>>) /\ REq("7/3", <<7, 3>>)
ASSUME ~RIsFinite("nan") /\ ~RIsFinite("-inf") /\ RIsFinite("0x0p+0")
ASSUME RNear(RMul(RSqrt(2), RSqrt(2)), 2, RQ(1, 1000000000))
ASSUME RNear(RSin(RDiv(RPi, 6)), <<1, 2>>, RQ(1, 1000000000)) /\ RNear(RCos(RPi), -1, RQ(1, 1000000000))
ASSUME \A k \in -8 .. 8 : RNear(RAdd(RMul(RSin(k), RSin(k)), RMul(RCos(k), RCos(k))), 1, RQ(1, 1000000000))
Zig == <<<<0, 0, 0>>, <<2, 0, 0>>, <<2, 3, 1>>, <<2, 3, 1>>, <<0, 1, 4>>>>
ASSUME \A i \in 1 .. 5, a \in -1 .. 3, b \in -1 .. 4, c \in 0 .. 4, t \in {<<0, 1>>, <<1, 4>>, <<1, 1>>, <<2, 1>>, <<9, 1>>} :
    FirstNear(Zig, i, <<a, b, c>>, t) = FirstNearDef(Zig, i, <<a, b, c>>, t)
VARIABLE x
Init == x = 0
Next == x < 1 /\ x' = x + 1
=============================================================================
