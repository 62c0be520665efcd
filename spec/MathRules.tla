----------------------------- MODULE MathRules -----------------------------
(***************************************************************************)
(* The mathematics below the geometry: vectors and homogeneous points,     *)
(* affine and projective maps, linear algebra, quadrature, the trigonometric*)
(* transforms, lines and planes, and neighbour search. Every answer is     *)
(* judged against its defining equation in exact arithmetic.               *)
(***************************************************************************)
EXTENDS TraceBase

TMath == RQ(1, 1000000000)           \* 1e-9
Bad(e) == {"exception " \o e.x}
NearM(A, B, tol) == \A i \in 1 .. Len(A) : VClose(A[i], B[i], tol)
MatAt(ev, i) == RReadAll(ev[i].r.m)
Row(A, i) == A[i]
Col(A, j) == [i \in 1 .. Len(A) |-> A[i][j]]
MMul(A, B) == LET C == TLCEval([j \in 1 .. Len(B[1]) |-> Col(B, j)]) IN TLCEval([i \in 1 .. Len(A) |-> [j \in 1 .. Len(C) |-> RDot(A[i], C[j])]])
Eye(n) == [i \in 1 .. n |-> [j \in 1 .. n |-> R(IF i = j THEN 1 ELSE 0)]]
MTrans(A) == [j \in 1 .. Len(A[1]) |-> Col(A, j)]
\* determinant by expansion along the first row
RECURSIVE MDet(_)
MDet(A) ==
    IF Len(A) = 1 THEN A[1][1]
    ELSE RSum([j \in 1 .. Len(A) |-> RMul(IF j % 2 = 1 THEN A[1][j] ELSE RNeg(A[1][j]),
            IF REq(A[1][j], 0) THEN 0 ELSE MDet([i \in 1 .. Len(A) - 1 |-> [k \in 1 .. Len(A) - 1 |-> A[i + 1][IF k < j THEN k ELSE k + 1]]]))])
MaxAbs(A) == LET F[i \in 0 .. Len(A)] == IF i = 0 THEN R(1) ELSE LET G[j \in 0 .. Len(A[i])] == IF j = 0 THEN F[i - 1] ELSE RMax(G[j - 1], RAbs(A[i][j])) IN G[Len(A[i])] IN F[Len(A)]
UnitV(a) == LET l == VLen(a) IN [i \in 1 .. Len(a) |-> RTrim(RDiv(a[i], l))]

---------------------------------------------------------------------------
(* Matrices *)
Rodrigues(a, t) ==
    LET n == UnitV(a)
        c == RCos(t)
        s == RSin(t)
        K == << <<0, RNeg(n[3]), n[2]>>, <<n[3], 0, RNeg(n[1])>>, <<RNeg(n[2]), n[1], 0>> >>
    IN  [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> RTrim(RAdd(RMul(IF i = j THEN 1 ELSE 0, c), RAdd(RMul(s, K[i][j]), RMul(RSub(1, c), RMul(n[i], n[j])))))]]
Affine(L, o) == << <<L[1][1], L[1][2], L[1][3], o[1]>>, <<L[2][1], L[2][2], L[2][3], o[2]>>, <<L[3][1], L[3][2], L[3][3], o[3]>>, <<R(0), R(0), R(0), R(1)>> >>
Apply3(L, p) == [i \in 1 .. 3 |-> RDot(L[i], p)]
Zero3 == <<R(0), R(0), R(0)>>
Made(e) ==
    LET a == RReadAll(e.a)
        t == R(e.t)
    IN  CASE e.k = "identity" -> Eye(4)
          [] e.k = "translation" -> Affine(Eye(3), a)
          [] e.k = "scale" -> Affine(<< <<a[1], 0, 0>>, <<0, a[2], 0>>, <<0, 0, a[3]>> >>, Zero3)
          [] e.k = "rotation" -> Affine(Rodrigues(a, t), Zero3)
          [] e.k = "rotationAt" -> LET L == TLCEval(Rodrigues(a, t))
                                       o == RReadAll(e.o)
                                   IN  Affine(L, VSub(o, Apply3(L, o)))
          [] e.k \in {"reflection", "reflectionAt"} ->
                LET n == TLCEval(UnitV(a)) IN
                Affine([i \in 1 .. 3 |-> [j \in 1 .. 3 |-> RSub(IF i = j THEN 1 ELSE 0, RMul(2, RMul(n[i], n[j])))]],
                       IF e.k = "reflection" THEN Zero3 ELSE VScale(RMul(-2, t), n))
          [] e.k \in {"basis", "setters"} -> LET G == RReadAll(e.g) IN Affine([i \in 1 .. 3 |-> [j \in 1 .. 3 |-> G[j][i]]], G[4])
          [] OTHER -> RReadAll(e.g)
JudgeMatMake(e) ==
    IF e.x # "" THEN Bad(e) ELSE IF ~ RAllFinite(e.r.m) THEN {"not finite"}
    ELSE Failing("matrix", NearM(RReadAll(e.r.m), TLCEval(Made(e)), TMath))
JudgeMatMul(ev, e) ==
    LET A == MatAt(ev, e.a)
        B == MatAt(ev, e.b)
        P == MMul(A, B)
        S(f) == [i \in 1 .. 4 |-> [j \in 1 .. 4 |-> f[i][j]]]
    IN  IF e.x # "" THEN Bad(e)
        ELSE Failing("product", NearM(RReadAll(e.r.m), P, TMath) /\ NearM(RReadAll(e.r.op), P, TMath))
             \cup Failing("sum", NearM(RReadAll(e.r.add), [i \in 1 .. 4 |-> VAdd(A[i], B[i])], TMath))
             \cup Failing("difference", NearM(RReadAll(e.r.sub), [i \in 1 .. 4 |-> VSub(A[i], B[i])], TMath))
             \cup Failing("operands kept", e.r.same = ev[e.a].r.m /\ e.r.same2 = ev[e.b].r.m)
\* sing: the matrix is singular (exactly); otherwise it is well conditioned
JudgeMatInv(ev, e) ==
    LET A == MatAt(ev, e.a)
        d == MDet(A)
    IN  IF e.x # "" THEN Bad(e)
        ELSE IF REq(d, 0) THEN Failing("singular matrix has no inverse", ~ e.r.ok)
        ELSE IF ~ e.r.ok THEN {"inverse not found"}
        ELSE IF ~ RAllFinite(e.r.m) THEN {"not finite"}
        ELSE Failing("inverse", NearM(MMul(A, RReadAll(e.r.m)), Eye(4), RQ(1, 10000000)) /\ NearM(MMul(RReadAll(e.r.m), A), Eye(4), RQ(1, 10000000)))
JudgeMatT(ev, e) == IF e.x # "" THEN Bad(e) ELSE Failing("transpose", NearM(RReadAll(e.r.m), MTrans(MatAt(ev, e.a)), 0))
\* far: no entry is closer than the library's tolerance to being almost, but not quite, what it should be
JudgeMatAsk(ev, e) ==
    LET A == MatAt(ev, e.a)
        d == MDet(A)
        L == [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> A[i][j]]]
        V == MDet(L)
        Is(B, J) == \A i \in 1 .. 4 : \A j \in J : RNear(A[i][j], B[i][j], RQ(1, 10000000))
        IsNot(B, J) == \E i \in 1 .. 4 : \E j \in J : ~ RNear(A[i][j], B[i][j], RQ(1, 10000))
        Lower == \A j \in 1 .. 4 : REq(A[4][j], IF j = 4 THEN 1 ELSE 0)
    IN  IF e.x # "" THEN Bad(e)
        ELSE Failing("determinant", RNear(R(e.r.det), d, RMul(TMath, RMax(1, RMul(RMul(MaxAbs(A), MaxAbs(A)), RMul(MaxAbs(A), MaxAbs(A)))))))
             \cup Failing("scale", VClose(RReadAll(e.r.scale), [j \in 1 .. 3 |-> VLen([i \in 1 .. 3 |-> A[i][j]])], TMath))
             \cup Failing("basis vectors", \A j \in 1 .. 4 : VClose(RReadAll(e.r.basis[j]), [i \in 1 .. 3 |-> A[i][j]], 0))
             \cup Failing("identity recognized", Is(Eye(4), 1 .. 4) => e.r.ident)
             \cup Failing("only the identity recognized", IsNot(Eye(4), 1 .. 4) => ~ e.r.ident)
             \cup Failing("translation recognized", Is(Eye(4), 1 .. 3) /\ Lower => e.r.trans)
             \cup Failing("only translations recognized", IsNot(Eye(4), 1 .. 3) \/ ~ RNear(A[4][4], 1, RQ(1, 10000)) => ~ e.r.trans)
             \cup Failing("reflection", (RLt(V, RQ(-1, 1000)) => e.r.refl) /\ (RLt(RQ(-1, 100000000), V) => ~ e.r.refl))
JudgeMatApply(ev, e) ==
    LET A == MatAt(ev, e.a)
        q == RReadAll(e.q)
        H == [i \in 1 .. 4 |-> RDot(A[i], <<q[1], q[2], q[3], R(1)>>)]
        w == R(e.w)
        X == IF REq(H[4], 0) THEN Zero3 ELSE [i \in 1 .. 3 |-> RDiv(H[i], H[4])]
    IN  IF e.x # "" THEN Bad(e)
        ELSE IF REq(H[4], 0) THEN {}
        ELSE Failing("image of the point", RAllFinite(e.r.p) /\ VClose(RReadAll(e.r.p), X, TMath))
             \cup Failing("image of the vector", VClose(RReadAll(e.r.v), [i \in 1 .. 3 |-> RDot([j \in 1 .. 3 |-> A[i][j]], q)], TMath))
             \cup Failing("image of the weighted point", RAllFinite(e.r.h) /\ VClose(RReadAll(e.r.h), <<RMul(X[1], w), RMul(X[2], w), RMul(X[3], w), w>>, TMath))

---------------------------------------------------------------------------
(* Vectors *)
Take(a, n) == [i \in 1 .. n |-> a[i]]
Zer(a) == \A i \in 1 .. Len(a) : REq(a[i], 0)
AlmostEqual(a, b) == \A i \in 1 .. Len(a) : RLe(RAbs(RSub(a[i], b[i])), RMul(RQ(1, 10000000), RAdd(1, RMax(RAbs(a[i]), RAbs(b[i])))))
Different(a, b) == \E i \in 1 .. Len(a) : RLt(RMul(RQ(1, 100000), RAdd(1, RMax(RAbs(a[i]), RAbs(b[i])))), RAbs(RSub(a[i], b[i])))
Alike(t, names, v) == \A n \in names : VClose(RReadAll(t[n]), v, TMath)
AlikeN(t, names, v) == \A n \in names : RClose(R(t[n]), v, TMath)
\* products of large vectors may cancel, so their error is measured against the lengths
TProd(a, b) == RMul(TMath, RMax(1, RMul(VLen(a), VLen(b))))
AlikeP(t, names, v, tol) == \A n \in names : RAllFinite(t[n]) /\ \A i \in 1 .. Len(v) : RNear(R(t[n][i]), v[i], tol)
AlikePN(t, names, v, tol) == \A n \in names : RIsFinite(t[n]) /\ RNear(R(t[n]), v, tol)
\* common to 2 and 3 dimensions
JudgeVecIn(t, a, b, k, cross) ==
       Failing("sum", Alike(t, {"add", "add2", "iadd"}, VAdd(a, b)))
  \cup Failing("difference", Alike(t, {"sub", "sub2", "isub"}, VSub(a, b)))
  \cup Failing("negative", Alike(t, {"neg", "neg2"}, VNeg(a)))
  \cup Failing("dot product", AlikePN(t, {"dot", "dot2"}, VDot(a, b), TProd(a, b)))
  \cup Failing("multiple", Alike(t, {"mul", "mul2", "imul"}, VScale(k, a)))
  \cup Failing("quotient", Alike(t, {"div", "idiv"}, [i \in 1 .. Len(a) |-> RDiv(a[i], k)]))
  \cup Failing("length", AlikeN(t, {"len"}, VLen(a)) /\ AlikeN(t, {"sqr"}, VNorm2(a)) /\ AlikeN(t, {"dist"}, VDist(a, b)))
  \cup Failing("normalized", IF Zer(a) THEN Alike(t, {"norm"}, a) ELSE Alike(t, {"norm"}, UnitV(a)) /\ t.unit)
  \cup Failing("unit", (RLt(RQ(1, 1000), RAbs(RSub(VLen(a), 1))) => ~ t.punit) /\ (REq(VNorm2(a), 1) => t.punit))
  \cup Failing("zero", (Zer(a) => t.zero) /\ (RLt(RQ(1, 100000), VLen(a)) => ~ t.zero))
  \cup Failing("almost equal", t.eqself /\ (AlmostEqual(a, b) => t.eq) /\ (Different(a, b) => ~ t.eq))
  \cup Failing("coordinates", Alike(t, {"set", "idx", "same"}, a))
  \cup cross
\* the predicates with a tolerance of the caller's: clear cases
ZeroOK(ans, a, k) == (RLe(RMul(2, VLen(a)), k) => ans) /\ (RLt(RMul(2, k), VLen(a)) => ~ ans)
UnitOK(ans, a, k) == (RLe(RMul(2, RAbs(RSub(VNorm2(a), 1))), RMul(k, k)) => ans) /\ (RLt(RMul(2, k), RAbs(RSub(VLen(a), 1))) => ~ ans)
EqualOK(ans, a, b, k) == ((\A i \in 1 .. Len(a) : RLe(RMul(2, RAbs(RSub(a[i], b[i]))), k)) => ans)
                         /\ ((\E i \in 1 .. Len(a) : RLt(RMul(2, RMul(k, RAdd(1, RMax(RAbs(a[i]), RAbs(b[i]))))), RAbs(RSub(a[i], b[i])))) => ~ ans)
JudgeVecTol(e) ==
    LET a == RReadAll(e.a)
        b == RReadAll(e.b)
        k == R(e.eps)
        r == e.r
    IN  IF e.x # "" THEN Bad(e)
        ELSE Failing("zero within the tolerance given", ZeroOK(r.zero, Take(a, 3), k) /\ ZeroOK(r.zero2, Take(a, 2), k))
        \cup Failing("unit within the tolerance given", UnitOK(r.unit, Take(a, 3), k) /\ UnitOK(r.unit2, Take(a, 2), k))
        \cup Failing("equal within the tolerance given", EqualOK(r.eq, Take(a, 3), Take(b, 3), k) /\ EqualOK(r.eq2, Take(a, 2), Take(b, 2), k))
JudgeVec(e) ==
    LET a == RReadAll(e.a)
        b == RReadAll(e.b)
        k == R(e.k)
        r == e.r
        c3 == VCross(a, b)
        ang == R(r.xyz.angle)
        h == Take(a, 3)
        P3 == [i \in 1 .. 3 |-> RDiv(a[i], a[4])]
        Q3 == [i \in 1 .. 3 |-> RDiv(b[i], b[4])]
    IN  IF e.x # "" THEN Bad(e)
        ELSE JudgeVecIn(r.xyz, Take(a, 3), Take(b, 3), k, Failing("cross product", AlikeP(r.xyz, {"cross", "cross2"}, c3, TProd(Take(a, 3), Take(b, 3)))))
             \cup JudgeVecIn(r.uv, Take(a, 2), Take(b, 2), k, Failing("cross product", AlikePN(r.uv, {"cross", "cross2"}, c3[3], TProd(Take(a, 2), Take(b, 2)))))
             \cup Failing("angle", RIsFinite(r.xyz.angle) /\ RLe(0, ang) /\ RLe(ang, RAdd(RPi, TMath)) /\
                    (IF Zer(Take(a, 3)) \/ Zer(Take(b, 3)) THEN REq(ang, 0)
                     ELSE RNear(RCos(ang), RDiv(VDot(Take(a, 3), Take(b, 3)), RMul(VLen(Take(a, 3)), VLen(Take(b, 3)))), TMath)))
             \cup Failing("parameter triples", Alike(r.uvw, {"get", "set", "idx"}, h))
             \cup Failing("homogeneous sum", Alike(r.xyzw, {"add", "iadd"}, VAdd(a, b)) /\ Alike(r.xyzw, {"sub"}, VSub(a, b)))
             \cup Failing("homogeneous multiple", Alike(r.xyzw, {"mul", "mul2"}, VScale(k, a)) /\ Alike(r.xyzw, {"div"}, [i \in 1 .. 4 |-> RDiv(a[i], k)]))
             \cup Failing("homogeneous distance", AlikeN(r.xyzw, {"dist"}, VDist(a, b)))
             \cup Failing("projection", Alike(r.xyzw, {"point"}, P3) /\ Alike(r.xyzw, {"raw"}, h))
             \cup Failing("weight changed, point kept", Alike(r.xyzw, {"setw"}, <<RMul(P3[1], k), RMul(P3[2], k), RMul(P3[3], k), k>>))
             \cup Failing("weighted point", Alike(r.xyzw, {"of"}, <<RMul(a[1], a[4]), RMul(a[2], a[4]), RMul(a[3], a[4]), a[4]>>) /\ Alike(r.xyzw, {"idx"}, a))
             \cup Failing("same projected point", r.xyzw.eqscaled /\ (AlmostEqual(P3, Q3) => r.xyzw.eq) /\ (Different(P3, Q3) => ~ r.xyzw.eq))
JudgeOrth(e) ==
    LET a == RReadAll(e.a) IN
    IF e.x # "" THEN Bad(e)
    ELSE Failing("unit vector at a right angle", \A i \in 1 .. Len(e.r.l) : RAllFinite(e.r.l[i]) /\ LET o == RReadAll(e.r.l[i]) IN
            RNear(VDot(o, UnitV(a)), 0, TMath) /\ RNear(VNorm2(o), 1, TMath))

---------------------------------------------------------------------------
(* Numbers and linear algebra *)
JudgeCompare(e) ==
    LET a == R(e.a)
        b == R(e.b)
        tol == RMul(R(e.t), RAdd(1, RMax(RAbs(a), RAbs(b))))
        d == RSub(a, b)
        \* clear of the boundary, where rounding decides
        Clear == RLt(RMul(RQ(1, 1000000), tol), RAbs(RSub(RAbs(d), tol)))
        E == RLe(RAbs(d), tol)
    IN  IF e.x # "" THEN Bad(e)
        ELSE IF ~ (RIsFinite(e.a) /\ RIsFinite(e.b)) THEN
            Failing("not a number", (e.a = "nan" \/ e.b = "nan") => ~ e.r.eq /\ ~ e.r.gt /\ ~ e.r.ge /\ ~ e.r.lt /\ ~ e.r.le)
            \cup Failing("infinite", (e.r.inf <=> e.a \in {"inf", "-inf"}) /\ (e.r.nan <=> e.a = "nan"))
            \cup Failing("equal infinities", e.a \in {"inf", "-inf"} \/ e.b \in {"inf", "-inf"} => (e.r.eq <=> e.a = e.b))
        ELSE IF ~ Clear THEN {}
        ELSE Failing("almost equal", e.r.eq <=> E)
             \cup Failing("greater", (e.r.gt <=> ~ E /\ RLt(b, a)) /\ (e.r.ge <=> E \/ RLt(b, a)))
             \cup Failing("less", (e.r.lt <=> ~ E /\ RLt(a, b)) /\ (e.r.le <=> E \/ RLt(a, b)))
             \cup Failing("finite", ~ e.r.inf /\ ~ e.r.nan)
RECURSIVE RFact(_)
RFact(n) == IF n <= 1 THEN R(1) ELSE RMul(n, RFact(n - 1))
JudgeNumbers(e) ==
    LET n == e.n
        f == TLCEval([i \in 0 .. n |-> RFact(i)])
    IN  IF e.x # "" THEN Bad(e)
        ELSE Failing("binomial coefficients", \A j \in 1 .. n + 3 : LET i == j - 2 IN
                 RClose(R(e.r.binom[j]), IF i < 0 \/ i > n THEN 0 ELSE RDiv(f[n], RMul(f[i], f[n - i])), RQ(1, 1000000) ))
             \cup Failing("factorial", n <= 20 => REq(R(e.r.fact), f[n]) \/ (n > 18 /\ RClose(R(e.r.fact), f[n], TMath)))
             \cup Failing("angle units", RClose(R(e.r.deg), RDiv(RMul(R(e.t), 180), RPi), TMath) /\ RClose(R(e.r.rad), RDiv(RMul(R(e.t), RPi), 180), TMath))
JudgeCubic(e) ==
    LET c == RReadAll(e.a)
        t == R(e.r.t)
        v == RAdd(RMul(RAdd(RMul(RAdd(RMul(c[1], t), c[2]), t), c[3]), t), c[4])
        d == RAdd(RMul(RAdd(RMul(3, RMul(c[1], t)), RMul(2, c[2])), t), c[3])
    IN  IF e.x # "" THEN Bad(e) ELSE IF ~ RIsFinite(e.r.t) THEN {"not finite"}
        ELSE Failing("root", RLe(RAbs(v), RMul(RQ(3, 1000000), RMax(1, RAbs(d)))))
JudgeLinMul(e) ==
    LET A == RReadAll(e.a)
        B == RReadAll(e.b)
    IN  IF e.x # "" THEN Bad(e)
        ELSE Failing("product", Len(e.r.m) = Len(A) /\ (\A i \in 1 .. Len(A) : Len(e.r.m[i]) = Len(B[1])) /\ NearM(RReadAll(e.r.m), MMul(A, B), TMath))
             \cup Failing("transpose", Len(e.r.t) = Len(A[1]) /\ (\A i \in 1 .. Len(A[1]) : Len(e.r.t[i]) = Len(A)) /\ NearM(RReadAll(e.r.t), MTrans(A), 0))
             \cup Failing("column", VClose(RReadAll(e.r.col), Col(A, Len(A[1])), 0))
             \cup Failing("zero and unit matrix", NearM(RReadAll(e.r.one), Eye(Len(A)), 0) /\ Len(e.r.zero) = Len(A)
                          /\ \A i \in 1 .. Len(A) : Len(e.r.zero[i]) = Len(B[1]) /\ \A j \in 1 .. Len(B[1]) : REq(R(e.r.zero[i][j]), 0))
\* grids of homogeneous points: products with a matrix from either side, projection, and weights of one
JudgeCtrlGrid(e) ==
    LET P == [i \in 1 .. Len(e.P) |-> [j \in 1 .. Len(e.P[i]) |-> RReadAll(e.P[i][j])]]
        n == Len(P)
        m == Len(P[1])
        A == RReadAll(e.a)
        B == RReadAll(e.b)
        Layer(k) == [i \in 1 .. n |-> [j \in 1 .. m |-> P[i][j][k]]]
        Got(g, k) == [i \in 1 .. Len(g) |-> [j \in 1 .. Len(g[i]) |-> R(g[i][j][k])]]
        Sized(g, r, c) == Len(g) = r /\ \A i \in 1 .. r : Len(g[i]) = c
    IN  IF e.x # "" THEN Bad(e)
        ELSE Failing("grid times matrix", Sized(e.r.pb, n, Len(B[1])) /\ \A k \in 1 .. 4 : NearM(Got(e.r.pb, k), TLCEval(MMul(Layer(k), B)), TMath))
             \cup Failing("matrix times grid", Sized(e.r.ap, Len(A), m) /\ \A k \in 1 .. 4 : NearM(Got(e.r.ap, k), TLCEval(MMul(A, Layer(k))), TMath))
             \cup Failing("projected", Sized(e.r.q, n, m) /\ \A k \in 1 .. 3 : NearM(Got(e.r.q, k), [i \in 1 .. n |-> [j \in 1 .. m |-> RDiv(P[i][j][k], P[i][j][4])]], TMath))
             \cup Failing("projected row", Len(e.r.row) = m /\ \A j \in 1 .. m : \A k \in 1 .. 3 : RClose(R(e.r.row[j][k]), RDiv(P[1][j][k], P[1][j][4]), TMath))
             \cup Failing("weights of one", Sized(e.r.h, n, m) /\ NearM(Got(e.r.h, 4), [i \in 1 .. n |-> [j \in 1 .. m |-> 1]], 0)
                          /\ \A k \in 1 .. 3 : NearM(Got(e.r.h, k), Got(e.r.q, k), 0))
\* square: the solution; more rows than columns: the least squares solution (normal equations)
JudgeLinSolve(e) ==
    LET A == RReadAll(e.a)
        B == RReadAll(e.b)
        X == RReadAll(e.r.m)
        n == Len(A)
        m == Len(A[1])
        k == RMul(MaxAbs(A), MaxAbs(X))
        tol == RMul(RQ(1, 100000000), RMax(k, MaxAbs(B)))
        Res == [i \in 1 .. n |-> VSub(MMul(A, X)[i], B[i])]
        Zeros(M, t) == \A i \in 1 .. Len(M) : \A j \in 1 .. Len(M[i]) : RLe(RAbs(M[i][j]), t)
    IN  IF e.x # "" THEN Bad(e)
        ELSE IF n # m THEN
            IF ~ RAllFinite(e.r.m) THEN {"not finite"}
            ELSE Failing("least squares", Zeros(MMul(MTrans(A), TLCEval(Res)), RMul(tol, MaxAbs(A))))
        ELSE LET d == MDet(A) IN
             Failing("determinant", RNear(R(e.r.det), d, RMul(TMath, RMax(1, RMul(n, LET F[i \in 0 .. n] == IF i = 0 THEN R(1) ELSE RMul(F[i - 1], VLen(A[i])) IN F[n])))))
             \cup (IF REq(d, 0) THEN Failing("singular matrix has no inverse", ~ e.r.ok)
                   ELSE (IF ~ e.r.ok THEN {"inverse not found"} ELSE
                         Failing("inverse", RAllFinite(e.r.inv) /\ NearM(MMul(A, RReadAll(e.r.inv)), Eye(n), RQ(1, 1000000))))
                        \cup (IF ~ RAllFinite(e.r.m) THEN {"not finite"} ELSE Failing("solution", Zeros(TLCEval(Res), tol))))
\* row i holds the entries i - bw div 2 ... of the full matrix
JudgeLinBand(e) ==
    LET A == RReadAll(e.a)
        B == RReadAll(e.b)
        n == Len(A)
        s == e.bw \div 2
        F == TLCEval([i \in 1 .. n |-> [j \in 1 .. n |-> LET k == j - i + s + 1 IN IF k \in 1 .. e.bw THEN A[i][k] ELSE R(0)]])
        X == RReadAll(e.r.m)
        P == MMul(F, X)
    IN  IF e.x # "" THEN Bad(e) ELSE IF ~ e.r.ok THEN {"no solution"} ELSE IF ~ RAllFinite(e.r.m) THEN {"not finite"}
        ELSE Failing("solution", \A i \in 1 .. n : VNear(P[i], B[i], RMul(RQ(1, 100000000), RMax(RMul(MaxAbs(A), MaxAbs(X)), MaxAbs(B)))))

---------------------------------------------------------------------------
(* Quadrature of polynomials and trigonometric transforms *)
RECURSIVE RPow(_, _)
RPow(a, n) == IF n = 0 THEN R(1) ELSE RMul(a, RPow(a, n - 1))
PolyInt(c, a, b) == RSum([i \in 1 .. Len(c) |-> RMul(c[i], RDiv(RSub(RPow(b, i), RPow(a, i)), i))])
AbsInt(c, a, b) == LET m == RMax(1, RMax(RAbs(a), RAbs(b))) IN RMul(RMax(RAbs(RSub(b, a)), RQ(1, 1000)), RSum([i \in 1 .. Len(c) |-> RMul(RAbs(c[i]), RPow(m, i - 1))]))
JudgeQuad1(e) ==
    LET c == RReadAll(e.a)
        a == R(e.lo)
        b == R(e.hi)
        I == PolyInt(c, a, b)
        sz == AbsInt(c, a, b)
        Is(v, tol) == RIsFinite(v) /\ RNear(R(v), I, RMul(tol, sz))
    IN  IF e.x # "" THEN Bad(e)
        ELSE Failing("Simpson is exact up to degree 3", Len(c) <= 4 => Is(e.r.simpson, TMath))
             \cup Failing("Gauss-Legendre", Is(e.r.gl, TMath))
             \cup Failing("Clenshaw-Curtis", Is(e.r.cc, RQ(1, 100000)) /\ Is(e.r.cc2, RQ(1, 100000)))
             \cup Failing("Clenshaw-Curtis on a copy", Is(e.r.ccv, RQ(1, 100000)))
JudgeQuad2(e) ==
    LET c == RReadAll(e.a)
        q == RReadAll(e.box)
        In == TLCEval([i \in 1 .. Len(c) |-> PolyInt(c[i], q[3], q[4])])
        I == PolyInt(In, q[1], q[2])
        sz == AbsInt([i \in 1 .. Len(c) |-> AbsInt(c[i], q[3], q[4])], q[1], q[2])
    IN  IF e.x # "" THEN Bad(e)
        ELSE Failing("Simpson is exact up to degree 3", RIsFinite(e.r.simpson) /\ RNear(R(e.r.simpson), I, RMul(TMath, sz)))
\* x(j): data (0-based); the definitions in FFT.h
JudgeFFT(e) ==
    LET n == e.n
        a == RReadAll(e.a)
        D(j) == a[j + 1]
        \* cosines and sines of multiples of pi / (2n)
        C == TLCEval([k \in 0 .. 4 * n - 1 |-> RCos(RDiv(RMul(RPi, k), 2 * n))])
        S == TLCEval([k \in 0 .. 4 * n - 1 |-> RSin(RDiv(RMul(RPi, k), 2 * n))])
        Cos(k) == C[k % (4 * n)]          \* of k pi / (2n)
        Sin(k) == S[k % (4 * n)]
        Sum(f, lo, hi) == RSum([j \in 1 .. hi - lo + 1 |-> f[lo + j - 1]])
        \* expected data at index k
        X(k) ==
          CASE e.k = "cdft" ->
                 LET m == k \div 2 IN
                 IF k % 2 = 0 THEN RSum([j \in 1 .. n |-> RSub(RMul(D(2 * (j - 1)), Cos(4 * (j - 1) * m)), RMul(e.s, RMul(D(2 * (j - 1) + 1), Sin(4 * (j - 1) * m))))])
                 ELSE RSum([j \in 1 .. n |-> RAdd(RMul(D(2 * (j - 1) + 1), Cos(4 * (j - 1) * m)), RMul(e.s, RMul(D(2 * (j - 1)), Sin(4 * (j - 1) * m))))])
            [] e.k = "rdft" /\ e.s = 1 ->
                 IF k = 1 THEN RSum([j \in 1 .. n |-> RMul(D(j - 1), Cos(4 * (j - 1) * (n \div 2)))])
                 ELSE IF k % 2 = 0 THEN RSum([j \in 1 .. n |-> RMul(D(j - 1), Cos(4 * (j - 1) * (k \div 2)))])
                 ELSE RSum([j \in 1 .. n |-> RMul(D(j - 1), Sin(4 * (j - 1) * (k \div 2)))])
            [] e.k = "rdft" ->
                 RAdd(RDiv(D(0), 2), RAdd(RMul(RDiv(D(1), 2), Cos(4 * (n \div 2) * k)),
                    RSum([j \in 1 .. n \div 2 - 1 |-> RAdd(RMul(D(2 * j), Cos(4 * j * k)), RMul(D(2 * j + 1), Sin(4 * j * k)))])))
            [] e.k = "ddct" /\ e.s = 1 -> RSum([j \in 1 .. n |-> RMul(D(j - 1), Cos((j - 1) * (2 * k + 1)))])
            [] e.k = "ddct" -> RSum([j \in 1 .. n |-> RMul(D(j - 1), Cos((2 * (j - 1) + 1) * k))])
            [] e.k = "ddst" /\ e.s = 1 -> RAdd(RMul(D(0), Sin(n * (2 * k + 1))), RSum([j \in 1 .. n - 1 |-> RMul(D(j), Sin(j * (2 * k + 1)))]))
            [] e.k = "ddst" -> LET m == IF k = 0 THEN n ELSE k IN RSum([j \in 1 .. n |-> RMul(D(j - 1), Sin((2 * (j - 1) + 1) * m))])
            [] e.k = "dfct" -> RSum([j \in 1 .. n + 1 |-> RMul(D(j - 1), Cos(2 * (j - 1) * k))])
            [] e.k = "dfst" -> RSum([j \in 1 .. n - 1 |-> RMul(D(j), Sin(2 * j * k))])
        sz == RMax(1, RSum([i \in 1 .. Len(a) |-> RAbs(a[i])]))
        lo == IF e.k = "dfst" THEN 1 ELSE 0
    IN  IF e.x # "" THEN Bad(e) ELSE IF ~ RAllFinite(SubSeq(e.r.a, 1 + lo, Len(a))) THEN {"not finite"}
        ELSE Failing("transform", \A k \in lo .. Len(a) - 1 : RNear(R(e.r.a[k + 1]), X(k), RMul(TMath, sz)))

---------------------------------------------------------------------------
(* Lines and planes *)
TPos == RQ(1, 1000000)               \* 1e-6
Parallel3(a, b) == Zer(VCross(a, b))
JudgeRays(e) ==
    LET p0 == RReadAll(e.p0)
        v0 == RReadAll(e.v0)
        p1 == RReadAll(e.p1)
        v1 == RReadAll(e.v1)
        d == VSub(p1, p0)
        n == VCross(v0, v1)
        par == Zer(n)
        gap == IF par THEN R(0) ELSE RDiv(RAbs(VDot(d, n)), VLen(n))      \* distance of the lines
        A0 == VAdd(p0, VScale(R(e.r.t0), v0))
        A1 == VAdd(p1, VScale(R(e.r.t1), v1))
        sz == RMax(1, RMax(VLen(p0), RMax(VLen(p1), VLen(A0))))
        tol == RMul(TPos, sz)
    IN  IF Zer(v0) \/ Zer(v1) THEN Failing("zero direction rejected", e.x # "" \/ (p0 = p1 /\ Zer(v0) /\ Zer(v1)))
        ELSE IF e.x # "" THEN Bad(e)
        ELSE IF par THEN
             IF ~ Zer(VCross(d, v0)) THEN Failing("parallel lines", e.r.k = "Parallel")
             ELSE Failing("coinciding lines", e.r.k \in {"Coincident", "Intersecting"} /\ VNear(A0, RReadAll(e.r.p), tol) /\ (e.r.k = "Intersecting" => VNear(A0, A1, tol)))
        ELSE IF REq(VDot(d, n), 0) THEN
             Failing("crossing lines", e.r.k = "Intersecting")
             \cup Failing("common point", RAllFinite(e.r.p) /\ VNear(A0, A1, tol) /\ VNear(A0, RReadAll(e.r.p), tol))
        ELSE IF RLt(RQ(1, 1000), gap) THEN
             Failing("skew lines", e.r.k = "Skew")
             \cup Failing("nearest points", RAllFinite(e.r.p) /\ RNear(VDot(VSub(A1, A0), UnitV(v0)), 0, tol) /\ RNear(VDot(VSub(A1, A0), UnitV(v1)), 0, tol) /\ VNear(A0, RReadAll(e.r.p), tol))
        ELSE {}
JudgeLinePlane(e) ==
    LET n == RReadAll(e.n)
        o == RReadAll(e.o)
        q == RReadAll(e.q)
        d == RReadAll(e.d)
        P == RReadAll(e.r.p)
        den == VDot(d, n)
        X == VAdd(q, VScale(IF REq(den, 0) THEN 0 ELSE RDiv(VDot(VSub(o, q), n), den), d))
    IN  IF e.x # "" THEN Bad(e)
        ELSE IF ~ REq(den, 0) THEN Failing("point of line and plane", e.r.k = "Intersecting" /\ RAllFinite(e.r.p) /\ VNear(P, X, RMul(TPos, RMax(1, VLen(X)))))
        ELSE IF REq(VDot(VSub(o, q), n), 0) THEN Failing("line in the plane", e.r.k = "On" /\ VNear(P, q, TPos))
        ELSE Failing("line parallel to the plane", e.r.k = "Parallel")
JudgeProject(e) ==
    LET a == RReadAll(e.a)
        b == RReadAll(e.b)
        q == RReadAll(e.q)
        d == VSub(b, a)
        t == RDiv(VDot(VSub(q, a), d), VNorm2(d))
        X == VAdd(a, VScale(t, d))
        tol == RMul(TPos, RMax(1, VLen(X)))
    IN  IF e.x # "" THEN Bad(e)
        ELSE Failing("foot on the line", RAllFinite(e.r.ray) /\ VNear(RReadAll(e.r.ray), X, tol))
             \cup Failing("foot inside the segment", RLe(0, t) /\ RLe(t, 1) => e.r.ok /\ RAllFinite(e.r.p) /\ VNear(RReadAll(e.r.p), X, tol))
             \cup Failing("no foot outside the segment", RLt(t, RQ(-1, 1000)) \/ RLt(RQ(1001, 1000), t) => ~ e.r.ok)
\* sphere of radius t about (0, 0, t), projected from its top onto z = 0
JudgeStereo(e) ==
    LET q == RReadAll(e.q)
        t == R(e.t)
        N == <<R(0), R(0), RMul(2, t)>>
        P == RReadAll(e.r.p)
        \* P lies on the line from N through q
        c == VCross(VSub(P, N), VSub(q, N))
    IN  IF e.x # "" THEN Bad(e)
        ELSE Failing("projected onto the plane", RAllFinite(e.r.p) /\ REq(P[3], 0) /\ VNear(c, Zero3, RMul(TPos, RMax(1, RMul(VLen(VSub(P, N)), VLen(VSub(q, N)))))))

---------------------------------------------------------------------------
(* Neighbour search *)
JudgeOctree(e) ==
    LET P == RReadAll(e.P)
        Q == RReadAll(e.Q)
        Rs == RReadAll(e.R)
        n == Len(P)
        D2 == TLCEval([q \in 1 .. Len(Q) |-> [i \in 1 .. n |-> VNorm2(VSub(P[i], Q[q]))]])
        \* number of points nearer than x (x not negative)
        Within(q, x) == Cardinality({i \in 1 .. n : RLe(D2[q][i], RMul(x, x))})
        eps == RQ(1, 100000)
        In(q, k, c) == Within(q, RMax(0, RSub(Rs[k], eps))) <= c /\ c <= Within(q, RAdd(Rs[k], eps))
    IN  IF e.x # "" THEN Bad(e)
        ELSE Failing("every point in exactly one leaf", \A i \in 1 .. n : e.r.seen[i] = 1)
             \cup Failing("children share out their parent's points", e.r.parts)
             \cup Failing("points within the radius", \A q \in 1 .. Len(Q), k \in 1 .. Len(Rs) : In(q, k, e.r.rad[q][k]))
             \cup Failing("points within the radius, fast search", \A q \in 1 .. Len(Q), k \in 1 .. Len(Rs) : In(q, k, e.r.radf[q][k]))
             \cup Failing("nearest points", \A q \in 1 .. Len(Q), k \in 1 .. Len(e.K) :
                    LET w == R(e.r.knn[q][k]) IN
                    /\ e.r.cnt[q][k] = (IF e.K[k] < n THEN e.K[k] ELSE n)
                    /\ e.K[k] <= n => (Within(q, RAdd(w, eps)) >= e.K[k] /\ (RLt(w, eps) \/ Within(q, RSub(w, eps)) < e.K[k])))

JudgeMath(ev, i) ==
    LET e == ev[i] IN
    CASE e.op = "MatMake" -> JudgeMatMake(e)
      [] e.op = "MatMul" -> JudgeMatMul(ev, e)
      [] e.op = "MatInv" -> JudgeMatInv(ev, e)
      [] e.op = "MatT" -> JudgeMatT(ev, e)
      [] e.op = "MatAsk" -> JudgeMatAsk(ev, e)
      [] e.op = "MatApply" -> JudgeMatApply(ev, e)
      [] e.op = "Vec" -> JudgeVec(e)
      [] e.op = "VecTol" -> JudgeVecTol(e)
      [] e.op = "Orth" -> JudgeOrth(e)
      [] e.op = "Compare" -> JudgeCompare(e)
      [] e.op = "Numbers" -> JudgeNumbers(e)
      [] e.op = "Cubic" -> JudgeCubic(e)
      [] e.op = "LinMul" -> JudgeLinMul(e)
      [] e.op = "CtrlGrid" -> JudgeCtrlGrid(e)
      [] e.op = "LinSolve" -> JudgeLinSolve(e)
      [] e.op = "LinBand" -> JudgeLinBand(e)
      [] e.op = "Quad1" -> JudgeQuad1(e)
      [] e.op = "Quad2" -> JudgeQuad2(e)
      [] e.op = "FFT" -> JudgeFFT(e)
      [] e.op = "Rays" -> JudgeRays(e)
      [] e.op = "LinePlane" -> JudgeLinePlane(e)
      [] e.op = "Project" -> JudgeProject(e)
      [] e.op = "Stereo" -> JudgeStereo(e)
      [] e.op = "Octree" -> JudgeOctree(e)
=============================================================================
