------------------------------ MODULE MathDef ------------------------------
(***************************************************************************)
(* The meaning of the tensor helpers of hyperelastic.math: index-notation    *)
(* definitions on full tensors, at one point.  Arguments are row-major value  *)
(* sequences as recorded; results are row-major value sequences.             *)
(***************************************************************************)
EXTENDS BigRat, FiniteSets
T == INSTANCE Tensor WITH Add <- RAdd, Sub <- RSub, Mul <- RMul, Zero <- R0, One <- R1

Ev(f) == SubSeq(f, 1, Len(f))
Mat(v) == << <<v[1], v[2], v[3]>>, <<v[4], v[5], v[6]>>, <<v[7], v[8], v[9]>> >>
Flat(A) == << A[1][1], A[1][2], A[1][3], A[2][1], A[2][2], A[2][3], A[3][1], A[3][2], A[3][3] >>
VI == T!VI
VJ == T!VJ
VX(i, j) == T!VIdx[i][j]
\* fourth-order tensor in 6x6 storage / full storage, component ijkl
C66(v, i, j, k, l) == v[6 * (VX(i, j) - 1) + VX(k, l)]
C81(v, i, j, k, l) == v[27 * (i - 1) + 9 * (j - 1) + 3 * (k - 1) + l]
\* tabulate a component function in 6x6 storage and in full storage
Tab66(F(_, _, _, _)) ==
  Ev([n \in 1..36 |-> LET a == ((n - 1) \div 6) + 1
                          b == ((n - 1) % 6) + 1 IN F(VI[a], VJ[a], VI[b], VJ[b])])
Tab81(F(_, _, _, _)) ==
  Ev([n \in 1..81 |-> F(((n - 1) \div 27) + 1, ((((n - 1) \div 9) % 3) + 1), (((n - 1) \div 3) % 3) + 1, ((n - 1) % 3) + 1)])

MinorSym4(v) == \A i, j, k, l \in 1..3 : C81(v, i, j, k, l) = C81(v, j, i, k, l)
                                      /\ C81(v, i, j, k, l) = C81(v, i, j, l, k)

Asvoigt2(v) == Ev([n \in 1..6 |-> Mat(v)[VI[n]][VJ[n]]])
Asvoigt4(v) == LET F(i, j, k, l) == C81(v, i, j, k, l) IN Tab66(F)
Astensor2(v) == Flat(T!Full(v))
Astensor4(v) == LET F(i, j, k, l) == C66(v, i, j, k, l) IN Tab81(F)
\* n x n matrices, row-major
TrilFromTriu(v, n) == Ev([m \in 1..(n * n) |->
   LET i == (m - 1) \div n
       j == (m - 1) % n IN IF i <= j THEN v[m] ELSE v[n * j + i + 1]])
TriuFromTril(v, n) == Ev([m \in 1..(n * n) |->
   LET i == (m - 1) \div n
       j == (m - 1) % n IN IF i >= j THEN v[m] ELSE v[n * j + i + 1]])

TraceOf(v) == << T!Trace(T!Full(v)) >>
DetOf(v) == << T!Det(T!Full(v)) >>
EyeOf == << R1, R1, R1, R0, R0, R0 >>
DevOf(v) == LET A == T!Full(v)
                t == RDiv(T!Trace(A), RInt(3))
            IN T!Red(T!MSub(A, T!MScale(t, T!Id)))
\* inverse of a symmetric tensor by its defining property A X = 1 (the adjugate is the witness)
InvOf(v) == LET A == T!Full(v)
                X == T!MScale(RDiv(R1, T!Det(A)), T!Transpose(T!Cof(A)))
            IN T!Red(X)
DotOf(a, b) == Flat(T!MMul(T!Full(a), T!Full(b)))
DDot22(a, b) == << T!DDot(T!Full(a), T!Full(b)) >>
Sum9(F(_, _)) == RSumSeq(Ev([n \in 1..9 |-> F(((n - 1) \div 3) + 1, ((n - 1) % 3) + 1)]))
DDot24(a, v) == LET A == T!Full(a) IN
  Ev([n \in 1..6 |-> LET S(i, j) == RMul(A[i][j], C66(v, i, j, VI[n], VJ[n])) IN Sum9(S)])
DDot42(v, b) == LET B == T!Full(b) IN
  Ev([n \in 1..6 |-> LET S(k, l) == RMul(C66(v, VI[n], VJ[n], k, l), B[k][l]) IN Sum9(S)])
DDot44(v, w) ==
  LET F(i, j, m, n) == LET S(k, l) == RMul(C66(v, i, j, k, l), C66(w, k, l, m, n)) IN Sum9(S)
  IN Tab66(F)
DyaOf(a, b) == LET A == T!Full(a)
                   B == T!Full(b)
                   F(i, j, k, l) == RMul(A[i][j], B[k][l]) IN Tab66(F)
CdyaIk(a, b) == LET A == T!Full(a)
                    B == T!Full(b)
                    F(i, j, k, l) == RMul(A[i][k], B[j][l]) IN Tab81(F)
CdyaIl(a, b) == LET A == T!Full(a)
                    B == T!Full(b)
                    F(i, j, k, l) == RMul(A[i][l], B[k][j]) IN Tab81(F)
CdyaOf(a, b) ==
  LET A == T!Full(a)
      B == T!Full(b)
      q == RFrac(1, 4)
      F(i, j, k, l) == RMul(q, RAdd(RAdd(RMul(A[i][k], B[j][l]), RMul(A[i][l], B[k][j])),
                                    RAdd(RMul(B[i][k], A[j][l]), RMul(B[i][l], A[k][j]))))
  IN Tab66(F)
TransposeOf(v) == LET F(i, j, k, l) == C66(v, k, l, i, j) IN Tab66(F)

-----------------------------------------------------------------------------
(* Operations by name: tensor axes of the arguments and of the result.      *)
Rank == [ asvoigt2 |-> <<2>>, asvoigt4 |-> <<4>>, astensor2 |-> <<1>>, astensor4 |-> <<2>>,
          tril |-> <<2>>, triu |-> <<2>>, trace |-> <<1>>, det |-> <<1>>, eye |-> <<1>>, eye0 |-> <<>>,
          dev |-> <<1>>, inv |-> <<1>>, dot |-> <<1, 1>>, ddot22 |-> <<1, 1>>, ddot24 |-> <<1, 2>>,
          ddot42 |-> <<2, 1>>, ddot44 |-> <<2, 2>>, dya |-> <<1, 1>>, cdya |-> <<1, 1>>,
          cdya_ik |-> <<1, 1>>, cdya_il |-> <<1, 1>>, transpose |-> <<2>> ]
OutShape(op, n) == [ asvoigt2 |-> <<6>>, asvoigt4 |-> <<6, 6>>, astensor2 |-> <<3, 3>>,
          astensor4 |-> <<3, 3, 3, 3>>, tril |-> <<n, n>>, triu |-> <<n, n>>, trace |-> <<>>, det |-> <<>>,
          eye |-> <<6>>, eye0 |-> <<6>>, dev |-> <<6>>, inv |-> <<6>>, dot |-> <<3, 3>>, ddot22 |-> <<>>,
          ddot24 |-> <<6>>, ddot42 |-> <<6>>, ddot44 |-> <<6, 6>>, dya |-> <<6, 6>>, cdya |-> <<6, 6>>,
          cdya_ik |-> <<3, 3, 3, 3>>, cdya_il |-> <<3, 3, 3, 3>>, transpose |-> <<6, 6>> ][op]
Ops == DOMAIN Rank
ArgShape(op, i, n) ==
  IF op \in {"asvoigt2"} THEN <<3, 3>>
  ELSE IF op = "asvoigt4" THEN <<3, 3, 3, 3>>
  ELSE IF op \in {"tril", "triu"} THEN <<n, n>>
  ELSE IF Rank[op][i] = 1 THEN <<6>> ELSE <<6, 6>>

Def(op, v, n) ==
  CASE op = "asvoigt2" -> Asvoigt2(v[1])
    [] op = "asvoigt4" -> Asvoigt4(v[1])
    [] op = "astensor2" -> Astensor2(v[1])
    [] op = "astensor4" -> Astensor4(v[1])
    [] op = "tril" -> TrilFromTriu(v[1], n)
    [] op = "triu" -> TriuFromTril(v[1], n)
    [] op = "trace" -> TraceOf(v[1])
    [] op = "det" -> DetOf(v[1])
    [] op \in {"eye", "eye0"} -> EyeOf
    [] op = "dev" -> DevOf(v[1])
    [] op = "inv" -> InvOf(v[1])
    [] op = "dot" -> DotOf(v[1], v[2])
    [] op = "ddot22" -> DDot22(v[1], v[2])
    [] op = "ddot24" -> DDot24(v[1], v[2])
    [] op = "ddot42" -> DDot42(v[1], v[2])
    [] op = "ddot44" -> DDot44(v[1], v[2])
    [] op = "dya" -> DyaOf(v[1], v[2])
    [] op = "cdya" -> CdyaOf(v[1], v[2])
    [] op = "cdya_ik" -> CdyaIk(v[1], v[2])
    [] op = "cdya_il" -> CdyaIl(v[1], v[2])
    [] op = "transpose" -> TransposeOf(v[1])

\* Magnitude to which rounding errors of the operation are relative.
Scale(op, v) ==
  LET m(i) == RMaxAbs(v[i]) IN
  CASE op \in {"asvoigt2", "asvoigt4", "astensor2", "astensor4", "tril", "triu", "transpose", "eye", "eye0"} -> R0
    [] op \in {"trace", "dev"} -> m(1)
    [] op = "det" -> RPow(m(1), 3)
    [] op = "inv" -> LET d == RAbs(T!Det(T!Full(v[1])))
                         a == RDiv(RPow(m(1), 2), d)
                     IN RMul(a, RMax(R1, RDiv(RPow(m(1), 3), d)))
    [] OTHER -> RMul(m(1), m(2))

\* Spectral decomposition: w = values after applying the function (as
\* recorded, ascending eigenvalues before), M = bases (3 x 6 row-major).
RECURSIVE Inverse(_, _)
Inverse(fun, w) ==
  CASE fun = "none" -> w
    [] fun = "sqrt" -> RMul(w, w)
    [] fun = "cbrt" -> RMul(RMul(w, w), w)
    [] fun = "neg" -> RNeg(w)
    [] fun = "affine" -> RDiv(RSub(w, R1), RInt(2))     \* w = 2 x + 1
    [] fun = "recip" -> RDiv(R1, w)                      \* w = 1 / x
SpectralClause(a, fun, w, m, tol) ==
  LET A == T!Full(a)
      M(k) == T!Full(SubSeq(m, 6 * (k - 1) + 1, 6 * k))
      x == << Inverse(fun, w[1]), Inverse(fun, w[2]), Inverse(fun, w[3]) >>
      s == IF fun = "affine" THEN RMax(R1, RMaxAbs(a)) ELSE RMaxAbs(a)   \* 2 x + 1 is rounded at 1
      Z(B, sc) == RLeq(RMaxAbs(Flat(B)), RMul(tol, sc))
      sum == T!MAdd(T!MAdd(M(1), M(2)), M(3))
      rec == T!MAdd(T!MAdd(T!MScale(x[1], M(1)), T!MScale(x[2], M(2))), T!MScale(x[3], M(3)))
  IN IF ~(RLeq(x[1], RAdd(x[2], RMul(tol, s))) /\ RLeq(x[2], RAdd(x[3], RMul(tol, s)))) THEN "ascending"
     ELSE IF ~Z(T!MSub(sum, T!Id), R1) THEN "sum-of-bases"
     ELSE IF ~(\A k, l \in 1..3 : Z(T!MSub(T!MMul(M(k), M(l)), IF k = l THEN M(k) ELSE T!MScale(R0, M(k))), R1))
          THEN "orthogonal-idempotent"
     ELSE IF ~(\A k \in 1..3 : RLeq(RAbs(RSub(T!Trace(M(k)), R1)), tol)) THEN "rank-one"
     ELSE IF ~Z(T!MSub(rec, A), s) THEN "reconstruction"
     ELSE "ok"
=============================================================================
