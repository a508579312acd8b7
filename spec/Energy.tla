------------------------------- MODULE Energy -------------------------------
(***************************************************************************)
(* Strain energies and what the library has to return for them.             *)
(*                                                                         *)
(* An energy is a sequence of components; numbers in components are         *)
(* rationals obtained through Num (index into the table of a trace file).    *)
(*   [k |-> "inv", t |-> terms, ln |-> c]                                    *)
(*        sum of c (I1-a1)^i (I2-a2)^j (I3-a3)^k I3^(e/6), plus c ln I3, in  *)
(*        the principal invariants of the deformation tensor                 *)
(*   [k |-> "ogden", t |-> <<[mu, q]..>>]                                    *)
(*        sum of 2 mu/alpha^2 (l1^alpha + l2^alpha + l3^alpha - 3),          *)
(*        alpha = q/n, l = principal stretches                               *)
(*   [k |-> "gen", m |-> measure, t |-> terms, ln |-> c]                     *)
(*        the terms in the normalized invariants of E(l), where the measure  *)
(*        is E(l) = sum of a l^(q/n) + b with reference ref = <<E0,E0',E0''>>*)
(*        (norm = 1), or in the plain invariants of E(l) (norm = 0)           *)
(*   [k |-> "cutI", t |-> <<[i, c, a, m]..>>]     sum of c max(I_i - a, 0)^m       *)
(*   [k |-> "cutL", t |-> <<[c, a, s, m]..>>]                                  *)
(*        sum of c sum_k max(s (l_k - a), 0)^m, m >= 3: inactive at some points   *)
(*   [k |-> "str", t |-> <<[c, f |-> <<[A, a, p]..>>]..>>]  (anisotropic)           *)
(*        sum of c prod (A : C - a)^p with symmetric structural tensors A           *)
(* Principal stretches enter through the exact root V of the deformation     *)
(* tensor, V^(2n) = C: the witness V0 = N diag(mu) N^T is part of the point   *)
(* and verified; its derivatives follow from V^(2n) = C.                      *)
(***************************************************************************)
EXTENDS Jet, TLC
CONSTANT Num(_)

T  == INSTANCE Tensor WITH Add <- RAdd, Sub <- RSub, Mul <- RMul, Zero <- R0, One <- R1
JT == INSTANCE Tensor WITH Add <- JAdd, Sub <- JSub, Mul <- JMul, Zero <- J0, One <- J1

NumM(m) == LET E(i, j) == Num(m[i][j]) IN T!Tab(E)
JetM(A, D1, D2) == LET E(i, j) == << A[i][j], D1[i][j], D2[i][j], R0 >> IN T!Tab(E)
Part(X, k) == LET E(i, j) == X[i][j][k] IN T!Tab(E)

-----------------------------------------------------------------------------
(* Functions of three invariants (jets).                                    *)
JP(x, n) == IF n = 0 THEN J1 ELSE JPow(x, n)
JTerm(t, I1, I2, I3, root) ==
  LET p == JMul(JMul(JP(JAddC(I1, RNeg(Num(t.a1))), t.i), JP(JAddC(I2, RNeg(Num(t.a2))), t.j)),
                JP(JAddC(I3, RNeg(Num(t.a3))), t.k))
  IN JScale(Num(t.c), IF t.e = 0 THEN p ELSE JMul(p, JPow(JRoot(I3, root, 6), t.e)))
RECURSIVE JTermsFrom(_, _, _, _, _, _)
JTermsFrom(ts, k, I1, I2, I3, root) ==
  IF k > Len(ts) THEN J0
  ELSE JAdd(JTerm(ts[k], I1, I2, I3, root), JTermsFrom(ts, k + 1, I1, I2, I3, root))
JInner(e, I1, I2, I3, root) ==
  LET s == JTermsFrom(e.t, 1, I1, I2, I3, root)
  IN IF RSgn(Num(e.ln)) = 0 THEN s ELSE JAdd(s, JScale(Num(e.ln), JLog(I3)))

RP(x, n) == IF n = 0 THEN R1 ELSE RPow(x, n)
RECURSIVE TermsScaleFrom(_, _, _, _, _, _)
TermsScaleFrom(ts, k, x1, x2, x3, root) ==
  IF k > Len(ts) THEN R0
  ELSE LET t == ts[k]
           b(x, a) == RSum3(RAbs(x), RAbs(Num(a)), R1)
       IN RAdd(RMul(RAbs(Num(t.c)),
                    RMul(RMul(RP(b(x1, t.a1), t.i), RP(b(x2, t.a2), t.j)),
                         RMul(RP(IF t.k >= 0 THEN b(x3, t.a3) ELSE RAbs(RSub(x3, Num(t.a3))), t.k),
                              IF t.e = 0 THEN R1 ELSE RP(RMax(R1, IF t.e > 0 THEN root ELSE RDiv(R1, root)),
                                                         IF t.e > 0 THEN t.e ELSE -t.e)))),
               TermsScaleFrom(ts, k + 1, x1, x2, x3, root))
InnerScale(e, x1, x2, x3, root) == RAdd(TermsScaleFrom(e.t, 1, x1, x2, x3, root), RAbs(Num(e.ln)))

-----------------------------------------------------------------------------
(* Roots of deformation tensors: V with V^m = C.                            *)
\* sum over a + b = m-1 of x^a y^b
RECURSIVE PowSumFrom(_, _, _, _)
PowSumFrom(x, y, m, a) == IF a = m THEN R0
                          ELSE RAdd(RMul(RP(x, a), RP(y, m - 1 - a)), PowSumFrom(x, y, m, a + 1))
PowSum(x, y, m) == PowSumFrom(x, y, m, 0)
\* the solution X of  sum V0^a X V0^b = R,  V0 = N diag(mu) N^T
SolveRoot(R, N, mu, m) ==
  LET Rh == T!MTMul(N, T!MMul(R, N))
      s == << PowSum(mu[1], mu[1], m), PowSum(mu[2], mu[2], m), PowSum(mu[3], mu[3], m),
              PowSum(mu[1], mu[2], m), PowSum(mu[2], mu[3], m), PowSum(mu[1], mu[3], m) >>
      E(i, j) == RDiv(Rh[i][j], s[T!VIdx[i][j]])
      X == T!Tab(E)
  IN T!MMulT(T!MMul(N, X), N)
\* all parts of the root of the jet tensor C, given the root V0 of its constant part
RootJet(C, N, mu, m) ==
  LET V0 == T!MMulT(T!MMul(N, T!Diag(mu[1], mu[2], mu[3])), N)
      V1 == SolveRoot(Part(C, 2), N, mu, m)
      V2 == SolveRoot(Part(C, 3), N, mu, m)
      E(i, j) == << V0[i][j], V1[i][j], V2[i][j], R0 >>
      Y == JT!MPow(T!Tab(E), m)
      V12 == SolveRoot(T!MSub(Part(C, 4), Part(Y, 4)), N, mu, m)
      G(i, j) == << V0[i][j], V1[i][j], V2[i][j], V12[i][j] >>
  IN T!Tab(G)
\* N orthogonal, V0^m = C0
RootWitness(C0, N, mu, m) ==
  LET V0 == T!MMulT(T!MMul(N, T!Diag(mu[1], mu[2], mu[3])), N)
  IN T!MMulT(N, N) = T!Id /\ T!MPow(V0, m) = C0
\* integer power, also negative, of a jet tensor
JMPow(V, q) ==
  IF q >= 0 THEN JT!MPow(V, q)
  ELSE LET W == JT!MPow(V, -q)
       IN JT!MScale(JInv(JT!Det(W)), JT!Transpose(JT!Cof(W)))

-----------------------------------------------------------------------------
(* Strain measures E(l) = sum a l^(q/n) + b.                                *)
RECURSIVE MeasSum(_, _, _)
MeasSum(F(_), ts, k) == IF k > Len(ts) THEN R0 ELSE RAdd(F(ts[k]), MeasSum(F, ts, k + 1))
MeasE(m)     == LET f(t) == Num(t.a) IN RAdd(MeasSum(f, m.t, 1), Num(m.b))
MeasD(m, n)  == LET f(t) == RMul(Num(t.a), RFrac(t.q, n)) IN MeasSum(f, m.t, 1)
MeasDD(m, n) == LET f(t) == RMul(Num(t.a), RMul(RFrac(t.q, n), RSub(RFrac(t.q, n), R1))) IN MeasSum(f, m.t, 1)
Ref(m) == << Num(m.ref[1]), Num(m.ref[2]), Num(m.ref[3]) >>
\* coefficients of normalization as documented: <<c1, c2>>
J1dd(E0, D0, DD0) == RMul(RFrac(3, 2), RAdd(DD0, D0))
J2dd(E0, D0, DD0) == RMul(RFrac(3, 2), RSub(RMul(RMul(RInt(2), E0), RAdd(DD0, D0)), RMul(D0, D0)))
Norm(m, n) ==
  IF m.norm = 0 THEN << R1, R1 >>
  ELSE LET r == Ref(m)
           e == MeasE(m)
           d == MeasD(m, n)
           dd == MeasDD(m, n)
       IN << RDiv(J1dd(r[1], r[2], r[3]), J1dd(e, d, dd)), RDiv(J2dd(r[1], r[2], r[3]), J2dd(e, d, dd)) >>
\* invariants I = c (J - J0) + J0 of the jets J
Normalize(m, n, I1, I2, I3) ==
  LET c == Norm(m, n)
      e == MeasE(m)
      i0 == RMul(RInt(3), e)
      j0 == RMul(RInt(3), RMul(e, e))
  IN << JAddC(JScale(c[1], JAddC(I1, RNeg(i0))), i0), JAddC(JScale(c[2], JAddC(I2, RNeg(j0))), j0), I3 >>
RECURSIVE MeasTensorFrom(_, _, _)
MeasTensorFrom(ts, k, V) == IF k > Len(ts) THEN JT!MScale(J0, JT!Id)
                            ELSE JT!MAdd(JT!MScale(JConst(Num(ts[k].a)), JMPow(V, ts[k].q)),
                                         MeasTensorFrom(ts, k + 1, V))
MeasTensor(m, V) == JT!MAdd(MeasTensorFrom(m.t, 1, V), JT!MScale(JConst(Num(m.b)), JT!Id))
\* principal invariants of a symmetric jet tensor
JInvariants(C) ==
  LET i1 == JT!Trace(C)
  IN << i1, JScale(RFrac(1, 2), JSub(JMul(i1, i1), JT!Trace2(C))), JT!Det(C) >>

-----------------------------------------------------------------------------
(* Energy of a deformation tensor.                                          *)
NeedsRoot(en) == \E k \in 1..Len(en) : en[k].k \notin {"inv", "cutI", "str"}
\* piecewise energies of the invariants (twice differentiable: m >= 3)
RECURSIVE CutIFrom(_, _, _)
CutIFrom(ts, k, I) ==
  IF k > Len(ts) THEN J0
  ELSE LET t == ts[k]
           x == JAddC(I[t.i], RNeg(Num(t.a)))
           r == CutIFrom(ts, k + 1, I)
       IN IF RSgn(x[1]) <= 0 THEN r ELSE JAdd(JScale(Num(t.c), JPow(x, t.m)), r)
\* piecewise energies of the principal stretches, as the trace of a function f
\* of U = V^n: D2 tr f(U) = sum_ij [f'](l_i, l_j) (U1)_ij (U2)_ij + f'(U) : U12
\* in the principal frame, with the divided differences [f'] of f'.
RMaxZ(x) == IF RSgn(x) > 0 THEN x ELSE R0
CutD1(t, l) == LET s == RInt(t.s)
               IN RMul(RMul(Num(t.c), RMul(RInt(t.m), s)), RP(RMaxZ(RMul(s, RSub(l, Num(t.a)))), t.m - 1))
CutD2(t, l) == RMul(RMul(Num(t.c), RInt(t.m * (t.m - 1))), RP(RMaxZ(RMul(RInt(t.s), RSub(l, Num(t.a)))), t.m - 2))
CutDiv(t, x, y) == IF x = y THEN CutD2(t, x) ELSE RDiv(RSub(CutD1(t, x), CutD1(t, y)), RSub(x, y))
CutL(t, U, N, l) ==
  LET H(k) == T!MTMul(N, T!MMul(Part(U, k), N))
      H1 == H(2)
      H2 == H(3)
      H12 == H(4)
      d == << CutD1(t, l[1]), CutD1(t, l[2]), CutD1(t, l[3]) >>
      tr(X) == RSum3(RMul(d[1], X[1][1]), RMul(d[2], X[2][2]), RMul(d[3], X[3][3]))
      q(i, j) == RMul(CutDiv(t, l[i], l[j]), RMul(H1[i][j], H2[i][j]))
      row(i) == RSum3(q(i, 1), q(i, 2), q(i, 3))
  IN << R0, tr(H1), tr(H2), RAdd(tr(H12), RSum3(row(1), row(2), row(3))) >>
RECURSIVE CutLFrom(_, _, _, _, _)
CutLFrom(ts, k, U, N, l) == IF k > Len(ts) THEN J0 ELSE JAdd(CutL(ts[k], U, N, l), CutLFrom(ts, k + 1, U, N, l))
RECURSIVE OgdenFrom(_, _, _, _)
OgdenFrom(ts, k, V, n) ==
  IF k > Len(ts) THEN J0
  ELSE LET al == RFrac(ts[k].q, n)
           c == RDiv(RMul(RInt(2), Num(ts[k].mu)), RMul(al, al))
       IN JAdd(JScale(c, JT!Trace(JMPow(V, ts[k].q))), OgdenFrom(ts, k + 1, V, n))
\* anisotropic energies: sum of c prod (A : C - a)^p, with structural tensors A
JContract(A, C) ==
  LET row(i) == JAdd(JScale(A[i][1], C[i][1]), JAdd(JScale(A[i][2], C[i][2]), JScale(A[i][3], C[i][3])))
  IN JAdd(row(1), JAdd(row(2), row(3)))
RECURSIVE StrProd(_, _, _)
StrProd(fs, k, C) ==
  IF k > Len(fs) THEN JConst(R1)
  ELSE JMul(JPow(JAddC(JContract(NumM(fs[k].A), C), RNeg(Num(fs[k].a))), fs[k].p), StrProd(fs, k + 1, C))
RECURSIVE StrFrom(_, _, _)
StrFrom(ts, k, C) == IF k > Len(ts) THEN J0 ELSE JAdd(JScale(Num(ts[k].c), StrProd(ts[k].f, 1, C)), StrFrom(ts, k + 1, C))
RECURSIVE StrSizeFrom(_, _, _)
StrSizeFrom(fs, k, i1) ==
  IF k > Len(fs) THEN R1
  ELSE LET A == NumM(fs[k].A)
           row(i) == RSum3(RAbs(A[i][1]), RAbs(A[i][2]), RAbs(A[i][3]))
           x == RSum3(RMul(RSum3(row(1), row(2), row(3)), RAdd(R1, i1)), RAbs(Num(fs[k].a)), R1)
       IN RMul(RPow(x, fs[k].p), StrSizeFrom(fs, k + 1, i1))
JComponent(e, I, V, C, N, mu, root, n) ==
  IF e.k = "inv" THEN JInner(e, I[1], I[2], I[3], root)
  ELSE IF e.k = "str" THEN StrFrom(e.t, 1, C)
  ELSE IF e.k = "cutI" THEN CutIFrom(e.t, 1, I)
  ELSE IF e.k = "cutL" THEN CutLFrom(e.t, 1, JMPow(V, n), N, << RPow(mu[1], n), RPow(mu[2], n), RPow(mu[3], n) >>)
  ELSE IF e.k = "ogden" THEN OgdenFrom(e.t, 1, V, n)
  ELSE LET J == JInvariants(MeasTensor(e.m, V))
           K == Normalize(e.m, n, J[1], J[2], J[3])
       IN JInner(e, K[1], K[2], K[3], R1)
RECURSIVE JEnergyFrom(_, _, _, _, _, _, _, _, _)
JEnergyFrom(en, k, I, V, C, N, mu, root, n) ==
  IF k > Len(en) THEN J0
  ELSE JAdd(JComponent(en[k], I, V, C, N, mu, root, n), JEnergyFrom(en, k + 1, I, V, C, N, mu, root, n))
\* C: jet tensor; N, mu: root witness (only if needed); root: root^6 = det C
JEnergy(en, C, N, mu, root, n) ==
  LET I == JInvariants(C)
      V == IF NeedsRoot(en) THEN RootJet(C, N, mu, 2 * n) ELSE C
  IN JEnergyFrom(en, 1, I, V, C, N, mu, root, n)

\* Magnitude of the quantities which enter an evaluation at mu / the invariants.
RECURSIVE MeasScale(_, _, _)
MeasScale(ts, k, mu) ==
  IF k > Len(ts) THEN R0
  ELSE LET x(i) == RP(mu[i], ts[k].q)
       IN RAdd(RMul(RAbs(Num(ts[k].a)), RMax(x(1), RMax(x(2), x(3)))), MeasScale(ts, k + 1, mu))
CompScale(e, I, mu, root, n) ==
  IF e.k = "inv" THEN InnerScale(e, I[1], I[2], I[3], root)
  ELSE IF e.k = "str"
  THEN LET f(t) == RMul(RAbs(Num(t.c)), StrSizeFrom(t.f, 1, I[1])) IN MeasSum(f, e.t, 1)
  ELSE IF e.k = "cutI"
  THEN LET f(t) == RMul(RAbs(Num(t.c)), RPow(RSum3(RAbs(I[t.i]), RAbs(Num(t.a)), R1), t.m)) IN MeasSum(f, e.t, 1)
  ELSE IF e.k = "cutL"
  THEN LET l == RPow(RMax(mu[1], RMax(mu[2], mu[3])), n)
           f(t) == RMul(RMul(RInt(3), RAbs(Num(t.c))), RPow(RSum3(l, RAbs(Num(t.a)), R1), t.m))
       IN MeasSum(f, e.t, 1)
  ELSE IF e.k = "ogden"
  THEN LET f(t) == LET al == RFrac(t.q, n)
                       x(i) == RP(mu[i], t.q)
                   IN RMul(RMul(RInt(2), RMul(RAbs(Num(t.mu)), RMax(R1, RDiv(R1, RMul(al, al))))),
                           RMul(RMax(R1, RMul(al, al)), RSum3(x(1), x(2), x(3))))
       IN MeasSum(f, e.t, 1)
  ELSE LET g == RAdd(MeasScale(e.m.t, 1, mu), RAbs(Num(e.m.b)))
           c == Norm(e.m, n)
           d(t) == RMax(R1, RMul(RFrac(t.q, n), RFrac(t.q, n)))
           q == MeasSum(d, e.m.t, 1)
       IN RMul(q, InnerScale(e, RMul(RAdd(RAbs(c[1]), R1), RMul(RInt(3), g)),
                             RMul(RAdd(RAbs(c[2]), R1), RMul(RInt(3), RMul(g, g))), RPow(g, 3), R1))
RECURSIVE EnergyScaleFrom(_, _, _, _, _, _)
EnergyScaleFrom(en, k, I, mu, root, n) ==
  IF k > Len(en) THEN R0
  ELSE RAdd(CompScale(en[k], I, mu, root, n), EnergyScaleFrom(en, k + 1, I, mu, root, n))
EnergyScale(en, I, mu, root, n) == EnergyScaleFrom(en, 1, I, mu, root, n)
=============================================================================
