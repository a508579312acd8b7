------------------------------ MODULE MCVoigt ------------------------------
(***************************************************************************)
(* Design of the reduced storage: the closed-form component formulas with   *)
(* shear weights and index tables (the design of hyperelastic.math) satisfy *)
(* the index-notation definitions of MathDef.  Bilinear operations are        *)
(* decided completely by all pairs of basis tensors; the non-linear ones      *)
(* (det, inv, dev) are checked on all sums of three weighted basis tensors.   *)
(***************************************************************************)
EXTENDS MathDef, TLC
VARIABLES a, b, verdict

B(k) == [x \in 1..6 |-> IF x = k THEN R1 ELSE R0]
W == <<R1, R1, R1, RInt(2), RInt(2), RInt(2)>>
S2(p, q) == RAdd(p, q)
\* storage-level formulas
DTrace(v) == RSum3(v[1], v[2], v[3])
DDet(v) == RSub(RSub(RSub(RAdd(RMul(RMul(v[1], v[2]), v[3]), RMul(RInt(2), RMul(RMul(v[4], v[5]), v[6]))),
                          RMul(RMul(v[5], v[5]), v[1])), RMul(RMul(v[6], v[6]), v[2])), RMul(RMul(v[4], v[4]), v[3]))
\* adjugate in storage: index tables i*j - k*l
AI == <<2, 1, 1, 5, 4, 4>>
AJ == <<3, 3, 2, 6, 6, 5>>
AK == <<5, 6, 4, 4, 1, 2>>
AL == <<5, 6, 4, 3, 5, 6>>
DAdj(v) == Ev([n \in 1..6 |-> RSub(RMul(v[AI[n]], v[AJ[n]]), RMul(v[AK[n]], v[AL[n]]))])
DDDot22(v, w) == RSumSeq(Ev([n \in 1..6 |-> RMul(W[n], RMul(v[n], w[n]))]))
DDot42_(m, w) == Ev([n \in 1..6 |-> RSumSeq(Ev([k \in 1..6 |-> RMul(W[k], RMul(m[6 * (n - 1) + k], w[k]))]))])
DDya(v, w) == Ev([n \in 1..36 |-> RMul(v[((n - 1) \div 6) + 1], w[((n - 1) % 6) + 1])])
\* upper triangle only, copied to the lower triangle, as in cdya
DCdya(v, w) ==
  LET C(n, m) == LET i == VI[n]
                     j == VJ[n]
                     k == VI[m]
                     l == VJ[m]
                 IN RMul(RFrac(1, 4), RAdd(RAdd(RMul(v[VX(i, k)], w[VX(j, l)]), RMul(v[VX(i, l)], w[VX(k, j)])),
                                           RAdd(RMul(w[VX(i, k)], v[VX(j, l)]), RMul(w[VX(i, l)], v[VX(k, j)]))))
  IN Ev([q \in 1..36 |-> LET n == ((q - 1) \div 6) + 1
                             m == ((q - 1) % 6) + 1 IN IF n <= m THEN C(n, m) ELSE C(m, n)])
\* mixed sums of basis tensors
Mix == LET X(i, j, k) == Ev([n \in 1..6 |-> RAdd(RAdd(B(i)[n], RMul(RInt(2), B(j)[n])), RMul(RInt(4), B(k)[n]))])
       IN { X(a, b, k) : k \in 1..6 }

Bilinear ==
  LET v == Ev(B(a))
      w == Ev(B(b))
      m == DyaOf(v, w)
  IN /\ DDya(v, w) = DyaOf(v, w)
     /\ DCdya(v, w) = CdyaOf(v, w)
     /\ CdyaOf(v, w) = CdyaOf(w, v)
     /\ << DDDot22(v, w) >> = DDot22(v, w)
     /\ \A k \in 1..6 : DDot42_(m, Ev(B(k))) = DDot42(m, Ev(B(k)))
                        /\ DDot24(Ev(B(k)), m) = DDot42(TransposeOf(m), Ev(B(k)))
     /\ TransposeOf(DyaOf(v, w)) = DyaOf(w, v)
     \* the storage maps are mutually inverse
     /\ Asvoigt2(Astensor2(v)) = v
     /\ Asvoigt4(Astensor4(m)) = m
     \* cdya(A,A) of the identity is the symmetric identity tensor
     /\ DDot42(CdyaOf(EyeOf, EyeOf), v) = v
NonLinear ==
  \A v \in Mix :
     /\ << DTrace(v) >> = TraceOf(v)
     /\ << DDet(v) >> = DetOf(v)
     /\ RSgn(DDet(v)) # 0 =>
          LET x == Ev([n \in 1..6 |-> RDiv(DAdj(v)[n], DDet(v))])
          IN x = InvOf(v) /\ DotOf(v, x) = Flat(T!Id)
     /\ RSgn(TraceOf(DevOf(v))[1]) = 0

Init == a \in 1..6 /\ b \in 1..6 /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ verdict' = IF ~Bilinear THEN "Bilinear" ELSE IF ~NonLinear THEN "NonLinear" ELSE "ok"
        /\ UNCHANGED <<a, b>>
Holds == verdict \in {"todo", "ok"}
=============================================================================
