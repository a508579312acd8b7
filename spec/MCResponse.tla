----------------------------- MODULE MCResponse -----------------------------
(***************************************************************************)
(* Design of the three spaces: for a material given by its derivatives by   *)
(* the (full / unimodular / spherical) deformation tensor, the closed-form    *)
(* stresses and elasticity tensors (the design of hyperelastic.spaces) are    *)
(* the derivatives of the energy W(F) of Response, and these are objective,   *)
(* symmetric, isotropic if the material is, deviatoric and independent of     *)
(* the volume change (distortional), hydrostatic and independent of the       *)
(* distortion (dilatational).  Decided exactly on all enumerated              *)
(* F = r L U with small integer triangular factors, on all pairs of basis      *)
(* directions.  A closed form with the defect Defect has to be refuted.         *)
(***************************************************************************)
EXTENDS Response
CONSTANTS Entries, SpaceSet, Defect
VARIABLES s, verdict

MNum(q) == q   \* numbers of energies are rationals here
Entries1 == {1}
Entries2 == {0, 1}
Entries3 == {-1, 0, 1}

-----------------------------------------------------------------------------
(* Energies.                                                                *)
Tm(c, i, j, k, e, a1, a2, a3) ==
  [c |-> c, i |-> i, j |-> j, k |-> k, e |-> e, a1 |-> a1, a2 |-> a2, a3 |-> a3]
Inv(t, ln) == [k |-> "inv", t |-> t, ln |-> ln]
A1 == << <<R1, R0, R0>>, <<R0, R0, R0>>, <<R0, R0, R0>> >>
A2 == << <<R0, RFrac(1, 2), R0>>, <<RFrac(1, 2), RInt(2), RInt(-1)>>, <<R0, RInt(-1), R0>> >>
Str(t) == [k |-> "str", t |-> t]
Iso == << << Inv(<< Tm(RFrac(1, 2), 1, 0, 0, 0, RInt(3), R0, R0), Tm(RFrac(1, 3), 2, 1, 0, 0, RInt(3), RInt(3), R0) >>, R0) >>,
          << Inv(<< Tm(RFrac(1, 2), 1, 0, 0, -2, RInt(3), R0, R0), Tm(RFrac(1, 5), 0, 1, 2, 0, R0, R0, R1) >>, RFrac(-1, 2)) >>,
          << Inv(<< Tm(R1, 0, 2, -1, 0, R0, R1, R0), Tm(RInt(2), 1, 0, 1, 3, R0, R0, RInt(-1)) >>, R1) >> >>
Aniso == << << Str(<< [c |-> RFrac(1, 2), f |-> << [A |-> A1, a |-> R1, p |-> 2] >>],
                      [c |-> RFrac(1, 3), f |-> << [A |-> A1, a |-> R0, p |-> 1], [A |-> A2, a |-> RInt(2), p |-> 1] >>] >>) >>,
            << Str(<< [c |-> RFrac(1, 4), f |-> << [A |-> A2, a |-> R0, p |-> 3] >>] >>),
               Inv(<< Tm(RFrac(1, 2), 1, 0, 0, 0, RInt(3), R0, R0) >>, RFrac(-1, 2)) >> >>
Energies == Iso \o Aniso
Isotropic(q) == q <= Len(Iso)

-----------------------------------------------------------------------------
(* Points.                                                                  *)
Rs == << R1, RFrac(1, 2), RFrac(3, 2) >>
PointF(x, r) ==
  LET L == << <<R1, R0, R0>>, <<RInt(x[1]), R1, R0>>, <<R0, RInt(x[2]), R1>> >>
      U == << <<R1, R0, RInt(x[3])>>, <<R0, R1, RInt(x[4])>>, <<R0, R0, R1>> >>
  IN T!MScale(r, T!MMul(L, U))
Basis(k) == LET E(i, j) == IF 3 * (i - 1) + j = k THEN R1 ELSE R0 IN T!Tab(E)
Skew == << << <<R0, R1, R0>>, <<RInt(-1), R0, R0>>, <<R0, R0, R0>> >>,
           << <<R0, R0, R0>>, <<R0, R0, R1>>, <<R0, RInt(-1), R0>> >>,
           << <<R0, R0, RInt(-1)>>, <<R0, R0, R0>>, <<R1, R0, R0>> >> >>

\* P = W,F and A = W,FF of a space by basis directions
Ev9(f) == SubSeq(f, 1, 9)
M9(v) == << <<v[1], v[2], v[3]>>, <<v[4], v[5], v[6]>>, <<v[7], v[8], v[9]>> >>
Flat9(H) == << H[1][1], H[1][2], H[1][3], H[2][1], H[2][2], H[2][3], H[3][1], H[3][2], H[3][3] >>
Dot9(v, w) == RAdd(RSum3(RSum3(RMul(v[1], w[1]), RMul(v[2], w[2]), RMul(v[3], w[3])), RMul(v[4], w[4]), RMul(v[5], w[5])),
                   RAdd(RSum3(RMul(v[6], w[6]), RMul(v[7], w[7]), RMul(v[8], w[8])), RMul(v[9], w[9])))
Stress(sp, en, p)  == M9(Ev9([k \in 1..9 |-> WJet(sp, en, p, 1, Basis(k), Zero3)[2]]))
Tangent(sp, en, p) ==
  LET up == Ev9([k \in 1..9 |-> SubSeq([m \in 1..9 |-> IF m < k THEN R0 ELSE WJet(sp, en, p, 1, Basis(k), Basis(m))[4]], 1, 9)])
  IN Ev9([k \in 1..9 |-> SubSeq([m \in 1..9 |-> IF m < k THEN up[m][k] ELSE up[k][m]], 1, 9)])
\* A : H as matrix
Apply(A, H) == LET h == Flat9(H) IN M9(Ev9([k \in 1..9 |-> Dot9(A[k], h)]))

-----------------------------------------------------------------------------
(* The closed forms of the design.                                         *)
Sy(X) == LET E(i, j) == RMul(RFrac(1, 2), RAdd(X[i][j], X[j][i])) IN T!Tab(E)
\* derivatives of the material by its (symmetric) deformation tensor
MatJet(en, C, X1, X2, root) == JEnergy(en, JetM(C, X1, X2), <<>>, <<>>, root, 1)
MatGrad(en, C, root) ==
  LET g(k) == MatJet(en, C, Sy(Basis(k)), Zero3, root)[2]
  IN M9(Ev9([k \in 1..9 |-> g(k)]))
Closed(sp, en, p) ==
  LET C    == T!MTMul(p.F, p.F)
      Ci   == Inverse3(C)
      third == RFrac(1, 3)
      r2   == RMul(p.r, p.r)
      Cs   == IF sp = "deformation" THEN C
              ELSE IF sp = "distortional" THEN T!MScale(RDiv(R1, r2), C) ELSE T!MScale(r2, T!Id)
      root == RootOf(sp, p.r)
      g    == MatGrad(en, Cs, root)
      f    == IF sp = "deformation" THEN R1 ELSE IF sp = "distortional" THEN RDiv(R1, r2) ELSE r2
      Sb   == T!MScale(RMul(RInt(2), f), g)
      SbC  == T!DDot(Sb, C)
      trS  == T!Trace(Sb)
      S    == IF sp = "deformation" THEN Sb
              ELSE IF sp = "distortional" THEN T!MSub(Sb, T!MScale(RMul(third, SbC), Ci))
              ELSE T!MScale(RMul(third, trS), Ci)
      \* E1 : C4 : E2 for strain increments E
      C4b(X, Y) == RMul(RMul(RInt(4), RMul(f, f)), MatJet(en, Cs, X, Y, root)[4])
      proj(E) == T!MSub(E, T!MScale(RMul(third, T!DDot(Ci, E)), C))
      i4(E, G) == T!DDot(T!MMul(Ci, E), T!Transpose(T!MMul(Ci, G)))
      ci(E) == T!DDot(Ci, E)
      mixed(E, G) == IF Defect = "mixed" THEN RMul(RInt(2), RMul(T!DDot(Sb, E), ci(G)))
                     ELSE RAdd(RMul(T!DDot(Sb, E), ci(G)), RMul(ci(E), T!DDot(Sb, G)))
      trC4b == C4b(T!Id, T!Id)
      C4(E, G) ==
        IF sp = "deformation" THEN C4b(E, G)
        ELSE IF sp = "distortional"
        THEN RAdd(IF Defect = "unprojected" THEN C4b(E, proj(G)) ELSE C4b(proj(E), proj(G)),
                  RMul(RFrac(2, 3), RAdd(RSub(RMul(SbC, i4(E, G)), mixed(E, G)),
                                         RMul(RMul(third, SbC), RMul(ci(E), ci(G))))))
        ELSE RSub(RMul(RMul(RFrac(1, 9), RAdd(RMul(RInt(2), trS), trC4b)), RMul(ci(E), ci(G))),
                  RMul(RMul(RFrac(2, 3), trS), i4(E, G)))
      FtH(H) == Sy(T!MTMul(p.F, H))
      \* H1 : A : H2, with the initial stress
      tang(H, K) == LET t == C4(FtH(H), FtH(K))
                    IN IF Defect = "nostress" THEN t ELSE RAdd(t, T!DDot(S, Sy(T!MTMul(H, K))))
      bare(H, K) == C4(Sy(H), Sy(K))
  IN [P |-> T!MMul(p.F, S),
      A |-> Ev9([k \in 1..9 |-> SubSeq([m \in 1..9 |-> tang(Basis(k), Basis(m))], 1, 9)]),
      C |-> Ev9([k \in 1..9 |-> SubSeq([m \in 1..9 |-> bare(Basis(k), Basis(m))], 1, 9)])]

-----------------------------------------------------------------------------
Check(x, ri, sp, q) ==
  LET r == Rs[ri]
      p == [F |-> PointF(x, r), r |-> r, N |-> <<>>, mu |-> <<>>]
      en == Energies[q]
      P == Stress(sp, en, p)
      A == Tangent(sp, en, p)
      c == Closed(sp, en, p)
      tau == T!MMulT(P, p.F)
      G == T!MAdd(Basis(2), T!MAdd(T!MScale(RInt(3), Basis(7)), T!MScale(RInt(-2), Basis(5))))
      K == T!MAdd(Basis(6), T!MSub(Basis(1), T!MScale(RInt(2), Basis(4))))
      scaled == [p EXCEPT !.F = T!MScale(RInt(2), p.F), !.r = RMul(RInt(2), p.r)]
      ident == [p EXCEPT !.F = T!MScale(r, T!Id)]
  IN IF ~Witness(sp, en, p, 1) THEN "witness"
     ELSE IF tau # T!Transpose(tau) THEN "symmetry of the Kirchhoff stress"
     ELSE IF \E w \in 1..3 : Apply(A, T!MMul(Skew[w], p.F)) # T!MMul(Skew[w], P) THEN "objectivity"
     ELSE IF (Isotropic(q) \/ Defect = "isotropic") /\ (\E w \in 1..3 : Apply(A, T!MMul(p.F, Skew[w])) # T!MMul(P, Skew[w])) THEN "isotropy"
     ELSE IF WJet(sp, en, p, 1, G, K)[4] # T!DDot(G, Apply(A, K)) THEN "bilinearity"
     ELSE IF WJet(sp, en, p, 1, G, K)[2] # T!DDot(G, P) THEN "linearity"
     ELSE IF sp = "distortional" /\ (RSgn(T!Trace(tau)) # 0 \/ Apply(A, p.F) # T!MScale(RInt(-1), P)
                                     \/ Stress(sp, en, scaled) # T!MScale(RFrac(1, 2), P)) THEN "distortional"
     ELSE IF sp = "dilatational" /\ (tau # T!MScale(RMul(RFrac(1, 3), T!Trace(tau)), T!Id)
                                     \/ tau # T!MMulT(Stress(sp, en, ident), ident.F)) THEN "dilatational"
     ELSE IF c.P # P THEN "closed form of the stress"
     ELSE IF c.A # A THEN "closed form of the elasticity tensor"
     ELSE IF \E k \in {1, 2, 6, 7, 9}, m \in {2, 3, 5, 8} : c.C[k][m] # Bare(sp, en, p, 1, Basis(k), Basis(m))
          THEN "material elasticity tensor"
     ELSE "ok"

Init == /\ s \in (Entries \X Entries \X Entries \X Entries) \X (1..3) \X SpaceSet \X (1..Len(Energies))
        /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ verdict' = Check(s[1], s[2], s[3], s[4])
        /\ UNCHANGED s
Holds == verdict \in {"todo", "ok"}
=============================================================================
