------------------------------ MODULE Response ------------------------------
(***************************************************************************)
(* Stress and elasticity on the deformation, distortional and dilatational   *)
(* space, by definition: directional derivatives of the energy of the         *)
(* (full / unimodular / spherical) part of the deformation.                   *)
(*                                                                         *)
(* A point is a record [F, N, mu, r] of rationals with det F = r^3 > 0 and     *)
(* - if the energy needs principal stretches - N, mu with (N diag(mu) N^T)^2n  *)
(* = Ceff(F).                                                                 *)
(***************************************************************************)
EXTENDS Energy

Spaces == {"deformation", "distortional", "dilatational"}

\* effective right Cauchy-Green tensor of the space for the jet tensor F
Ceff(space, F, r) ==
  LET C == JT!MTMul(F, F)
  IN IF space = "deformation" THEN C
     ELSE LET j == JRoot(JT!Det(F), r, 3)
              j2 == JMul(j, j)
          IN IF space = "distortional" THEN JT!MScale(JInv(j2), C)
             ELSE JT!MScale(j2, JT!Id)
\* root with root^6 = det Ceff
RootOf(space, r) == IF space = "distortional" THEN R1 ELSE r

\* jet of the energy at F0 + e1 D1 + e2 D2: <<W, W,F:D1, W,F:D2, D1:W,FF:D2>>
WJet(space, en, p, n, D1, D2) ==
  JEnergy(en, Ceff(space, JetM(p.F, D1, D2), p.r), p.N, p.mu, RootOf(space, p.r), n)

Zero3 == T!Diag(R0, R0, R0)
Witness(space, en, p, n) ==
  /\ T!Det(p.F) = RPow(p.r, 3)
  /\ RSgn(p.r) > 0
  /\ NeedsRoot(en) =>
       /\ \A k \in 1..3 : RSgn(p.mu[k]) > 0
       /\ RootWitness(Part(Ceff(space, JetM(p.F, Zero3, Zero3), p.r), 1), p.N, p.mu, 2 * n)

-----------------------------------------------------------------------------
(* Configurations.  The two-point stress P = W,F and its elasticity          *)
(* A = W,FF are transformed by replacing the deformed (undeformed) force leg  *)
(* with F^-1, and the undeformed area leg with F, divided by J:               *)
(*    T = f P a^T / j ,  f = 1 or F^-1,  a = 1 or F,  j = 1 or J.              *)
(* A contraction of T with H is a contraction of P with f^T H a / j.          *)
Inverse3(F) == T!MScale(RDiv(R1, T!Det(F)), T!Transpose(T!Cof(F)))
\* force: 0 = undeformed, 1 = deformed; area likewise
Pull(F, force, area, H) ==
  LET G == IF force = 0 THEN T!MTMul(Inverse3(F), H) ELSE H
  IN IF area = 1 THEN T!MMul(G, F) ELSE G
Jac(F, area) == IF area = 1 THEN T!Det(F) ELSE R1

\* H1 : elasticity : H2 of the bare material elasticity tensor (no initial
\* stress): A_iJkL = F_iI F_kK C_IJKL + delta_ik S_JL
Bare(space, en, p, n, H1, H2) ==
  LET Fi == Inverse3(p.F)
      D1 == T!MTMul(Fi, H1)
      D2 == T!MTMul(Fi, H2)
      \* delta_ik S_JL D1_iJ D2_kL = S : (D1^T D2) = P : F^-T (D1^T D2)
      D3 == T!MTMul(Fi, T!MTMul(D1, D2))
  IN RSub(WJet(space, en, p, n, D1, D2)[4], WJet(space, en, p, n, D3, Zero3)[2])
=============================================================================
