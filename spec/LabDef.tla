------------------------------- MODULE LabDef -------------------------------
(***************************************************************************)
(* Meaning of the laboratory: incompressible load paths, force per            *)
(* undeformed area, and the simulated stress as derivative of the strain        *)
(* energy along the load path (half of it for the biaxial path, on which two     *)
(* axes are stretched).  Points of a path are given by an exact parameter t,      *)
(* the stretch is t^(2n) (uniaxial) or t^n, n: root index of the energy.          *)
(***************************************************************************)
EXTENDS Integers, BigRat
CONSTANT Num(_)
R == INSTANCE Response WITH Num <- Num

Loads == {"uniaxial", "planar", "biaxial"}
\* principal stretches as powers of the root u: stretch = u^m
Exponents(load) == CASE load = "uniaxial" -> <<2, -1, -1>>
                     [] load = "planar" -> <<1, 0, -1>>
                     [] load = "biaxial" -> <<1, 1, -2>>
P(x, k) == IF k >= 0 THEN RPow(x, k) ELSE RDiv(R1, RPow(x, -k))
\* the stretch belonging to the parameter t
StretchAt(load, t, n) == P(t, n * Exponents(load)[1])
\* principal stretches, their root mu (mu^n = stretch) and the direction d/d(stretch)
PathPoint(load, t, n) ==
  LET e == Exponents(load)
      l(k) == P(t, n * e[k])
      \* dl_k / dl_1 = (e_k / e_1) l_k / l_1
      d(k) == RDiv(RMul(RFrac(e[k], e[1]), l(k)), l(1))
  IN [ F |-> R!T!Diag(l(1), l(2), l(3)), N |-> R!T!Id, mu |-> << P(t, e[1]), P(t, e[2]), P(t, e[3]) >>, r |-> R1,
       D |-> R!T!Diag(d(1), d(2), d(3)) ]
Share(load) == IF load = "biaxial" THEN RFrac(1, 2) ELSE R1
SimStress(space, en, load, t, n) ==
  LET p == PathPoint(load, t, n)
  IN RMul(Share(load), R!WJet(space, en, p, n, p.D, R!Zero3)[2])
\* magnitude for rounding errors
SimScale(space, en, load, t, n) ==
  LET p == PathPoint(load, t, n)
      C0 == R!Part(R!Ceff(space, R!JetM(p.F, R!Zero3, R!Zero3), p.r), 1)
      I == R!JInvariants(R!JetM(C0, R!Zero3, R!Zero3))
      l == StretchAt(load, t, n)
      s == R!EnergyScale(en, << I[1][1], I[2][1], I[3][1] >>, p.mu, R1, n)
      m == RMax(l, RDiv(R1, l))
  IN RMul(s, RMul(m, m))

\* force per undeformed area on axis i, traction-free axis j (1-based), of the diagonal deformation F
\* and any stress P: the pressure p is chosen such that P + p F^-T has no traction on j
Traction(F, S, i, j) ==
  LET p == RNeg(RMul(S[j][j], F[j][j]))
  IN RAdd(S[i][i], RDiv(p, F[i][i]))
=============================================================================
