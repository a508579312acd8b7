--------------------------- MODULE TraceRelation ---------------------------
(***************************************************************************)
(* Validates relations between results recorded from the real code:          *)
(*   same      results of one quantity obtained in different ways agree        *)
(*   sampled   the same for some points of a large batch                         *)
(*   points    a batch equals its points evaluated one at a time               *)
(*   rotation  transformation of the legs of a tensor under rotations           *)
(*   symmetry  Kirchhoff stress symmetric, elasticity with major symmetry       *)
(*   scaled    r[2] = s r[1];  sum  r[3] = r[1] + r[2]                           *)
(* r: recorded arrays, lead: tensor axes, ref: magnitude below which a          *)
(* result is a rounding error, tol: negative power of ten.                      *)
(***************************************************************************)
EXTENDS Arrays
VARIABLES n, verdict

Tol(c) == RTen(-c.tol)
M3(m) == Eager([i \in 1..3 |-> Eager([j \in 1..3 |-> Num(m[i][j])])])
MaxOf(c, v) == RMax(Num(c.ref), RMaxAbs(v))
Close(c, got, exp) == /\ Len(got) = Len(exp)
                      /\ LET eps == RMul(Tol(c), MaxOf(c, exp))
                         IN \A k \in 1..Len(exp) : RLeq(RAbs(RSub(got[k], exp[k])), eps)

\* with a weaker tolerance at ill-conditioned points
CloseBy(c, p, got, exp) == Close([c EXCEPT !.tol = @ - c.loose[p + 1]], got, exp)

\* results whose trailing axes broadcast to the points
LeadOK(a, lead, t) == /\ Len(a.s) = Len(lead) + Len(t)
                      /\ Head_(a, Len(lead)) = lead
                      /\ \A k \in 1..Len(t) : a.s[Len(lead) + k] \in {1, t[k]}
ShapesOK(c) == \A k \in 1..Len(c.r) : LeadOK(c.r[k], c.lead, c.trail)
At(c, k, p) == AtPoint(c.r[k], Len(c.lead), c.trail, p)
Points(c) == 0..(Prod(c.trail) - 1)

SameClause(c) ==
  IF ~ShapesOK(c) THEN "shape"
  ELSE IF \E p \in Points(c) : \E k \in 2..Len(c.r) : ~Close(c, At(c, k, p), At(c, 1, p)) THEN "different results"
  ELSE "ok"

\* r[1]: batch on the points trail; r[2..]: single evaluations (any trailing axes of length one)
PointsClause(c) ==
  IF ~LeadOK(c.r[1], c.lead, c.trail) THEN "shape of the batch"
  ELSE IF Len(c.r) # 1 + Prod(c.trail) THEN "machinery: points"
  ELSE IF \E k \in 2..Len(c.r) : Head_(c.r[k], Len(c.lead)) # c.lead \/ Prod(Trail(c.r[k], Len(c.lead))) # 1
       THEN "shape of a single evaluation"
  ELSE IF \E p \in Points(c) : ~CloseBy(c, p, At(c, 1, p), Vals(c.r[p + 2])) THEN "batch differs from its points"
  ELSE "ok"

\* full: shape of the whole batch result and its trailing axes, of which r[1] holds sampled points
SampledClause(c) ==
  LET s == c.full[1]
      t == c.full[2]
  IN IF Len(s) # Len(c.lead) + Len(t) THEN "shape of the batch"
     ELSE IF SubSeq(s, 1, Len(c.lead)) # c.lead THEN "shape of the batch"
     ELSE IF \E k \in 1..Len(t) : s[Len(c.lead) + k] \notin {1, t[k]} THEN "shape of the batch"
     ELSE PointsClause(c)

\* legs: 1 = deformed (rotated by Q), 0 = undeformed (rotated by R)
\* row-major components of the rotated tensor of rank 2 or 4
Rot2(v, A, B) == Eager([k \in 1..9 |->
   LET i == ((k - 1) \div 3) + 1
       j == ((k - 1) % 3) + 1
   IN RSumSeq(Eager([q \in 1..9 |-> LET a == ((q - 1) \div 3) + 1
                                        b == ((q - 1) % 3) + 1
                                    IN RMul(RMul(A[i][a], B[j][b]), v[q])]))])
\* rotate one leg at a time: leg m (0..3) of a rank 4 tensor
Pow3 == <<27, 9, 3, 1>>
RotLeg(v, A, m) ==
  LET s == Pow3[m]
  IN Eager([k \in 1..81 |->
       LET i == ((k - 1) \div s) % 3
           base == k - i * s
       IN RSum3(RMul(A[i + 1][1], v[base]), RMul(A[i + 1][2], v[base + s]), RMul(A[i + 1][3], v[base + 2 * s]))])
Rot4(v, A, B) == RotLeg(RotLeg(RotLeg(RotLeg(v, A, 1), B, 2), A, 3), B, 4)
VI == <<1, 2, 3, 1, 2, 1>>
VIdx(i, j) == IF i = j THEN i ELSE IF i + j = 3 THEN 4 ELSE IF i + j = 5 THEN 5 ELSE 6
Full(lead, v) ==
  IF lead = <<6>> THEN Eager([k \in 1..9 |-> v[VIdx(((k - 1) \div 3) + 1, ((k - 1) % 3) + 1)]])
  ELSE IF lead = <<6, 6>> THEN
    Eager([k \in 1..81 |-> v[6 * (VIdx(((k - 1) \div 27) + 1, (((k - 1) \div 9) % 3) + 1) - 1)
                             + VIdx((((k - 1) \div 3) % 3) + 1, ((k - 1) % 3) + 1)]])
  ELSE v
RotationClause(c) ==
  LET Q == M3(c.Q)
      R == M3(c.R)
      leg(k) == IF c.legs[k] = 1 THEN Q ELSE R
      exp(v) == IF Len(v) = 9 THEN Rot2(v, leg(1), leg(2)) ELSE Rot4(v, leg(1), leg(2))
      ortho(X) == \A i, j \in 1..3 : RSum3(RMul(X[i][1], X[j][1]), RMul(X[i][2], X[j][2]), RMul(X[i][3], X[j][3]))
                                      = (IF i = j THEN R1 ELSE R0)
  IN IF ~ortho(Q) \/ ~ortho(R) THEN "machinery: rotation"
     ELSE IF ~ShapesOK(c) THEN "shape"
     ELSE IF \E p \in Points(c) : ~Close(c, Full(c.lead, At(c, 2, p)), exp(Full(c.lead, At(c, 1, p)))) THEN "rotated result"
     ELSE "ok"

\* r[1] = F, r[2] = P, r[3] = A
SymmetryClause(c) ==
  LET F(p) == AtPoint(c.r[1], 2, c.trail, p)
      P(p) == AtPoint(c.r[2], 2, c.trail, p)
      A(p) == AtPoint(c.r[3], 4, c.trail, p)
      Tau(p) == LET f == F(p)
                    s == P(p)
                IN Eager([k \in 1..9 |-> LET i == (k - 1) \div 3
                                             j == (k - 1) % 3
                                         IN RSum3(RMul(s[3 * i + 1], f[3 * j + 1]), RMul(s[3 * i + 2], f[3 * j + 2]),
                                                  RMul(s[3 * i + 3], f[3 * j + 3]))])
      T2(v) == Eager([k \in 1..9 |-> v[3 * ((k - 1) % 3) + ((k - 1) \div 3) + 1]])
      T4x(v) == Eager([k \in 1..81 |-> v[9 * ((k - 1) % 9) + ((k - 1) \div 9) + 1]])
  IN IF ~LeadOK(c.r[2], <<3, 3>>, c.trail) \/ ~LeadOK(c.r[3], <<3, 3, 3, 3>>, c.trail) THEN "shape"
     ELSE IF \E p \in Points(c) : LET t == Tau(p) IN ~Close(c, t, T2(t)) THEN "Kirchhoff stress is not symmetric"
     ELSE IF \E p \in Points(c) : LET a == A(p) IN ~Close(c, a, T4x(a)) THEN "no major symmetry"
     ELSE "ok"

ScaledClause(c) ==
  IF ~ShapesOK(c) THEN "shape"
  ELSE IF \E p \in Points(c) : ~Close(c, At(c, 2, p), Eager([k \in 1..Len(At(c, 1, p)) |-> RMul(Num(c.s), At(c, 1, p)[k])]))
       THEN "not scaled" ELSE "ok"
SumClause(c) ==
  IF ~ShapesOK(c) THEN "shape"
  ELSE IF \E p \in Points(c) : LET a == At(c, 1, p)
                                   b == At(c, 2, p)
                               IN ~Close(c, At(c, 3, p), Eager([k \in 1..Len(a) |-> RAdd(a[k], b[k])]))
       THEN "not additive" ELSE "ok"

Clause(c) ==
  IF c.exc # "" THEN "raised " \o c.exc
  ELSE IF \E k \in 1..Len(c.r) : ~Finite(c.r[k]) THEN "not finite"
  ELSE CASE c.kind = "same" -> SameClause(c)
         [] c.kind = "points" -> PointsClause(c)
         [] c.kind = "sampled" -> SampledClause(c)
         [] c.kind = "rotation" -> RotationClause(c)
         [] c.kind = "symmetry" -> SymmetryClause(c)
         [] c.kind = "scaled" -> ScaledClause(c)
         [] c.kind = "sum" -> SumClause(c)

-----------------------------------------------------------------------------
Init == n \in 1..Len(Cases) /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ verdict' = Clause(Cases[n])
        /\ (verdict' # "ok") => PrintT(<<"BAD", Cases[n].id, verdict'>>)
        /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, verdict>>
Accepted == verdict \in {"todo", "ok"}
Complete == TLCGet("stats").distinct = 2 * Len(Cases)
=============================================================================
