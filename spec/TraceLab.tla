------------------------------ MODULE TraceLab ------------------------------
(***************************************************************************)
(* Validates recorded load cases (C23) and experiments (C25).                  *)
(***************************************************************************)
EXTENDS Arrays
L == INSTANCE LabDef WITH Num <- Num
VARIABLES n, verdict

Tol(c) == RTen(-c.tol)
Near1(a, b, c) == RLeq(RAbs(RSub(a, b)), RMul(Tol(c), RAbs(b)))

\* x: stretches, r[1]: deformation gradients
Defgrad(c) ==
  LET t == c.x.s
      At_(p) == AtPoint(c.r[1], 2, t, p)
      Bad(p) == LET F == At_(p)
                    l == Num(c.x.d[p + 1])
                    off == {2, 3, 4, 6, 7, 8}
                IN IF \E k \in off : RSgn(F[k]) # 0 THEN "not diagonal"
                   ELSE IF ~(\A k \in {1, 5, 9} : RSgn(F[k]) > 0) THEN "not positive"
                   ELSE IF F[1] # l THEN "stretch of the primary axis"
                   ELSE IF ~Near1(RMul(F[1], RMul(F[5], F[9])), R1, c) THEN "determinant"
                   ELSE IF c.load = "uniaxial" /\ ~Near1(F[5], F[9], c) THEN "transverse stretches"
                   ELSE IF c.load = "planar" /\ F[5] # R1 THEN "constrained stretch"
                   ELSE IF c.load = "biaxial" /\ F[5] # l THEN "second stretch"
                   ELSE "ok"
      bad == {Bad(p) : p \in 0..(Prod(t) - 1)} \ {"ok"}
  IN IF c.r[1].s # <<3, 3>> \o t THEN "shape" ELSE IF bad = {} THEN "ok" ELSE CHOOSE x \in bad : TRUE

\* a[1] = F, a[2] = P, r[1] = result; axes 1-based
Stress(c) ==
  LET t == Trail(c.a[1], 2)
      Bad(p) == LET F == M33(AtPoint(c.a[1], 2, t, p))
                    S == M33(AtPoint(c.a[2], 2, t, p))
                    exp == L!Traction(F, S, c.i, c.j)
                    sc == RAdd(RAbs(S[c.i][c.i]), RAbs(RDiv(RMul(S[c.j][c.j], F[c.j][c.j]), F[c.i][c.i])))
                IN ~RLeq(RAbs(RSub(Num(c.r[1].d[p + 1]), exp)), RMul(Tol(c), sc))
  IN IF c.r[1].s # t THEN "shape" ELSE IF \E p \in 0..(Prod(t) - 1) : Bad(p) THEN "force per undeformed area" ELSE "ok"
\* r[1], r[2]: forces for P and for P + p F^-T, scale: magnitude
Pressure(c) ==
  IF c.r[1].s # c.r[2].s THEN "shape"
  ELSE IF \E p \in 1..Len(c.r[1].d) :
            ~RLeq(RAbs(RSub(Num(c.r[1].d[p]), Num(c.r[2].d[p]))), RMul(Tol(c), Num(c.scale))) THEN "depends on the pressure"
  ELSE "ok"

\* gaps: positions of missing values (nan) in displacement, force, stretch and stress; they are zero in a and r
\* a[1] displacement, a[2] force (as given), area, length (one, or one for each point); r[1] stretch, r[2] stress, kept: data unchanged
Experiment(c) ==
  LET N == Len(c.a[1].d)
      Size(v, k) == Num(v[((k - 1) % Len(v)) + 1])
  IN IF c.r[1].s # c.a[1].s \/ c.r[2].s # c.a[2].s THEN "shape"
     ELSE IF c.gaps[3] # c.gaps[1] \/ c.gaps[4] # c.gaps[2] THEN "missing values"
     ELSE IF \E k \in 1..N : k - 1 \notin {c.gaps[1][q] : q \in DOMAIN c.gaps[1]} /\ ~Near1(RSub(Num(c.r[1].d[k]), R1), RDiv(Num(c.a[1].d[k]), Size(c.length, k)), c)
                             /\ ~RLeq(RAbs(RSub(RSub(Num(c.r[1].d[k]), R1), RDiv(Num(c.a[1].d[k]), Size(c.length, k)))), Tol(c))
          THEN "stretch"
     ELSE IF \E k \in 1..Len(c.a[2].d) : k - 1 \notin {c.gaps[2][q] : q \in DOMAIN c.gaps[2]} /\ ~Near1(Num(c.r[2].d[k]), RDiv(Num(c.a[2].d[k]), Size(c.area, k)), c) THEN "stress"
     ELSE IF c.kept # 1 THEN "recorded data changed"
     ELSE "ok"

Clause(c) ==
  IF c.exc # "" THEN "raised " \o c.exc
  ELSE IF \E k \in 1..Len(c.r) : ~Finite(c.r[k]) THEN "not finite"
  ELSE CASE c.kind = "defgrad" -> Defgrad(c)
         [] c.kind = "stress" -> Stress(c)
         [] c.kind = "pressure" -> Pressure(c)
         [] c.kind = "experiment" -> Experiment(c)

-----------------------------------------------------------------------------
Init == n \in 1..Len(Cases) /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ verdict' = Clause(Cases[n])
        /\ (verdict' # "ok") => PrintT(<<"BAD", Cases[n].id, verdict'>>)
        /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, verdict>>
Accepted == verdict \in {"todo", "ok"}
Complete == TLCGet("stats").distinct = 2 * Len(Cases)
=============================================================================
