----------------------------- MODULE TraceSpace -----------------------------
(***************************************************************************)
(* Validates recorded evaluations of the real spaces and frameworks against  *)
(* the definitional response.  A case is one evaluation of gradient and       *)
(* hessian on an array of points:                                             *)
(*   lvl    "space" or "framework" (derivatives with respect to C)             *)
(*   space, force, area (0/1), fin (0/1), n, en (energy), tol                  *)
(*   pts    points in row-major order of the trailing axes                     *)
(*   trail  trailing shape of the argument                                     *)
(*   full   <<>>, or the shapes of a large batch of which pts are some points    *)
(*   dirs   pairs of directions                                                *)
(*   g, h   recorded gradient and hessian                                      *)
(***************************************************************************)
EXTENDS Arrays
R == INSTANCE Response WITH Num <- Num
VARIABLES n, verdict

Pt(p) == [F |-> R!NumM(p.F), N |-> R!NumM(p.N), r |-> Num(p.r),
          mu |-> << Num(p.mu[1]), Num(p.mu[2]), Num(p.mu[3]) >>]

\* contraction of recorded values with directions
Con2(v, H) == RSumSeq(Eager([k \in 1..9 |-> LET i == ((k - 1) \div 3) + 1
                                                j == ((k - 1) % 3) + 1
                                            IN IF RSgn(H[i][j]) = 0 THEN R0 ELSE RMul(v[k], H[i][j])]))
Con4(v, H1, H2) ==
  RSumSeq(Eager([k \in 1..9 |->
     LET i == ((k - 1) \div 3) + 1
         j == ((k - 1) % 3) + 1
     IN IF RSgn(H1[i][j]) = 0 THEN R0
        ELSE RMul(H1[i][j], Con2(SubSeq(v, 9 * (k - 1) + 1, 9 * k), H2))]))
\* from reduced storage
Full2(v) == Eager([k \in 1..9 |-> v[R!T!VIdx[((k - 1) \div 3) + 1][((k - 1) % 3) + 1]]])
Full4(v) == Eager([q \in 1..81 |->
              LET a == R!T!VIdx[((q - 1) \div 27) + 1][(((q - 1) \div 9) % 3) + 1]
                  b == R!T!VIdx[(((q - 1) \div 3) % 3) + 1][((q - 1) % 3) + 1]
              IN v[6 * (a - 1) + b]])
AbsSum(H) == RSumSeq(Eager([k \in 1..9 |-> RAbs(H[((k - 1) \div 3) + 1][((k - 1) % 3) + 1])]))
MaxM(H) == RMaxAbs(Eager([k \in 1..9 |-> H[((k - 1) \div 3) + 1][((k - 1) % 3) + 1]]))

\* trailing shapes of results broadcast to the trailing shape of the argument
TrailOK(a, r, t) == /\ Len(a.s) = r + Len(t)
                    /\ \A k \in 1..Len(t) : a.s[r + k] \in {1, t[k]}

-----------------------------------------------------------------------------
SpacePoint(c, p, gv, hv) ==
  LET Fi == R!Inverse3(p.F)
      C0 == R!Part(R!Ceff(c.space, R!JetM(p.F, R!Zero3, R!Zero3), p.r), 1)
      JC == R!JetM(C0, R!Zero3, R!Zero3)
      JI == R!JInvariants(JC)
      I0 == << JI[1][1], JI[2][1], JI[3][1] >>
      sc == R!EnergyScale(c.en, I0, p.mu, R!RootOf(c.space, p.r), c.n)
      gf == RMax(R1, RMul(RInt(3), MaxM(Fi)))
      ff == RMax(R1, RMul(RInt(3), MaxM(p.F)))
      cf == IF c.fin = 0 THEN gf
            ELSE RMul(IF c.force = 0 THEN gf ELSE R1, IF c.area = 1 THEN ff ELSE R1)
      jac == IF c.fin = 0 THEN R1 ELSE R!Jac(p.F, c.area)
      s1 == RMul(RTen(-c.tol), RDiv(RMul(RMul(sc, gf), cf), jac))
      s2 == RMul(RTen(-c.tol), RDiv(RMul(RMul(sc, RMul(gf, gf)), RMul(cf, cf)), jac))
      g == IF c.fin = 0 THEN Full2(gv) ELSE gv
      h == IF c.fin = 0 THEN Full4(hv) ELSE hv
      Dir(d) ==
        LET H1 == R!NumM(d[1])
            H2 == R!NumM(d[2])
            force == IF c.fin = 0 THEN 0 ELSE c.force
            area == IF c.fin = 0 THEN 0 ELSE c.area
            D1 == R!Pull(p.F, force, area, H1)
            D2 == R!Pull(p.F, force, area, H2)
            w == R!WJet(c.space, c.en, p, c.n, D1, D2)
            e1 == RDiv(w[2], jac)
            e2 == RDiv(w[3], jac)
            e12 == IF c.fin = 0 THEN R!Bare(c.space, c.en, p, c.n, H1, H2) ELSE RDiv(w[4], jac)
            a1 == AbsSum(H1)
            a2 == AbsSum(H2)
        IN IF ~RLeq(RAbs(RSub(Con2(g, H1), e1)), RMul(s1, a1)) THEN "stress"
           ELSE IF ~RLeq(RAbs(RSub(Con2(g, H2), e2)), RMul(s1, a2)) THEN "stress"
           ELSE IF c.hess = 1 /\ ~RLeq(RAbs(RSub(Con4(h, H1, H2), e12)), RMul(s2, RMul(a1, a2))) THEN "elasticity"
           ELSE IF c.hess = 1 /\ c.fin = 1
                   /\ ~RLeq(RAbs(RSub(Con4(h, H2, H1), e12)), RMul(s2, RMul(a1, a2))) THEN "elasticity"
           ELSE "ok"
      bad == {Dir(c.dirs[k]) : k \in 1..Len(c.dirs)} \ {"ok"}
  IN IF ~R!Witness(c.space, c.en, p, c.n) THEN "machinery: witness"
     ELSE IF bad = {} THEN "ok"
     ELSE IF "stress" \in bad THEN "stress" ELSE "elasticity"

\* derivatives with respect to C; the point's F is the deformation tensor C itself
FrameworkPoint(c, p, gv, hv) ==
  LET JI == R!JInvariants(R!JetM(p.F, R!Zero3, R!Zero3))
      I0 == << JI[1][1], JI[2][1], JI[3][1] >>
      sc == R!EnergyScale(c.en, I0, p.mu, p.r, c.n)
      gf == RMax(R1, RMul(RInt(3), MaxM(R!Inverse3(p.F))))
      s1 == RMul(RTen(-c.tol), RMul(sc, gf))
      s2 == RMul(RTen(-c.tol), RMul(sc, RMul(gf, gf)))
      g == Full2(gv)
      h == Full4(hv)
      Dir(d) ==
        LET H1 == R!NumM(d[1])
            H2 == R!NumM(d[2])
            \* W(C) on symmetric tensors: symmetric directions
            S1 == R!T!MScale(RFrac(1, 2), R!T!MAdd(H1, R!T!Transpose(H1)))
            S2 == R!T!MScale(RFrac(1, 2), R!T!MAdd(H2, R!T!Transpose(H2)))
            w == R!JEnergy(c.en, R!JetM(p.F, S1, S2), p.N, p.mu, p.r, c.n)
            a1 == AbsSum(H1)
            a2 == AbsSum(H2)
        IN IF ~RLeq(RAbs(RSub(Con2(g, H1), w[2])), RMul(s1, a1)) THEN "gradient"
           ELSE IF ~RLeq(RAbs(RSub(Con2(g, H2), w[3])), RMul(s1, a2)) THEN "gradient"
           ELSE IF ~RLeq(RAbs(RSub(Con4(h, H1, H2), w[4])), RMul(s2, RMul(a1, a2))) THEN "hessian"
           ELSE IF ~RLeq(RAbs(RSub(Con4(h, H2, H1), w[4])), RMul(s2, RMul(a1, a2))) THEN "hessian"
           ELSE "ok"
      bad == {Dir(c.dirs[k]) : k \in 1..Len(c.dirs)} \ {"ok"}
      ok == /\ R!T!Sym(p.F)
            /\ R!T!Det(p.F) = RPow(p.r, 6) \/ \A k \in 1..Len(c.en) : c.en[k].k = "inv" => \A m \in 1..Len(c.en[k].t) : c.en[k].t[m].e = 0
            /\ R!NeedsRoot(c.en) => R!RootWitness(p.F, p.N, p.mu, 2 * c.n)
  IN IF ~ok THEN "machinery: witness"
     ELSE IF bad = {} THEN "ok"
     ELSE IF "gradient" \in bad THEN "gradient" ELSE "hessian"

Clause(c) ==
  LET t == c.trail
      fw == c.lvl = "framework"
      rg == IF fw \/ c.fin = 0 THEN <<6>> ELSE <<3, 3>>
      rh == IF fw \/ c.fin = 0 THEN <<6, 6>> ELSE <<3, 3, 3, 3>>
      PointClause(k) ==
        LET p == Pt(c.pts[k + 1])
            gv == AtPoint(c.g, Len(rg), t, k)
            hv == IF c.hess = 1 THEN AtPoint(c.h, Len(rh), t, k) ELSE <<>>
        IN IF fw THEN FrameworkPoint(c, p, gv, hv) ELSE SpacePoint(c, p, gv, hv)
      bad == {PointClause(k) : k \in 0..(Prod(t) - 1)} \ {"ok"}
      \* sampled points of a large batch: shapes of the whole results
      whole(s, r) == /\ Len(s) = Len(r) + Len(c.full[3])
                     /\ SubSeq(s, 1, Len(r)) = r
                     /\ \A k \in 1..Len(c.full[3]) : s[Len(r) + k] \in {1, c.full[3][k]}
  IN IF c.exc # "" THEN "raised " \o c.exc
     ELSE IF Len(c.pts) # Prod(t) THEN "machinery: points"
     ELSE IF c.full # <<>> /\ ~(whole(c.full[1], rg) /\ whole(c.full[2], rh)) THEN "shape of a large batch"
     ELSE IF ~(Head_(c.g, Len(rg)) = rg /\ TrailOK(c.g, Len(rg), t)) THEN "shape of the gradient"
     ELSE IF c.hess = 1 /\ ~(Head_(c.h, Len(rh)) = rh /\ TrailOK(c.h, Len(rh), t)) THEN "shape of the hessian"
     ELSE IF ~Finite(c.g) \/ (c.hess = 1 /\ ~Finite(c.h)) THEN "not finite"
     ELSE IF bad = {} THEN "ok"
     ELSE CHOOSE x \in bad : TRUE

-----------------------------------------------------------------------------
Init == n \in 1..Len(Cases) /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ verdict' = Clause(Cases[n])
        /\ (verdict' # "ok") => PrintT(<<"BAD", Cases[n].id, verdict'>>)
        /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, verdict>>
Accepted == verdict \in {"todo", "ok"}
Complete == TLCGet("stats").distinct = 2 * Len(Cases)
=============================================================================
