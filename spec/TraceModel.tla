----------------------------- MODULE TraceModel -----------------------------
(***************************************************************************)
(* Validates recorded calls of the material models: derivatives with respect *)
(* to the invariants (third-order deformation, automatic differentiation),    *)
(* with respect to the principal stretches (Ogden, generalized invariants),   *)
(* strain measures, and the invariants handed to an inner model.              *)
(*                                                                         *)
(*   kind   "invariants" | "stretches" | "measure" | "normal" | "stiffness"    *)
(*   en     energy component, n denominator of the exponents                   *)
(*   x      invariants: arrays I1, I2, I3;  stretches: roots mu (exact, one     *)
(*          triple per point)                                                  *)
(*   trail  shape of the points                                                *)
(*   g, h   returned derivatives: sequences of [none, a]                        *)
(*   want, seen   what has to be / was passed through unchanged (keyword         *)
(*          arguments, state variables, precision of the results)               *)
(***************************************************************************)
EXTENDS Arrays, Jet
E == INSTANCE Energy WITH Num <- Num
VARIABLES n, verdict

PairA == <<1, 2, 3, 1, 2, 1>>
PairB == <<1, 2, 3, 2, 3, 3>>
Unit(k, a) == IF k = a THEN R1 ELSE R0
Tol(c) == RTen(-c.tol)
RMin(a, b) == IF RLeq(a, b) THEN a ELSE b

-----------------------------------------------------------------------------
(* Which derivatives vanish identically (terms are distinct monomials).      *)
Ex(t, a) == IF a = 1 THEN t.i ELSE IF a = 2 THEN t.j ELSE t.k
Dep(t, a) == Ex(t, a) # 0 \/ (a = 3 /\ t.e # 0)
Live(e) == {k \in 1..Len(e.t) : RSgn(Num(e.t[k].c)) # 0}
HasLn(e) == RSgn(Num(e.ln)) # 0
Vanish1(e, a) == (\A k \in Live(e) : ~Dep(e.t[k], a)) /\ (a = 3 => ~HasLn(e))
VanishT(t, a, b) == IF a = b THEN Ex(t, a) \in {0, 1} /\ (a = 3 => t.e = 0)
                    ELSE ~Dep(t, a) \/ ~Dep(t, b)
Vanish2(e, a, b) == (\A k \in Live(e) : VanishT(e.t[k], a, b)) /\ ~(a = 3 /\ b = 3 /\ HasLn(e))

\* numbers or arrays which broadcast to the points
EntryOK(o, t, lead) ==
  IF o.none = 1 THEN TRUE
  ELSE /\ Len(o.a.s) >= Len(lead)
       /\ Head_(o.a, Len(lead)) = lead
       /\ LET s == Trail(o.a, Len(lead)) IN Len(s) <= Len(t) /\ Compatible(s, t) /\ Bcast(s, t) = t
       /\ Finite(o.a)
Value(o, t, p) == IF o.none = 1 THEN R0 ELSE AtPoint(o.a, 0, t, p)[1]

\* first / second derivative of an inner energy at the invariants v
InnerJet(e, v, root, a, b) ==
  LET I(k) == << v[k], Unit(k, a), Unit(k, b), R0 >>
  IN E!JInner(e, I(1), I(2), I(3), root)

InvariantsClause(c) ==
  LET t == c.trail
      e == c.en
      v(p) == << AtPoint(c.x[1], 0, t, p)[1], AtPoint(c.x[2], 0, t, p)[1], AtPoint(c.x[3], 0, t, p)[1] >>
      root(p) == Num(c.root[p + 1])
      sc(p) == RMul(Tol(c), E!InnerScale(e, v(p)[1], v(p)[2], v(p)[3], root(p)))
      \* derivatives of negative powers of I3 grow with 1/I3
      inv3(p) == RMax(R1, RDiv(R1, RAbs(v(p)[3])))
      G(p, a) == RLeq(RAbs(RSub(Value(c.g[a], t, p), InnerJet(e, v(p), root(p), a, a)[2])),
                      RMul(RMul(RInt(4), inv3(p)), sc(p)))
      H(p, k) == RLeq(RAbs(RSub(Value(c.h[k], t, p), InnerJet(e, v(p), root(p), PairA[k], PairB[k])[4])),
                      RMul(RMul(RInt(16), RMul(inv3(p), inv3(p))), sc(p)))
      P == 0..(Prod(t) - 1)
      usesRoot == \E k \in Live(e) : e.t[k].e # 0
  IN IF usesRoot /\ (\E p \in P : RSgn(root(p)) <= 0) THEN "machinery: root"
     ELSE IF Len(c.g) # 3 \/ Len(c.h) # 6 THEN "number of derivatives"
     ELSE IF \E a \in 1..3 : c.g[a].none = 1 /\ ~Vanish1(e, a) THEN "absent first derivative"
     ELSE IF \E k \in 1..6 : c.h[k].none = 1 /\ ~Vanish2(e, PairA[k], PairB[k]) THEN "absent second derivative"
     ELSE IF \E a \in 1..3 : ~EntryOK(c.g[a], t, <<>>) THEN "shape of the gradient"
     ELSE IF \E k \in 1..6 : ~EntryOK(c.h[k], t, <<>>) THEN "shape of the hessian"
     ELSE IF \E p \in P, a \in 1..3 : ~G(p, a) THEN "gradient"
     ELSE IF \E p \in P, k \in 1..6 : ~H(p, k) THEN "hessian"
     ELSE "ok"

-----------------------------------------------------------------------------
(* Energies of the principal stretches l = mu^n.                            *)
Lam(mu, m) == RPow(mu, m)
\* stretch jets -> powers l^(q/n)
MuJet(mu, m, a, b, k) == JRoot(<< Lam(mu[k], m), Unit(k, a), Unit(k, b), R0 >>, mu[k], m)
PowJet(mu, m, a, b, k, q) == LET x == MuJet(mu, m, a, b, k)
                             IN IF q = 0 THEN J1 ELSE JPow(x, q)
RECURSIVE OgdenSum(_, _, _, _, _, _)
OgdenSum(ts, i, mu, m, a, b) ==
  IF i > Len(ts) THEN J0
  ELSE LET al == RFrac(ts[i].q, m)
           f(k) == PowJet(mu, m, a, b, k, ts[i].q)
       IN JAdd(JScale(RDiv(RMul(RInt(2), Num(ts[i].mu)), RMul(al, al)), JAdd(f(1), JAdd(f(2), f(3)))),
               OgdenSum(ts, i + 1, mu, m, a, b))
RECURSIVE MeasJet(_, _, _, _, _, _, _)
MeasJet(ts, i, mu, m, a, b, k) ==
  IF i > Len(ts) THEN J0
  ELSE JAdd(JScale(Num(ts[i].a), PowJet(mu, m, a, b, k, ts[i].q)), MeasJet(ts, i + 1, mu, m, a, b, k))
GenJets(e, mu, m, a, b) ==
  LET f(k) == JAddC(MeasJet(e.m.t, 1, mu, m, a, b, k), Num(e.m.b))
      e1 == f(1)
      e2 == f(2)
      e3 == f(3)
      i1 == JAdd(e1, JAdd(e2, e3))
      i2 == JAdd(JMul(e1, e2), JAdd(JMul(e2, e3), JMul(e1, e3)))
      i3 == JMul(e1, JMul(e2, e3))
  IN E!Normalize(e.m, m, i1, i2, i3)
StretchJet(e, mu, m, a, b) ==
  IF e.k = "ogden" THEN OgdenSum(e.t, 1, mu, m, a, b)
  ELSE LET I == GenJets(e, mu, m, a, b) IN E!JInner(e, I[1], I[2], I[3], R1)
Mu(c, p) == << Num(c.x[p + 1][1]), Num(c.x[p + 1][2]), Num(c.x[p + 1][3]) >>
\* values of derivatives grow with the inverse stretch
Grow(mu, m) == LET l(k) == Lam(mu[k], m)
               IN RMul(RInt(4), RMax(R1, RDiv(R1, RMin(l(1), RMin(l(2), l(3))))))

StretchesClause(c) ==
  LET t == c.trail
      P == 0..(Prod(t) - 1)
      none == << R0, R0, R0 >>
      sc(p) == LET mu == Mu(c, p)
                   J == IF c.en.k = "ogden" THEN none ELSE
                          LET I == GenJets(c.en, mu, c.n, 1, 1) IN << I[1][1], I[2][1], I[3][1] >>
               IN RMul(Tol(c), E!CompScale(c.en, J, mu, R1, c.n))
      G(p, a) == RLeq(RAbs(RSub(Value(c.g[a], t, p), StretchJet(c.en, Mu(c, p), c.n, a, a)[2])),
                      RMul(Grow(Mu(c, p), c.n), sc(p)))
      H(p, k) == RLeq(RAbs(RSub(Value(c.h[k], t, p), StretchJet(c.en, Mu(c, p), c.n, PairA[k], PairB[k])[4])),
                      RMul(RMul(Grow(Mu(c, p), c.n), Grow(Mu(c, p), c.n)), sc(p)))
  IN IF Len(c.x) # Prod(t) THEN "machinery: points"
     ELSE IF Len(c.g) # 3 \/ Len(c.h) # 6 THEN "number of derivatives"
     ELSE IF \E a \in 1..3 : c.g[a].none = 1 THEN "absent first derivative"
     ELSE IF \E k \in 1..6 : c.h[k].none = 1 /\ (c.en.k # "ogden" \/ k <= 3) THEN "absent second derivative"
     ELSE IF \E a \in 1..3 : ~EntryOK(c.g[a], t, <<>>) THEN "shape of the gradient"
     ELSE IF \E k \in 1..6 : ~EntryOK(c.h[k], t, <<>>) THEN "shape of the hessian"
     ELSE IF \E p \in P, a \in 1..3 : ~G(p, a) THEN "gradient"
     ELSE IF \E p \in P, k \in 1..6 : ~H(p, k) THEN "hessian"
     ELSE "ok"

-----------------------------------------------------------------------------
(* Strain measures: g = <<E, E', E''>> at the stretches, ref as returned.    *)
MeasureClause(c) ==
  LET t == c.trail
      P == 0..(Prod(t) - 1)
      \* one stretch per point, first entry of the triple
      Z(p) == LET mu == Mu(c, p)
                  x == MeasJet(c.en.m.t, 1, mu, c.n, 1, 1, 1)
              IN << RAdd(x[1], Num(c.en.m.b)), x[2], x[4] >>
      sc(p) == LET mu == Mu(c, p)
                   big == RMax(R1, RDiv(R1, Lam(mu[1], c.n)))
                   q(s) == RMul(RAdd(R1, RFrac(s.q, c.n)), RAdd(R1, RFrac(s.q, c.n)))
                   f(s) == RMul(RMul(RAdd(R1, q(s)), RAbs(Num(s.a))), E!RP(mu[1], s.q))
               IN RMul(Tol(c), RMul(RMul(big, big), RAdd(RAdd(E!MeasSum(f, c.en.m.t, 1), RAbs(Num(c.en.m.b))), R1)))
      RefOK(k) == c.g[3 + k].none = 0 /\ c.g[3 + k].a.s = <<>> /\ RLeq(RAbs(RSub(Value(c.g[3 + k], <<>>, 0), Num(c.en.m.ref[k]))), Tol(c))
  IN IF Len(c.g) # 6 THEN "number of values"
     ELSE IF \E k \in 1..3 : c.g[k].none = 1 \/ ~EntryOK(c.g[k], t, <<>>) THEN "shape of the measure"
     ELSE IF \E k \in 1..3 : ~RefOK(k) THEN "reference values"
     ELSE IF \E p \in P, k \in 1..3 : ~RLeq(RAbs(RSub(Value(c.g[k], t, p), Z(p)[k])), sc(p)) THEN "derivatives of the measure"
     ELSE "ok"

\* invariants received by the inner model (g = I1, I2, I3)
NormalClause(c) ==
  LET t == c.trail
      P == 0..(Prod(t) - 1)
      I(p) == LET J == GenJets(c.en, Mu(c, p), c.n, 1, 1) IN << J[1][1], J[2][1], J[3][1] >>
      sc(p) == LET g == RAdd(RAdd(E!MeasScale(c.en.m.t, 1, Mu(c, p)), RAbs(Num(c.en.m.b))), R1)
                   m == E!Norm(c.en.m, c.n)
               IN RMul(Tol(c), RMul(RMul(RInt(9), RPow(g, 3)), RSum3(R1, RAbs(m[1]), RAbs(m[2]))))
      one(p) == \A k \in 1..3 : Mu(c, p)[k] = R1
      \* at the undeformed state: 3 E0, 3 E0^2, E0^3 without any normalization
      e0 == E!MeasE(c.en.m)
      U == << RMul(RInt(3), e0), RMul(RInt(3), RMul(e0, e0)), RPow(e0, 3) >>
  IN IF Len(c.g) # 3 \/ \E k \in 1..3 : c.g[k].none = 1 \/ ~EntryOK(c.g[k], t, <<>>) THEN "invariants"
     ELSE IF \E p \in P, k \in 1..3 : ~RLeq(RAbs(RSub(Value(c.g[k], t, p), I(p)[k])), sc(p)) THEN "normalized invariants"
     ELSE IF \E p \in P : one(p) /\ \E k \in 1..3 : ~RLeq(RAbs(RSub(Value(c.g[k], t, p), U[k])), sc(p))
          THEN "invariants at the undeformed state"
     ELSE "ok"

\* W'' for D = diag(1, -1/2, -1/2) at the undeformed state on the
\* distortional space (h: 3,3,3,3): psi_1 J1''ref + psi_2 J2''ref
StiffClause(c) ==
  LET h == AtPoint(c.g[1].a, 4, <<>>, 0)
      d == << R1, RFrac(-1, 2), RFrac(-1, 2) >>
      w == RSumSeq(Eager([k \in 1..9 |-> LET i == ((k - 1) \div 3) + 1
                                              j == ((k - 1) % 3) + 1
                                          IN RMul(RMul(d[i], d[j]), T4(h, i, i, j, j))]))
      r == << Num(c.en.m.ref[1]), Num(c.en.m.ref[2]), Num(c.en.m.ref[3]) >>
      e0 == E!MeasE(c.en.m)
      U == << RMul(RInt(3), e0), RMul(RInt(3), RMul(e0, e0)), RPow(e0, 3) >>
      p1 == InnerJet(c.en, U, R1, 1, 1)[2]
      p2 == InnerJet(c.en, U, R1, 2, 2)[2]
      x == RAdd(RMul(p1, E!J1dd(r[1], r[2], r[3])), RMul(p2, E!J2dd(r[1], r[2], r[3])))
  IN IF c.g[1].none = 1 \/ c.g[1].a.s # <<3, 3, 3, 3>> \/ ~Finite(c.g[1].a) THEN "shape of the elasticity"
     ELSE IF \A k \in Live(c.en) : c.en.t[k].k = 0 THEN
            IF RLeq(RAbs(RSub(w, x)), RMul(Tol(c), RSum3(RAbs(p1), RAbs(p2), R1))) THEN "ok" ELSE "initial stiffness"
     ELSE "machinery: third invariant"

Clause(c) ==
  IF c.exc # "" THEN "raised " \o c.exc
  ELSE IF c.want # c.seen THEN "keyword arguments, state variables or precision not passed through"
  ELSE IF c.kind = "invariants" THEN InvariantsClause(c)
  ELSE IF c.kind = "stretches" THEN StretchesClause(c)
  ELSE IF c.kind = "measure" THEN MeasureClause(c)
  ELSE IF c.kind = "normal" THEN NormalClause(c)
  ELSE StiffClause(c)

-----------------------------------------------------------------------------
Init == n \in 1..Len(Cases) /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ verdict' = Clause(Cases[n])
        /\ (verdict' # "ok") => PrintT(<<"BAD", Cases[n].id, verdict'>>)
        /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, verdict>>
Accepted == verdict \in {"todo", "ok"}
Complete == TLCGet("stats").distinct = 2 * Len(Cases)
=============================================================================
