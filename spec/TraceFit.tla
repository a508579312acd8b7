------------------------------ MODULE TraceFit ------------------------------
(***************************************************************************)
(* Validates recorded fits (C27): residuals of exactly the selected data        *)
(* points at the returned parameters, minimality, parameter errors, recovery of    *)
(* generated data.                                                                 *)
(*  case: LabFit fields and p, pcov (returned), par, errs, resid (state of the       *)
(*  optimization), norm, mean (reports), linear, truth                               *)
(***************************************************************************)
EXTENDS Arrays
F == INSTANCE LabFit WITH Num <- Num
VARIABLES n, verdict

Rel(a, b, t) == RLeq(RAbs(RSub(a, b)), RMul(t, RAbs(b)))
Fit(c) ==
  LET np == Len(c.labels)
      pts == F!DataPoints(c)
      N == Len(pts)
      p == Vals(c.p)
      r == Vals(c.resid)
      e == Vals(c.errs)
      \* the energy is linear: A p, else the model at p
      Sim(q) == F!Simulated(c, c.p.d, pts[q])
      sc == Eager([q \in 1..N |-> F!Magnitude(c, c.p.d, pts[q])])
      A == F!Columns(c)
      wr == Eager([q \in 1..N |-> RMul(F!Weight(c, q), r[q])])
      wsc == Eager([q \in 1..N |-> RMul(F!Weight(c, q), sc[q])])
      rr == RSumSeq([q \in 1..N |-> RMul(r[q], r[q])])
      ss == RSumSeq([q \in 1..N |-> RMul(sc[q], sc[q])])
      mean == RDiv(RSumSeq([q \in 1..np |-> RDiv(e[q], RAbs(p[q]))]), RInt(np))
  IN IF \E x \in 1..Len(c.exps) : ~F!StretchOK(c, x) THEN "machinery: stretch"
     ELSE IF c.p.s # <<np>> \/ c.pcov.s # <<np, np>> \/ c.errs.s # <<np>> THEN "shape"
     ELSE IF c.resid.s # <<N>> THEN "number of residuals"
     ELSE IF ~F!Within(c, p) THEN "bounds"
     ELSE IF c.par # c.p THEN "parameters of the optimization"
     ELSE IF ~(Finite(c.p) /\ Finite(c.pcov) /\ Finite(c.resid) /\ Finite(c.errs)) THEN "not finite"
     ELSE IF c.exact = 1 /\ \E q \in 1..N : ~RLeq(RAbs(RSub(r[q], RSub(Sim(q), F!Measured(c, pts[q])))), RMul(RTen(-c.tol), sc[q]))
          THEN "residuals"
     ELSE IF c.linear = 1 /\ ~F!Minimal(c, A, wr, wsc, p, RTen(-c.mtol)) THEN "not minimal"
     ELSE IF c.covar = 1 /\ ~F!Covariance(c, A, wr, c.pcov.d, RTen(-c.ptol)) THEN "covariance"
     ELSE IF \E q \in 1..np : RSgn(e[q]) < 0 \/ ~Rel(RMul(e[q], e[q]), Num(c.pcov.d[(q - 1) * np + q]), RTen(-12)) THEN "parameter errors"
     ELSE IF Len(c.truth) > 0 /\ \E q \in 1..np : ~RLeq(RAbs(RSub(p[q], Num(c.truth[q]))), RMul(RTen(-c.rtol), RMax(R1, RAbs(Num(c.truth[q])))))
          THEN "generated data not recovered"
     ELSE IF ~Rel(RMul(Num(c.norm), Num(c.norm)), rr, RTen(-11)) THEN "norm of the residuals"
     ELSE IF ~RLeq(RAbs(RSub(Num(c.mean), RMul(RInt(100), mean))), RMul(RTen(-11), RMul(RInt(100), mean))) THEN "mean relative deviation"
     ELSE "ok"
Clause(c) == IF c.exc # "" THEN "raised " \o c.exc ELSE Fit(c)

Init == n \in 1..Len(Cases) /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ verdict' = Clause(Cases[n])
        /\ (verdict' # "ok") => PrintT(<<"BAD", Cases[n].id, verdict'>>)
        /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, verdict>>
Accepted == verdict \in {"todo", "ok"}
Complete == TLCGet("stats").distinct = 2 * Len(Cases)
=============================================================================
