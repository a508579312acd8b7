------------------------------ MODULE TraceOpt ------------------------------
(***************************************************************************)
(* Validates recorded sessions of fits against OptSession (C26).                *)
(*  case: [setup, p0, sim, own, steps], the first step is the initial one          *)
(*  setup (Doc.setups): [np, A, y, AS]: per optimization the design matrix of its    *)
(*   (linear) model at its data points and the measured stresses; per simulation      *)
(*   the design matrix at its own stretch                                             *)
(*  step: [a, x, y, exc, fault, ret, mtol, par, resid, err, sim, p0, own, kept]         *)
(*   all of ret ... kept: contents (indices into Doc.contents, 0: absent)              *)
(*  fault: whether a failure has been injected (and has been reached)                   *)
(* Nothing is asked of how the result is stored (live arrays or copies): a result        *)
(* returned before is the result of then or of now.                                      *)
(***************************************************************************)
EXTENDS Arrays
VARIABLES n, k, par, resid, err, sim, p0, own, kept, shared, verdict
vars == <<n, k, par, resid, err, sim, p0, own, kept, shared, verdict>>

Content(i) == Doc.contents[i]
Setup(c) == Doc.setups[c.setup]
Attached(o) == IF o = "O" THEN {"S", "T"} ELSE {"T"}
Other(o) == IF o = "O" THEN "U" ELSE "O"

At(a, q, j, np) == Num(a.d[(q - 1) * np + j])
Dot(a, p, np, q) == RSumSeq([j \in 1..np |-> RMul(At(a, q, j, np), Num(p.d[j]))])
Abs(a, p, np, q) == RSumSeq([j \in 1..np |-> RAbs(RMul(At(a, q, j, np), Num(p.d[j])))])
\* r = A p - y
ResidualsAt(c, o, r, p) ==
  LET u == Setup(c)
      A == u.A[o]
      y == u.y[o]
      N == Len(y.d)
  IN /\ r.s = <<N>> /\ Finite(r)
     /\ \A q \in 1..N : RLeq(RAbs(RSub(Num(r.d[q]), RSub(Dot(A, p, u.np, q), Num(y.d[q])))),
                             RMul(RTen(-c.tol), RAdd(Abs(A, p, u.np, q), RAbs(Num(y.d[q])))))
Minimal(c, o, r, p, mtol) ==
  LET u == Setup(c)
      A == u.A[o]
      y == u.y[o]
      N == Len(y.d)
  IN \A j \in 1..u.np :
       RLeq(RAbs(RSumSeq([q \in 1..N |-> RMul(At(A, q, j, u.np), Num(r.d[q]))])),
            RMul(RTen(-mtol), RSumSeq([q \in 1..N |-> RMul(RAbs(At(A, q, j, u.np)), RAdd(Abs(A, p, u.np, q), RAbs(Num(y.d[q]))))])))
Errors(c, e, pcov, np) ==
  /\ e.s = <<np>> /\ pcov.s = <<np, np>> /\ Finite(e) /\ Finite(pcov)
  /\ \A j \in 1..np : LET v == Num(pcov.d[(j - 1) * np + j])
                      IN RSgn(Num(e.d[j])) >= 0 /\ RLeq(RAbs(RSub(RMul(Num(e.d[j]), Num(e.d[j])), v)), RMul(RTen(-12), RAbs(v)))
NoErrors(i) == i = 0 \/ \A j \in 1..Len(Content(i).d) : ~RFinite(Num(Content(i).d[j]))

\* a fit of o which returned
FitOk(c, s, o) ==
  LET np == Setup(c).np
      p == Content(s.ret[1])
      r == Content(s.resid[o])
  IN IF p.s # <<np>> \/ ~Finite(p) THEN "returned parameters"
     ELSE IF s.par[o] # s.ret[1] THEN "parameters are not those returned"
     ELSE IF \E q \in Attached(o) : s.sim[q] # s.ret[1] THEN "simulations do not hold the parameters returned"
     ELSE IF s.resid[o] = 0 \/ s.err[o] = 0 THEN "no residuals or errors"
     ELSE IF ~ResidualsAt(c, o, r, p) THEN "residuals are not those of the parameters returned"
     ELSE IF ~Minimal(c, o, r, p, s.mtol) THEN "not minimal"
     ELSE IF ~Errors(c, Content(s.err[o]), Content(s.ret[2]), np) THEN "errors are not those of the covariance returned"
     ELSE "ok"
\* a fit of o which failed
FitFailed(c, s, o) ==
  IF s.par[o] # par[o] THEN "a failed fit changed the parameters"
  ELSE IF s.resid[o] # resid[o] /\ (s.resid[o] = 0 \/ ~ResidualsAt(c, o, Content(s.resid[o]), Content(par[o])))
       THEN "a failed fit changed the residuals"
  ELSE IF s.err[o] # err[o] /\ ~NoErrors(s.err[o]) THEN "a failed fit changed the errors"
  ELSE IF \E q \in Attached(o) : s.sim[q] \notin {sim[q], par[o]} THEN "a failed fit changed a simulation"
  ELSE "ok"
\* stress of a simulation at the parameters it holds
StressOk(c, s, q) ==
  LET u == Setup(c)
      A == u.AS[q]
      r == Content(s.ret[1])
      N == Len(A.d) \div u.np
      p == Content(sim[q])
  IN /\ r.s = <<N>> /\ Finite(r)
     /\ \A x \in 1..N : RLeq(RAbs(RSub(Num(r.d[x]), Dot(A, p, u.np, x))), RMul(RTen(-c.tol), Abs(A, p, u.np, x)))

Same(s, o) == s.par[o] = par[o] /\ s.resid[o] = resid[o] /\ s.err[o] = err[o]
SimSame(s, q) == s.sim[q] = sim[q]
Action(c, s) ==
  CASE s.a = "fit" ->
         LET o == s.x
             v == IF s.exc # "" THEN (IF s.fault = 1 THEN FitFailed(c, s, o) ELSE "raised " \o s.exc) ELSE FitOk(c, s, o)
         IN IF v # "ok" THEN v
            ELSE IF ~Same(s, Other(o)) THEN "another optimization changed"
            ELSE IF \E q \in {"S", "T"} \ Attached(o) : ~SimSame(s, q) THEN "a simulation which is not attached changed"
            ELSE IF s.p0 # p0 THEN "the caller's initial parameters changed"
            ELSE "ok"
    [] s.a = "stress" ->
         IF s.exc # "" THEN "raised " \o s.exc
         ELSE IF ~StressOk(c, s, s.x) THEN "stress"
         ELSE IF ~Same(s, "O") \/ ~Same(s, "U") \/ ~SimSame(s, "S") \/ ~SimSame(s, "T") \/ s.p0 # p0 THEN "an evaluation changed something"
         ELSE "ok"
    [] s.a = "edit" ->
         IF ~Same(s, "O") \/ ~Same(s, "U") THEN "an optimization depends on the caller's array"
         ELSE IF \E q \in {"S", "T"} : s.sim[q] # sim[q] /\ ~(q \in shared /\ s.sim[q] = s.p0) THEN "a simulation depends on the caller's array"
         ELSE "ok"
    [] s.a = "restart" ->
         IF ~Same(s, Other(s.x)) THEN "another optimization changed"
         ELSE IF \E q \in {"S", "T"} : s.sim[q] # sim[q] /\ ~(q \in Attached(s.x) /\ s.sim[q] = s.par[s.x]) THEN "a simulation changed"
         ELSE IF s.p0 # p0 THEN "the caller's initial parameters changed"
         ELSE "ok"
    [] OTHER -> "machinery: action"
\* kept: sequence of [o, p, v]: returned parameters and covariance
Kept(c, s) == /\ Len(s.kept) >= Len(kept)
              /\ \A q \in 1..Len(kept) : /\ s.kept[q].o = kept[q].o /\ s.kept[q].v = kept[q].v
                                         /\ s.kept[q].p \in {kept[q].p, s.par[kept[q].o]}
Clause(c, s) ==
  LET v == Action(c, s)
  IN IF v # "ok" THEN v
     ELSE IF s.own # own THEN "the caller's arrays changed"
     ELSE IF ~Kept(c, s) THEN "an earlier result changed"
     ELSE "ok"

Init == /\ n \in 1..Len(Cases) /\ k = 2 /\ verdict = "todo"
        /\ LET s == Cases[n].steps[1]
           IN /\ par = s.par /\ resid = s.resid /\ err = s.err /\ sim = s.sim /\ p0 = s.p0 /\ own = s.own /\ kept = <<>>
              /\ shared = IF s.x = "p0" THEN {"S", "T"} ELSE {}
Next == /\ verdict = "todo"
        /\ LET c == Cases[n]
               s == c.steps[k]
               v == Clause(c, s)
           IN /\ verdict' = IF v # "ok" THEN v ELSE IF k = Len(c.steps) THEN "ok" ELSE "todo"
              /\ v # "ok" => PrintT(<<"BAD", c.id, v>>)
              /\ par' = s.par /\ resid' = s.resid /\ err' = s.err /\ sim' = s.sim /\ p0' = s.p0 /\ own' = s.own /\ kept' = s.kept
              /\ shared' = IF s.a = "fit" /\ s.exc = "" THEN shared \ Attached(s.x) ELSE shared
        /\ k' = k + 1
        /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
Accepted == verdict \in {"todo", "ok"}
Complete == TLCGet("stats").distinct = Doc.total
=============================================================================
