----------------------------- MODULE OptSession -----------------------------
(***************************************************************************)
(* Fits of two optimizations O and U over time (C26).                           *)
(* O has the simulations S and T, U has the simulation T: T is shared.  A fit     *)
(* passes the phases                                                              *)
(*   init    residuals at the current parameters, simulations attached             *)
(*   search  candidates are evaluated                                              *)
(*   final   residuals at the candidate found                                      *)
(* and may fail in every phase at every evaluation of a material; parameters,      *)
(* errors and residuals may only be published when nothing can fail any more.       *)
(* A value is a token <<optimization, number of the fit>> of the fit which           *)
(* produced it; 0 stands for the initial values.  Simulations hold a reference        *)
(* (cell) to a parameter vector: "own" cells, or the cell of an optimization.          *)
(* The caller's array p0 is read once by both constructors.                              *)
(* Early, Alias: defective designs which have to be rejected.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Depth, Early, Alias, Emit
Opts == {"O", "U"}
Sims == {"S", "T"}
Cells == Sims \cup Opts \cup {"p0"}
Attached(o) == IF o = "O" THEN {"S", "T"} ELSE {"T"}
None == <<"-", 0>>
VARIABLES h,      \* events of the user: the history
          active, \* optimization being fitted
          phase,
          cand,   \* candidate of the running fit
          cell,   \* cell[c]: content of a parameter vector
          par,    \* par[o]: cell of the parameters of an optimization
          sim,    \* sim[s]: cell of the parameters of a simulation
          res, err, \* residuals and errors of an optimization belong to ...
          made,   \* number of fits made
          old     \* the optimization before the running fit
vars == <<h, active, phase, cand, cell, par, sim, res, err, made, old>>

Step(a, x, y) == [a |-> a, x |-> x, y |-> y]
Say(s) == /\ h' = Append(h, s)
          /\ (Emit /\ Len(h') = Depth) => PrintT("HIST " \o ToJson(h'))
\* the simulations are given arrays of their own or the caller's array p0
Init == \E own \in {"own", "p0"} :
        /\ h = << Step("init", own, "-") >> /\ active = "-" /\ phase = "idle" /\ cand = None
        /\ cell = [c \in Cells |-> <<c, 0>>]
        /\ par = [o \in Opts |-> IF Alias THEN "p0" ELSE o]
        /\ sim = [s \in Sims |-> IF own = "own" THEN s ELSE "p0"]
        /\ res = [o \in Opts |-> None] /\ err = [o \in Opts |-> None]
        /\ made = 0 /\ old = [par |-> None, res |-> None]
Values(o) == cell[par[o]]

\* ------------------------------------------------------------- a fit
Begin(o) == /\ phase = "idle" /\ Len(h) < Depth
            /\ phase' = "init" /\ active' = o
            /\ old' = [par |-> Values(o), res |-> res[o]]
            /\ UNCHANGED <<h, cand, cell, par, sim, res, err, made>>
Outcomes(p) == CASE p = "init" -> {"init-first", "init-last"}
                 [] p = "search" -> {"search-first", "search-mid", "search-last", "interrupt", "maxfev", "method"}
                 [] p = "final" -> {"final-first", "final-last"}
                 [] OTHER -> {}
Fail == \E f \in Outcomes(phase) :
          /\ Say(Step("fit", active, f))
          /\ phase' = "idle" /\ active' = "-" /\ cand' = None
          /\ UNCHANGED <<cell, par, sim, res, err, made, old>>
\* the residuals at the current parameters are known: attach the simulations
Start == /\ phase = "init" /\ phase' = "search"
         /\ res' = [res EXCEPT ![active] = Values(active)]
         /\ err' = [err EXCEPT ![active] = None]
         /\ sim' = [s \in Sims |-> IF s \in Attached(active) THEN par[active] ELSE sim[s]]
         /\ UNCHANGED <<h, active, cand, cell, par, made, old>>
Converge == /\ phase = "search" /\ phase' = "final" /\ made' = made + 1 /\ cand' = <<active, made + 1>>
            /\ cell' = IF Early THEN [cell EXCEPT ![par[active]] = cand'] ELSE cell
            /\ UNCHANGED <<h, active, par, sim, res, err, old>>
Finish == /\ phase = "final" /\ phase' = "idle" /\ active' = "-" /\ cand' = None
          /\ cell' = [cell EXCEPT ![par[active]] = cand]
          /\ res' = [res EXCEPT ![active] = cand] /\ err' = [err EXCEPT ![active] = cand]
          /\ Say(Step("fit", active, "ok"))
          /\ UNCHANGED <<par, sim, made, old>>
\* --------------------------------------------------- the user's own actions
Edit == /\ phase = "idle" /\ Len(h) < Depth /\ Len(h) + 1 < Depth
        /\ ~\E q \in 1..Len(h) : h[q].a = "edit"
        /\ cell' = [cell EXCEPT !["p0"] = <<"edit", 1>>]
        /\ Say(Step("edit", "-", "-"))
        /\ UNCHANGED <<active, phase, cand, par, sim, res, err, made, old>>
Stress(s) == /\ phase = "idle" /\ Len(h) < Depth /\ h[Len(h)].a \notin {"init", "stress"}
             /\ Say(Step("stress", s, "-"))
             /\ UNCHANGED <<active, phase, cand, cell, par, sim, res, err, made, old>>
\* the user gives an optimization other parameters, in place, as a start for the next fit
Restart(o) == /\ phase = "idle" /\ Len(h) + 1 < Depth /\ res[o] # None
              /\ ~\E q \in 1..Len(h) : h[q].a = "restart"
              /\ made' = made + 1
              /\ cell' = [cell EXCEPT ![par[o]] = <<o, made + 1>>]
              /\ Say(Step("restart", o, "-"))
              /\ UNCHANGED <<active, phase, cand, par, sim, res, err, old>>
Next == \/ \E o \in Opts : Begin(o) \/ Restart(o)
        \/ Fail \/ Start \/ Converge \/ Finish \/ Edit
        \/ \E s \in Sims : Stress(s)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
Idle == phase = "idle"
\* the last thing which happened to the optimization and changed it: a successful fit, or the user's restart
RECURSIVE LastOf(_, _)
LastOf(o, q) == IF q = 0 THEN "-"
                ELSE IF h[q].x = o /\ (h[q].a = "restart" \/ (h[q].a = "fit" /\ h[q].y = "ok")) THEN h[q].a
                ELSE LastOf(o, q - 1)
ResidualsBelong == Idle => \A o \in Opts : LastOf(o, Len(h)) = "fit" => res[o] = Values(o)
ErrorsBelong == Idle => \A o \in Opts : LastOf(o, Len(h)) = "fit" => err[o] \in {None, Values(o)}
\* simulations hold their own initial parameters or those of an optimization they are attached to
SimsBelong == \A s \in Sims : sim[s] \in {s, "p0"} \/ \E o \in Opts : s \in Attached(o) /\ sim[s] = par[o]
\* the simulations of a successful fit hold its parameters
LastFit == (Idle /\ Len(h) > 0 /\ h[Len(h)].a = "fit" /\ h[Len(h)].y = "ok")
             => LET o == h[Len(h)].x
                IN /\ res[o] = Values(o) /\ err[o] = Values(o) /\ Values(o)[1] = o
                   /\ \A s \in Attached(o) : cell[sim[s]] = Values(o)
\* a fit which failed leaves parameters and residuals of before (residuals at those parameters)
FailureKeeps == [][(phase # "idle" /\ phase' = "idle" /\ h'[Len(h')].y # "ok")
                     => /\ cell[par[active]] = old.par
                        /\ res[active] \in {old.res, old.par}]_vars
\* nothing but a fit of the optimization (or the user, by restart) changes its parameters, residuals and errors
OwnFitOnly == [][\A o \in Opts : <<Values(o), res[o], err[o]>>' # <<Values(o), res[o], err[o]>>
                   => active = o \/ (h' # h /\ h'[Len(h')] = Step("restart", o, "-"))]_vars
\* the caller's array is never written by a fit
CallerKept == [][cell'["p0"] # cell["p0"] => h' # h /\ h'[Len(h')].a = "edit"]_vars
=============================================================================
