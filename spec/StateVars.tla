----------------------------- MODULE StateVars -----------------------------
(***************************************************************************)
(* A caller (e.g. a finite element program) stepping a material with state     *)
(* variables.  States are tokens: 0 is the initial state, k the state produced  *)
(* by the k-th stress evaluation.  Trial states are accepted or rejected, the   *)
(* elasticity is evaluated at the last accepted state.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Depth, Points, Emit
VARIABLES h, committed, trial, made
vars == <<h, committed, trial, made>>

Do(a, p) == /\ h' = Append(h, [a |-> a, p |-> p])
            /\ (Emit /\ Len(h') = Depth) => PrintT("HIST " \o ToJson(h'))
Init == h = <<>> /\ committed = 0 /\ trial = 0 /\ made = 0
Gradient(p) == /\ Do("gradient", p) /\ made' = made + 1 /\ trial' = made + 1 /\ UNCHANGED committed
Hessian(p)  == /\ Do("hessian", p) /\ UNCHANGED <<committed, trial, made>>
Accept      == /\ trial # committed /\ Do("accept", "-") /\ committed' = trial /\ UNCHANGED <<trial, made>>
Reject      == /\ trial # committed /\ Do("reject", "-") /\ trial' = committed /\ UNCHANGED <<committed, made>>
Restart     == /\ committed # 0 /\ Do("restart", "-") /\ committed' = 0 /\ trial' = 0 /\ UNCHANGED made
Next == /\ Len(h) < Depth
        /\ (\E p \in Points : Gradient(p) \/ Hessian(p)) \/ Accept \/ Reject \/ Restart
Spec == Init /\ [][Next]_vars

\* the state changes only by acceptance (or restart): evaluations alone never advance it
OnlyAccepted == [][committed' # committed => h'[Len(h')].a \in {"accept", "restart"}]_vars
Known == committed <= made /\ trial <= made
=============================================================================
