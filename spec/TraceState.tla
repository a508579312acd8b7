----------------------------- MODULE TraceState -----------------------------
(***************************************************************************)
(* Validates recorded steppings against StateVars: the material receives        *)
(* exactly the caller's committed state in every evaluation, the stress          *)
(* evaluation returns the state produced by the material, results belong to      *)
(* the committed (old) state, and the arguments keep their values.               *)
(* log: material calls [m, z, new] of one evaluation, all values contents.       *)
(***************************************************************************)
EXTENDS Arrays
VARIABLES n, k, committed, trial, verdict

Content(i) == Doc.contents[i]
Same(i, j) == i = j \/ LET a == Content(i)
                           b == Content(j)
                       IN /\ a.s = b.s /\ Finite(a) /\ Finite(b)
                          /\ LET v == Vals(a)
                                 w == Vals(b)
                                 eps == RMul(RTen(-Doc.tol), RMax(R1, RMaxAbs(w)))
                             IN \A q \in 1..Len(v) : RLeq(RAbs(RSub(v[q], w[q])), eps)
Produced(s) == LET g == {q \in 1..Len(s.log) : s.log[q].m = "gradient"}
                   q == CHOOSE x \in g : \A y \in g : y <= x
               IN s.log[q].new
Clause(c, s) ==
  IF s.a \in {"accept", "reject", "restart"} THEN "ok"
  ELSE IF s.exc # "" THEN "raised " \o s.exc
  ELSE IF s.z # committed THEN "machinery: caller"
  ELSE IF \E q \in 1..Len(s.log) : s.log[q].z # committed THEN "material received other state variables"
  ELSE IF ~\E q \in 1..Len(s.log) : s.log[q].m = s.a THEN "material not evaluated"
  ELSE IF s.a = "gradient" /\ s.zout # Produced(s) THEN "returned state variables are not those of the material"
  ELSE IF s.after # s.before THEN "argument changed"
  ELSE IF \E q \in 1..Len(s.res) : ~Same(s.res[q], s.ref[q]) THEN "result does not belong to the old state"
  ELSE "ok"
\* first step: the initial variables
InitClause(c) ==
  IF c.x0 # c.eye THEN "initial deformation gradient"
  ELSE IF c.xz # c.zeros THEN "initial state variables" ELSE "ok"

Init == n \in 1..Len(Cases) /\ k = 0 /\ committed = <<>> /\ trial = <<>> /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ LET c == Cases[n]
           IN IF k = 0 THEN
                LET v == InitClause(c)
                IN /\ verdict' = IF v # "ok" THEN v ELSE "todo"
                   /\ v # "ok" => PrintT(<<"BAD", c.id, v>>)
                   /\ committed' = c.start /\ trial' = c.start
              ELSE
                LET s == c.steps[k]
                    v == Clause(c, s)
                IN /\ verdict' = IF v # "ok" THEN v ELSE IF k = Len(c.steps) THEN "ok" ELSE "todo"
                   /\ v # "ok" => PrintT(<<"BAD", c.id, v>>)
                   /\ trial' = IF s.a = "gradient" /\ v = "ok" THEN s.zout
                               ELSE IF s.a = "reject" THEN committed
                               ELSE IF s.a = "restart" THEN c.start ELSE trial
                   /\ committed' = IF s.a = "accept" THEN trial ELSE IF s.a = "restart" THEN c.start ELSE committed
        /\ k' = k + 1
        /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, k, committed, trial, verdict>>
Accepted == verdict \in {"todo", "ok"}
Complete == TLCGet("stats").distinct = Doc.total
=============================================================================
