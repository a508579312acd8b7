---------------------------- MODULE TraceHistory ----------------------------
(***************************************************************************)
(* Validates recorded evaluation histories against CallHistory: a call        *)
(* which completes returns what a fresh object returns for these arguments,    *)
(* whatever came before; it changes neither its arguments nor any result        *)
(* returned before; only an injected fault may leave a call.                    *)
(* res, before, after: contents (indices of distinct arrays).                    *)
(***************************************************************************)
EXTENDS Arrays
VARIABLES n, k, results, verdict

Content(i) == Doc.contents[i]
\* equal up to rounding
Same(i, j) == i = j \/ LET a == Content(i)
                           b == Content(j)
                       IN /\ a.s = b.s /\ Finite(a) /\ Finite(b)
                          /\ LET v == Vals(a)
                                 w == Vals(b)
                                 eps == RMul(RTen(-Doc.tol), RMaxAbs(w))
                             IN \A q \in 1..Len(v) : RLeq(RAbs(RSub(v[q], w[q])), eps)
Fresh(c, s) == Doc.fresh[c.graph][s.o][s.m][s.p]
Clause(c, s) ==
  IF s.exc # "" /\ (s.f = "-" \/ s.exc # "Boom") THEN "raised " \o s.exc
  ELSE IF s.before # s.after THEN "argument changed"
  ELSE IF s.kept # results THEN "earlier result changed"
  ELSE IF s.exc = "" /\ (Len(s.res) # Len(Fresh(c, s)) \/ \E q \in 1..Len(s.res) : ~Same(s.res[q], Fresh(c, s)[q]))
       THEN "result depends on the history"
  ELSE "ok"

Init == n \in 1..Len(Cases) /\ k = 1 /\ results = <<>> /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ LET c == Cases[n]
               s == c.steps[k]
               v == Clause(c, s)
           IN /\ verdict' = IF v # "ok" THEN v ELSE IF k = Len(c.steps) THEN "ok" ELSE "todo"
              /\ v # "ok" => PrintT(<<"BAD", c.id, v>>)
              /\ results' = Append(results, s.res)
        /\ k' = k + 1
        /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, k, results, verdict>>
Accepted == verdict \in {"todo", "ok"}
Complete == TLCGet("stats").distinct = Doc.total
=============================================================================
