------------------------------ MODULE TraceSim ------------------------------
(***************************************************************************)
(* Validates recorded uses of simulations against LabSim: every evaluation     *)
(* returns the derivative of the strain energy along the load path, for the      *)
(* values of the labels (by position) in the container the simulation refers      *)
(* to, at the stretch it refers to; containers, stretches and results returned     *)
(* before stay as they are.                                                        *)
(*                                                                                *)
(* case: [labels, en, meas, space, n, ts, xs, vals, fit, steps]                     *)
(*  en: energy template, coefficients are labels; vals[c]: values of the versions    *)
(*  of container c; fit: values used by "fit"; ts / xs: path parameters and            *)
(*  stretches (arrays); step: [a, x, y, exc, res, par, str, prev]                      *)
(***************************************************************************)
EXTENDS Arrays
M == INSTANCE LabModel WITH Num <- Num
VARIABLES n, k, par, ver, str, load, prev, verdict
vars == <<n, k, par, ver, str, load, prev, verdict>>

Content(i) == Doc.contents[i]
SeqOf(i) == Content(i).d

-----------------------------------------------------------------------------
\* the curve of load case ld at the stretches x for the values v
CurveClause(c, got, v, ld, x) ==
  LET ts == c.ts[x]
      en == M!Energy(c, v)
      Exp(q) == M!SimStress(c.space, en, ld, M!Param(ld, Num(ts[q])), c.n)
      Sc(q) == M!SimScale(c.space, en, ld, M!Param(ld, Num(ts[q])), c.n)
      Ok(q) == RLeq(RAbs(RSub(Num(got.d[q]), Exp(q))), RMul(RTen(-c.tol), Sc(q)))
  IN IF \E q \in 1..Len(ts) : M!StretchAt(ld, M!Param(ld, Num(ts[q])), c.n) # Num(c.xs[x][q]) THEN "machinery: stretch"
     ELSE IF got.s # <<Len(ts)>> THEN "shape"
     ELSE IF ~Finite(got) THEN "not finite"
     ELSE IF \E q \in 1..Len(ts) : ~Ok(q) THEN "stress"
     ELSE "ok"

Eval(c, s) == CASE s.a = "stress" -> CurveClause(c, Content(s.res), c.vals[par[s.x]][ver[par[s.x]] + 1], load[s.x], str[s.x])
                [] s.a = "fit" -> CurveClause(c, Content(s.res), c.fit, load[s.x], s.y)
                [] OTHER -> "ok"
Ver(s) == IF s.a = "mutate" THEN [ver EXCEPT ![s.x] = @ + 1] ELSE ver
Clause(c, s) ==
  LET e == IF s.exc # "" THEN "raised " \o s.exc ELSE Eval(c, s)
  IN IF e # "ok" THEN e
     ELSE IF \E q \in DOMAIN s.par : SeqOf(s.par[q]) # c.vals[q][Ver(s)[q] + 1] THEN "parameters changed"
     ELSE IF \E q \in DOMAIN s.str : SeqOf(s.str[q]) # c.xs[q] THEN "stretch changed"
     ELSE IF s.prev # prev THEN "earlier result changed"
     ELSE "ok"

Init == /\ n \in 1..Len(Cases) /\ k = 2 /\ verdict = "todo"
        /\ LET s == Cases[n].steps[1] IN par = [A |-> s.x, B |-> s.y]
        /\ ver = [P |-> 0, Q |-> 0] /\ str = [A |-> "s", B |-> "s"]
        /\ load = [A |-> "uniaxial", B |-> "planar"] /\ prev = <<>>
Next == /\ verdict = "todo"
        /\ LET c == Cases[n]
               s == c.steps[k]
               v == Clause(c, s)
           IN /\ verdict' = IF v # "ok" THEN v ELSE IF k = Len(c.steps) THEN "ok" ELSE "todo"
              /\ v # "ok" => PrintT(<<"BAD", c.id, v>>)
              /\ ver' = Ver(s)
              /\ par' = IF s.a = "assign" THEN [par EXCEPT ![s.x] = s.y] ELSE par
              /\ str' = IF s.a = "stretch" THEN [str EXCEPT ![s.x] = s.y] ELSE str
              /\ load' = IF s.a = "load" THEN [load EXCEPT ![s.x] = s.y] ELSE load
              /\ prev' = IF s.a \in {"stress", "fit"} THEN Append(prev, s.res) ELSE prev
        /\ k' = k + 1
        /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
Accepted == verdict \in {"todo", "ok"}
Complete == TLCGet("stats").distinct = Doc.total
=============================================================================
