------------------------------ MODULE LabModel ------------------------------
(***************************************************************************)
(* Material formulations with labelled parameters.  c.labels: the labels in     *)
(* the order of the user; v: values (indices into the table of numbers) given    *)
(* by position; c.en: energy whose coefficients are labels; c.meas: measures of   *)
(* the generalized invariants by exponent.                                        *)
(***************************************************************************)
EXTENDS LabDef

\* labels are assigned by position
Value(c, v, label) == v[CHOOSE q \in 1..Len(c.labels) : c.labels[q] = label]
Term(c, v, t) == [t EXCEPT !.c = Value(c, v, t.c)]
OTerm(c, v, t) == [t EXCEPT !.mu = Value(c, v, t.mu)]
\* measure of the generalized invariants belonging to the exponent
Meas(c, v) == LET e == Num(Value(c, v, "exponent"))
                  q == CHOOSE q \in 1..Len(c.meas) : RMul(e, RInt(c.n)) = RInt(c.meas[q].q)
              IN c.meas[q].m
Component(c, v, e) ==
  IF e.k = "inv" THEN [e EXCEPT !.t = [q \in 1..Len(e.t) |-> Term(c, v, e.t[q])]]
  ELSE IF e.k = "ogden" THEN [e EXCEPT !.t = [q \in 1..Len(e.t) |-> OTerm(c, v, e.t[q])]]
  ELSE IF Len(c.meas) = 0 THEN [e EXCEPT !.t = [q \in 1..Len(e.t) |-> Term(c, v, e.t[q])]]
  ELSE [e EXCEPT !.t = [q \in 1..Len(e.t) |-> Term(c, v, e.t[q])], !.m = Meas(c, v)]
Energy(c, v) == [q \in 1..Len(c.en) |-> Component(c, v, c.en[q])]

\* parameter of the load path: the stretch is t^(2n)
Param(ld, t) == IF ld = "uniaxial" THEN t ELSE RMul(t, t)
=============================================================================
