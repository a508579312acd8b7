------------------------------- MODULE LabSim -------------------------------
(***************************************************************************)
(* Use of two simulations over time.  A simulation refers to a load case, a    *)
(* stretch array and a container of parameters; containers may be shared and     *)
(* may change in place.  ver[c] counts the changes of container c.  Every          *)
(* evaluation is determined by what the simulation refers to at that moment.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Depth, Mutable, Emit
Sims == {"A", "B"}
Containers == {"P", "Q"}
Stretches == {"s", "t"}
Loads == {"uniaxial", "planar", "biaxial"}
VARIABLES h, par, ver, str, load, last
vars == <<h, par, ver, str, load, last>>

Do(s) == /\ h' = Append(h, s)
         /\ (Emit /\ Len(h') = Depth) => PrintT("HIST " \o ToJson(h'))
Step(a, x, y) == [a |-> a, x |-> x, y |-> y]
Evaluation(a) == a \in {"stress", "fit"}
Init == /\ par \in {[A |-> "P", B |-> "P"], [A |-> "P", B |-> "Q"]}
        /\ h = << Step("init", par.A, par.B) >>
        /\ ver = [c \in Containers |-> 0]
        /\ str = [A |-> "s", B |-> "s"]
        /\ load = [A |-> "uniaxial", B |-> "planar"]
        /\ last = <<>>
Seen(s) == << par[s], ver[par[s]], str[s], load[s] >>
Stress(s) == /\ Do(Step("stress", s, "-")) /\ last' = Seen(s) /\ UNCHANGED <<par, ver, str, load>>
\* evaluation with other values at another stretch: no trace in the simulation
Fit(s, x) == /\ Do(Step("fit", s, x)) /\ last' = << "values", 0, x, load[s] >> /\ UNCHANGED <<par, ver, str, load>>
Mutate(c) == /\ Mutable /\ ver[c] < 2 /\ Do(Step("mutate", c, "-")) /\ ver' = [ver EXCEPT ![c] = @ + 1]
             /\ UNCHANGED <<par, str, load, last>>
Assign(s, c) == /\ par[s] # c /\ Do(Step("assign", s, c)) /\ par' = [par EXCEPT ![s] = c] /\ UNCHANGED <<ver, str, load, last>>
Stretch(s, x) == /\ str[s] # x /\ Do(Step("stretch", s, x)) /\ str' = [str EXCEPT ![s] = x] /\ UNCHANGED <<par, ver, load, last>>
Load(s, l) == /\ load[s] # l /\ Do(Step("load", s, l)) /\ load' = [load EXCEPT ![s] = l] /\ UNCHANGED <<par, ver, str, last>>
Next == /\ Len(h) < Depth
        /\ \E s \in Sims :
             \/ Stress(s)
             \/ \E x \in Stretches : Fit(s, x)
             \/ /\ Len(h) + 1 < Depth
                /\ \/ \E c \in Containers : Mutate(c) \/ Assign(s, c)
                   \/ \E x \in Stretches : Stretch(s, x)
                   \/ \E l \in Loads : Load(s, l)
Spec == Init /\ [][Next]_vars

\* evaluations change nothing
Pure == [][Evaluation(h'[Len(h')].a) => UNCHANGED <<par, ver, str, load>>]_vars
\* a simulation is affected by the other one only through a shared container
Separate == [][\A s \in Sims : h'[Len(h')].a \in {"assign", "stretch", "load"} /\ h'[Len(h')].x # s
                              => <<par[s], str[s], load[s]>>' = <<par[s], str[s], load[s]>>]_vars
=============================================================================
