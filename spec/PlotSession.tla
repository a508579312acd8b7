----------------------------- MODULE PlotSession ----------------------------
(***************************************************************************)
(* Plots over time (C28).  E: an experiment, S: a simulation, O: an              *)
(* optimization of the two.  Axes: "m1", "m2": two axes of one figure made by       *)
(* the user, further ones are made by plots.  An axes is the sequence of the          *)
(* curves drawn on it; a curve shows an object as it was when it was drawn.            *)
(* Gca = TRUE: a defective design which draws on the current axes.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Depth, Gca, Emit
VARIABLES h, axes, ver, current, last
vars == <<h, axes, ver, current, last>>
Objects == {"E", "S"}
Kinds(o) == IF o = "E" THEN {"ss", "fd"} ELSE {"ss"}
Step(a, o, k, w, l) == [a |-> a, o |-> o, k |-> k, w |-> w, l |-> l]
Do(s) == /\ h' = Append(h, s)
         /\ (Emit /\ Len(h') = Depth) => PrintT("HIST " \o ToJson(h'))
Curve(o, k, l) == [o |-> o, k |-> k, v |-> ver[o], l |-> l]
\* axes 1, 2 are the user's, the current one is the last one made
Init == /\ h = <<>> /\ axes = << <<>>, <<>> >> /\ ver = [o \in {"E", "S", "O"} |-> 0] /\ current = 2 /\ last = 0
Plot(o, k, w, l) ==
  LET ax == CASE w = "new" -> Len(axes) + 1 [] w = "m1" -> 1 [] w = "m2" -> 2 [] w = "last" -> Len(axes)
      target == IF Gca /\ w # "new" THEN current ELSE ax
      a == IF w = "new" THEN Append(axes, <<>>) ELSE axes
  IN /\ w = "last" => Len(axes) > 2
     /\ Do(Step("plot", o, k, w, l))
     /\ axes' = [a EXCEPT ![target] = Append(@, Curve(o, k, l))]
     /\ current' = IF w = "new" THEN ax ELSE current
     /\ last' = ax
     /\ UNCHANGED ver
\* a pair of curves for each experiment, on axes of its own
PlotFit(t) ==
  /\ Do(Step("fit", "O", "-", "new", t))
  /\ axes' = Append(axes, << Curve("S", "ss", "label of E"), Curve("E", "ss", "label of E (Experiment)") >>)
  /\ current' = Len(axes) + 1 /\ last' = Len(axes) + 1 /\ UNCHANGED ver
Change(o, k) == /\ Len(h) > 0 /\ Len(h) + 1 < Depth /\ h[Len(h)].a # "change"
                /\ Do(Step("change", o, k, "-", "-"))
                /\ ver' = [ver EXCEPT ![o] = @ + 1]
                /\ last' = 0 /\ UNCHANGED <<axes, current>>
\* another fit of the optimization: it also changes the parameters of the simulation
Refit == /\ Len(h) > 0 /\ Len(h) + 1 < Depth /\ h[Len(h)].a # "change"
         /\ Do(Step("change", "O", "fit", "-", "-"))
         /\ ver' = [ver EXCEPT !["O"] = @ + 1, !["S"] = @ + 1]
         /\ last' = 0 /\ UNCHANGED <<axes, current>>
Next == /\ Len(h) < Depth
        /\ \/ \E o \in Objects : \E k \in Kinds(o), w \in {"new", "m1", "m2", "last"}, l \in {"own", "given"} : Plot(o, k, w, l)
           \/ \E t \in {"title", "none"} : PlotFit(t)
           \/ Change("E", "data") \/ Change("E", "label") \/ Change("S", "parameters") \/ Change("S", "label")
           \/ Refit
Spec == Init /\ [][Next]_vars

IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
\* curves are only added, and only to the axes returned
Appended == [][\A q \in 1..Len(axes) : IsPrefix(axes[q], axes'[q]) /\ (q # last' => axes'[q] = axes[q])]_vars
\* one curve per plot, two per experiment of an optimization
Count == [][LET s == h'[Len(h')]
                n == IF s.a = "plot" THEN 1 ELSE IF s.a = "fit" THEN 2 ELSE 0
            IN n > 0 => Len(axes'[last']) = n + (IF last' > Len(axes) THEN 0 ELSE Len(axes[last']))]_vars
\* a new curve shows the object as it is now
Now == [][\A q \in 1..Len(axes') : \A x \in 1..Len(axes'[q]) :
            (q > Len(axes) \/ x > Len(axes[q])) => axes'[q][x].v = ver[axes'[q][x].o]]_vars
=============================================================================
