------------------------------ MODULE TracePlot -----------------------------
(***************************************************************************)
(* Validates recorded sessions of plots against PlotSession (C28).              *)
(*  step: [a, o, k, w, l, exc, label, style, xl, yl, title, ax, figok, extra,        *)
(*         axes, obj, fit]                                                           *)
(*   label, style, xl, yl, title: given by the user (sequence of none or one)          *)
(*   ax: index of the axes returned, figok: the figure returned is the figure of         *)
(*   these axes; extra: number of figures which were made                                 *)
(*   axes: [curves, xl, yl, title]; a curve is [x, y, label, lw, color]                     *)
(*   obj: the objects as they are after the step (contents of their data, labels)             *)
(*   own (first step): load case, label given, label of the load case, of the simulation       *)
(*   fit: the optimization, pairs of simulation and experiment, the text shown                  *)
(***************************************************************************)
EXTENDS Arrays
VARIABLES n, k, axes, obj, verdict
vars == <<n, k, axes, obj, verdict>>
Content(i) == Doc.contents[i]

XLabel(kind) == IF kind = "fd" THEN "Displacement $d$" ELSE "Stretch $l/L$"
YLabel(kind) == IF kind = "fd" THEN "Force $F$" ELSE "Force per undeformed area $F/A$"
Or(given, own) == IF Len(given) > 0 THEN given[1] ELSE own
\* the points and the label of a curve; its style, if the user gave one
Shows(c, o, kind, label) == c.x = o[kind].x /\ c.y = o[kind].y /\ c.label = label
Styled(c, style) == Len(style) > 0 => c.lw = style[1].lw /\ c.color = style[1].color
IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Others(s, q0) == \A q \in 1..Len(axes) : q # q0 => s.axes[q] = axes[q]

Target(s) == CASE s.w = "new" -> Len(axes) + 1 [] s.w = "m1" -> 1 [] s.w = "m2" -> 2 [] s.w = "last" -> Len(axes)
PlotClause(s) ==
  LET q == Target(s)
      old == IF q > Len(axes) THEN <<>> ELSE axes[q].curves
      cs == s.axes[q].curves
      o == s.obj[s.o]
  IN IF s.ax # q THEN "axes returned"
     ELSE IF s.figok # 1 THEN "figure returned"
     ELSE IF s.extra # (IF s.w = "new" THEN 1 ELSE 0) THEN "figures made"
     ELSE IF ~Others(s, q) THEN "other axes changed"
     ELSE IF ~IsPrefix(old, cs) THEN "earlier curves changed"
     ELSE IF Len(cs) # Len(old) + 1 THEN "number of curves"
     ELSE IF cs[Len(cs)].x # o[s.k].x THEN "abscissae"
     ELSE IF cs[Len(cs)].y # o[s.k].y THEN "ordinates"
     ELSE IF cs[Len(cs)].label # Or(s.label, o.label) THEN "label"
     ELSE IF ~Styled(cs[Len(cs)], s.style) THEN "style"
     ELSE IF s.axes[q].xl # Or(s.xl, XLabel(s.k)) \/ s.axes[q].yl # Or(s.yl, YLabel(s.k)) THEN "axis labels"
     ELSE "ok"

\* a number is shown with d significant digits
Shown(x, v, tol) == (~RFinite(x) /\ ~RFinite(v)) \/ (RFinite(x) /\ RFinite(v) /\ RLeq(RAbs(RSub(x, v)), RMul(tol, RAbs(v))))
TextClause(f) ==
  LET p == Content(f.par)
      e == Content(f.err)
      r == Content(f.resid)
      np == Len(f.labels)
      rr == RSumSeq([q \in 1..Len(r.d) |-> RMul(Num(r.d[q]), Num(r.d[q]))])
      two == RFrac(51, 1000)
      norm == Num(f.norm)
      mean == RDiv(RMul(RInt(100), RSumSeq([q \in 1..np |-> RDiv(Num(e.d[q]), RAbs(Num(p.d[q])))])), RInt(np))
  IN IF Len(f.text) # np THEN "text: number of parameters"
     ELSE IF \E q \in 1..np : f.text[q].label # f.labels[q] THEN "text: labels"
     ELSE IF \E q \in 1..np : ~Shown(Num(f.text[q].p), Num(p.d[q]), two) THEN "text: parameters"
     ELSE IF \E q \in 1..np : ~Shown(Num(f.text[q].s), IF RFinite(Num(e.d[q])) THEN RMul(RInt(2), Num(e.d[q])) ELSE Num(e.d[q]), two) THEN "text: errors"
     ELSE IF ~Finite(r) THEN IF RFinite(norm) THEN "text: norm of unknown residuals" ELSE "ok"
     ELSE IF ~RLeq(RAbs(RSub(RMul(norm, norm), rr)), RMul(RFrac(11, 10000), rr)) THEN "text: norm of the residuals"
     ELSE IF \E q \in 1..np : ~RFinite(Num(e.d[q]))
          THEN IF RFinite(Num(f.mean)) THEN "text: mean deviation of unknown errors" ELSE "ok"
     ELSE IF ~RLeq(RAbs(RSub(Num(f.mean), mean)), RAdd(RFrac(501, 10000), RMul(RTen(-9), mean))) THEN "text: mean deviation"
     ELSE "ok"
FitClause(s) ==
  LET q == Len(axes) + 1
      f == s.fit
      cs == s.axes[q].curves
  IN IF s.ax # q THEN "axes returned"
     ELSE IF s.figok # 1 THEN "figure returned"
     ELSE IF s.extra # 1 THEN "figures made"
     ELSE IF ~Others(s, q) THEN "other axes changed"
     ELSE IF Len(cs) # 2 * Len(f.pairs) THEN "number of curves"
     ELSE IF \E x \in 1..Len(f.pairs) :
          LET p == f.pairs[x]
              sim == cs[2 * x - 1]
              ex == cs[2 * x]
          IN \/ ~Shows(sim, p.s, "ss", p.label) \/ ~Shows(ex, p.e, "ss", p.label \o " (Experiment)") \/ sim.color # ex.color
             \/ \E y \in 1..x - 1 : cs[2 * y].color = ex.color
          THEN "curves of an experiment"
     ELSE IF f.legend # [x \in 1..Len(cs) |-> cs[x].label] THEN "legend"
     ELSE IF s.axes[q].title # Or(s.title, "") THEN "title"
     ELSE IF s.axes[q].xl # XLabel("ss") \/ s.axes[q].yl # YLabel("ss") THEN "axis labels"
     ELSE TextClause(f)
\* labels at the beginning: given by the user, or those of the kind of the load case
LoadLabel(load) == CASE load = "uniaxial" -> "Uniaxial Tension" [] load = "planar" -> "Planar Tension" [] load = "biaxial" -> "Biaxial Tension"
Labelled(o) == LET l == Or(o.given, LoadLabel(o.load)) IN o.label = l /\ o.sim = l
FirstClause(s) == IF \A q \in DOMAIN s.own : Labelled(s.own[q]) THEN "ok" ELSE "label of an object"
Clause(s) ==
  IF s.exc # "" THEN "raised " \o s.exc
  ELSE IF s.a # "change" /\ s.obj # obj THEN "a plot changed an object"
  ELSE CASE s.a = "plot" -> PlotClause(s)
         [] s.a = "fit" -> FitClause(s)
         [] s.a = "change" -> IF s.axes # axes THEN "a change of an object changed a plot" ELSE "ok"

Init == /\ n \in 1..Len(Cases) /\ k = 2 /\ verdict = "todo"
        /\ axes = Cases[n].steps[1].axes /\ obj = Cases[n].steps[1].obj
Next == /\ verdict = "todo"
        /\ LET c == Cases[n]
               s == c.steps[k]
               w == IF k = 2 THEN FirstClause(c.steps[1]) ELSE "ok"
               v == IF w # "ok" THEN w ELSE Clause(s)
           IN /\ verdict' = IF v # "ok" THEN v ELSE IF k = Len(c.steps) THEN "ok" ELSE "todo"
              /\ v # "ok" => PrintT(<<"BAD", c.id, v>>)
              /\ axes' = s.axes /\ obj' = s.obj
        /\ k' = k + 1
        /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
Accepted == verdict \in {"todo", "ok"}
Complete == TLCGet("stats").distinct = Doc.total
=============================================================================
