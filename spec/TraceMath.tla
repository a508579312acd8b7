----------------------------- MODULE TraceMath -----------------------------
(***************************************************************************)
(* Validates recorded calls of the tensor helpers (C01-C04) against MathDef.*)
(* One state per recorded call and verdict; Next evaluates it.              *)
(***************************************************************************)
EXTENDS Arrays, MathDef
VARIABLES n, verdict

Tol(c) == IF c.tol = 0 THEN R0 ELSE RTen(-c.tol)

ShapeOK(c) ==
  LET ts == [k \in 1..Len(c.a) |-> Trail(c.a[k], Rank[c.op][k])]
      t == IF Len(c.a) = 0 THEN <<>>
           ELSE IF Len(c.a) = 1 THEN ts[1] ELSE Bcast(ts[1], ts[2])
      o == OutShape(c.op, c.n)
  IN c.out[1].s = o \o (IF c.op = "eye" THEN [k \in 1..Len(t) |-> 1] ELSE t)

Inputs(c) == \A k \in 1..Len(c.a) : Head_(c.a[k], Rank[c.op][k]) = ArgShape(c.op, k, c.n)

OpClause(c) ==
  LET rk == Rank[c.op]
      o == OutShape(c.op, c.n)
      ro == Len(o)
      t == Trail(c.out[1], ro)
      tol == Tol(c)
      PointOK(p) ==
        LET v == Eager([k \in 1..Len(c.a) |-> AtPoint(c.a[k], rk[k], t, p)])
            exp == Def(c.op, v, c.n)
            got == AtPoint(c.out[1], ro, t, p)
            eps == IF c.tol = 0 THEN R0 ELSE RMul(tol, Scale(c.op, v))
        IN \A k \in 1..Len(exp) : RLeq(RAbs(RSub(got[k], exp[k])), eps)
      bad == {p \in 0..(Prod(t) - 1) : ~PointOK(p)}
  IN IF bad = {} THEN "ok" ELSE "value"

EighClause(c) ==
  LET t == Trail(c.a[1], 1)
      q == {SpectralClause(AtPoint(c.a[1], 1, t, p), c.fun, AtPoint(c.out[1], 1, t, p),
                           AtPoint(c.out[2], 2, t, p), Tol(c)) : p \in 0..(Prod(t) - 1)} \ {"ok"}
  IN IF c.out[1].s # <<3>> \o t \/ c.out[2].s # <<3, 6>> \o t THEN "shape"
     ELSE IF q = {} THEN "ok" ELSE CHOOSE x \in q : TRUE

Clause(c) ==
  IF c.exc # "" THEN "raised " \o c.exc
  ELSE IF \E k \in 1..Len(c.out) : ~Finite(c.out[k]) THEN "not-finite"
  ELSE IF c.op = "eigh" THEN EighClause(c)
  ELSE IF ~Inputs(c) THEN "machinery: bad case"
  ELSE IF ~ShapeOK(c) THEN "shape"
  ELSE OpClause(c)

-----------------------------------------------------------------------------
Init == n \in 1..Len(Cases) /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ verdict' = Clause(Cases[n])
        /\ (verdict' # "ok") => PrintT(<<"BAD", Cases[n].id, verdict'>>)
        /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, verdict>>
Accepted == verdict \in {"todo", "ok"}
\* every recorded call was evaluated
Complete == TLCGet("stats").distinct = 2 * Len(Cases)
=============================================================================
