----------------------------- MODULE TraceHeap -----------------------------
(***************************************************************************)
(* Validates recorded programs of tensor helper calls against the heap model. *)
(* A case is one program: initial contents of all objects (indices into the    *)
(* table of distinct contents), steps [op, args, out, exc, res, snap].          *)
(* The trace is walked step by step; heap: contents of the live objects.        *)
(***************************************************************************)
EXTENDS Arrays, MathDef, HeapSig
VARIABLES n, k, heap, reg, kind, verdict
vars == <<n, k, heap, reg, kind, verdict>>

Content(i) == Doc.contents[i]
RName(q) == <<"r1", "r2", "r3", "r4">>[q]
SameArray(i, j) == i = j   \* equal shape, type and bytes

\* definition by kinds; invd: inverse for a given determinant
Rank_(o, kd) == [S |-> 1, M |-> 2, T |-> 2, U |-> 4, N |-> 2, Z |-> 0, W |-> 4][kd]
Lead(kd) == [S |-> <<6>>, M |-> <<6, 6>>, T |-> <<3, 3>>, U |-> <<3, 3, 3, 3>>, N |-> <<3, 3>>, Z |-> <<>>,
             W |-> <<3, 3, 3, 3>>][kd]
RDef(op, v) ==
  IF op = "invd" THEN LET A == T!Full(v[1]) IN T!Red(T!MScale(RDiv(R1, v[2][1]), T!Transpose(T!Cof(A))))
  ELSE Def(op, v, 6)
RScale(op, v) ==
  IF op = "invd" THEN RDiv(RPow(RMaxAbs(v[1]), 2), RAbs(v[2][1])) ELSE Scale(op, v)

BcastAll(ts) == IF Len(ts) = 1 THEN ts[1] ELSE Bcast(ts[1], ts[2])

\* expected value of the array `got` (a content), computed from the operands' contents
ValueOK(op, args, got, buffered) ==
  LET a == [q \in 1..Len(args) |-> Content(args[q])]
      rk == [q \in 1..Len(args) |-> Len(Lead(Args(op)[q]))]
      rr == Len(Lead(Result(op)))
      ta == BcastAll([q \in 1..Len(args) |-> Trail(a[q], rk[q])])
      tg == Trail(got, rr)
      unit == [q \in 1..Len(ta) |-> 1]
      shape == /\ Len(got.s) >= rr /\ Head_(got, rr) = Lead(Result(op))
               /\ IF buffered THEN Len(tg) = Len(ta) /\ Bcast(ta, tg) = tg
                  ELSE IF op = "eye" THEN tg = unit ELSE tg = ta
      PointOK(p) ==
        LET v == Eager([q \in 1..Len(args) |-> AtPoint(a[q], rk[q], tg, p)])
            w == IF op = "eye" THEN <<v[1]>> ELSE v
            exp == RDef(op, w)
            g == AtPoint(got, rr, tg, p)
            eps == RMul(RTen(-Doc.tol), RScale(op, w))
        IN \A q \in 1..Len(exp) : RLeq(RAbs(RSub(g[q], exp[q])), eps)
  IN shape /\ Finite(got)
     /\ (op = "eye" => \A p \in 0..(Prod(tg) - 1) : AtPoint(got, 1, tg, p) = EyeOf)
     /\ (op # "eye" => \A p \in 0..(Prod(tg) - 1) : PointOK(p))

\* triangle copy into a buffer: the target triangle holds the operand's values, nothing else is written
Tri(op, a, old, got) ==
  /\ got.s = old.s
  /\ LET N == Prod(Trail(got, 2))
     IN \A i, j \in 0..5 : \A p \in 1..N :
          LET src == IF (op = "tril" /\ i > j) \/ (op = "triu" /\ i < j) THEN a.d[(6 * j + i) * N + p]
                     ELSE old.d[(6 * i + j) * N + p]
          IN got.d[(6 * i + j) * N + p] = src

Clause(s) ==
  LET op == s.op
      args == [q \in 1..Len(s.args) |-> heap[s.args[q]]]
      r == RName(k)
      out == s.out
      scratch == op \in {"cdya_ik", "cdya_il"}
      written == {o \in DOMAIN heap : out # "-" /\ reg[o] = reg[out]}
  IN IF s.exc # "" THEN "raised " \o s.exc
     ELSE IF \E o \in DOMAIN heap \ written : ~SameArray(s.snap[o], heap[o]) THEN "object changed by a call"
     ELSE IF out # "-" /\ Triangle(op) THEN
            IF ~Tri(op, Content(args[1]), Content(heap[out]), Content(s.snap[out])) THEN "buffer of a triangle copy"
            ELSE IF ~SameArray(s.snap[r], s.snap[out]) THEN "returned value differs from the buffer" ELSE "ok"
     ELSE IF op = "eigh" THEN "ok"
     ELSE IF ~ValueOK(op, args, Content(s.snap[r]), out # "-") THEN "value"
     ELSE IF out # "-" /\ ~scratch /\ ~SameArray(s.snap[r], s.snap[out]) THEN "returned value differs from the buffer"
     ELSE "ok"

-----------------------------------------------------------------------------
Init == /\ n \in 1..Len(Cases) /\ k = 1 /\ verdict = "todo"
        /\ heap = [o \in Objects |-> Doc.init[o]]
        /\ reg = Region /\ kind = Kind
Next == /\ verdict = "todo"
        /\ k <= Len(Cases[n].steps)
        /\ LET s == Cases[n].steps[k]
               v == Clause(s)
               r == RName(k)
               scratch == s.op \in {"cdya_ik", "cdya_il"}
               region == IF s.out # "-" /\ ~scratch THEN reg[s.out]
                         ELSE IF MayShare(s.op) THEN reg[s.args[1]] ELSE r
               \* earlier results in an overwritten region are unspecified from now on
               dead == IF s.out = "-" THEN {} ELSE {o \in DOMAIN heap \ Objects : reg[o] = reg[s.out]}
           IN /\ verdict' = IF v # "ok" THEN v ELSE IF k = Len(Cases[n].steps) THEN "ok" ELSE "todo"
              /\ v # "ok" => PrintT(<<"BAD", Cases[n].id, v>>)
              /\ heap' = IF s.exc # "" THEN heap
                         ELSE [o \in (DOMAIN heap \cup {r}) \ (dead \ {r}) |-> s.snap[o]]
              /\ reg' = (r :> region) @@ reg
              /\ kind' = (r :> Result(s.op)) @@ kind
        /\ k' = k + 1
        /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
Accepted == verdict \in {"todo", "ok"}
Complete == TLCGet("stats").distinct = Doc.total
=============================================================================
