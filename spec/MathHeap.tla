----------------------------- MODULE MathHeap -----------------------------
(***************************************************************************)
(* Programs of tensor helper calls on a heap of objects which share memory   *)
(* regions.  Explored exhaustively: every program is printed for replay       *)
(* into the real helpers; TraceHeap decides the recorded executions.          *)
(* A call reads its operands, writes the region of its output buffer and      *)
(* nothing else; without a buffer its result lives in a region of its own.    *)
(***************************************************************************)
EXTENDS HeapSig, TLC, Json
CONSTANTS Depth, Names, Names2, Emit
VARIABLES h, kind, reg, ver
vars == <<h, kind, reg, ver>>

RName(k) == <<"r1", "r2", "r3", "r4">>[k]
Uses(step, name) == \E k \in 1..Len(step.args) : step.args[k] = name
\* later calls are related to an earlier one: same helper, same buffer, or operand = earlier result
Related(s) == h = <<>> \/ \E k \in 1..Len(h) : s.op = h[k].op \/ (s.out # "-" /\ s.out = h[k].out) \/ Uses(s, RName(k))
Known == DOMAIN kind
Cand(k) == {o \in Known : kind[o] = k /\ o \notin Buffers
                          /\ (o \in Objects => o \in (IF h = <<>> THEN Names ELSE Names2))}
ArgTuples(op) == IF Len(Args(op)) = 1 THEN {<<o>> : o \in Cand(Args(op)[1])}
                 ELSE Cand(Args(op)[1]) \X Cand(Args(op)[2])
\* buffers which do not share memory with an operand; triangle copies and the inverse also work in place
Outs(op, args) == {"-"} \cup {o \in Buffers : Kind[o] = OutKind(op) /\ \A k \in 1..Len(args) : reg[o] # reg[args[k]]}
                  \cup {o \in {"m", "a", "v"} : InPlace(op) /\ args[1] = o}

Steps == UNION {UNION {{[op |-> op, args |-> args, out |-> out] : out \in Outs(op, args)} : args \in ArgTuples(op)}
                : op \in HeapOps}
Init == /\ h = <<>> /\ kind = Kind /\ reg = Region
        /\ ver = [r \in {Region[o] : o \in Objects} |-> 0]
Call(s) ==
  LET n == Len(h) + 1
      r == RName(n)
      shared == IF s.out # "-" /\ s.op \notin {"cdya_ik", "cdya_il"} THEN reg[s.out]
                ELSE IF MayShare(s.op) THEN reg[s.args[1]] ELSE r
  IN /\ h' = Append(h, s)
     /\ kind' = (r :> Result(s.op)) @@ kind
     /\ reg' = (r :> shared) @@ reg
     /\ ver' = [q \in DOMAIN ver \cup {shared} |->
                  IF s.out # "-" /\ q = reg[s.out] THEN n ELSE IF q \in DOMAIN ver THEN ver[q] ELSE n]
     /\ (Emit /\ Len(h') = Depth) => PrintT("HIST " \o ToJson(h'))
Next == Len(h) < Depth /\ \E s \in Steps : Related(s) /\ Call(s)
Spec == Init /\ [][Next]_vars

\* operands are never written unless they are the buffer (in place)
OperandsKept == [][LET s == h'[Len(h')] IN
                   \A q \in DOMAIN ver : ver'[q] # ver[q] => s.out # "-" /\ q = reg[s.out]]_vars
\* no call reads the memory it overwrites, except in place
NoOverlap == \A k \in 1..Len(h) : h[k].out # "-" =>
               \/ InPlace(h[k].op) /\ h[k].args[1] = h[k].out
               \/ \A q \in 1..Len(h[k].args) : (h[k].args[q] \in Objects) => Region[h[k].args[q]] # Region[h[k].out]
\* a result of its own is never overwritten
Fresh == \A k \in 1..Len(h) : reg[RName(k)] = RName(k) => ver[RName(k)] = k
=============================================================================
