---------------------------- MODULE CallHistory ----------------------------
(***************************************************************************)
(* Evaluations on an object graph: spaces d, u, o share the framework f,      *)
(* space e uses the framework g, f and g share the model m.  Every object      *)
(* keeps intermediate values of its last evaluation: the model is executed     *)
(* in micro-steps which write and read these caches, and the material may       *)
(* raise in any evaluation.                                                    *)
(* With Nested, the material may also evaluate another, independent object        *)
(* graph (slot <<"z", x>>) while it is asked itself: composite materials.        *)
(*   A completed call must only have read values of its own arguments           *)
(* (Pure), whatever was evaluated, shared or interrupted before.               *)
(* Reeval = FALSE is the defective design (hessian trusts the cache): TLC has    *)
(* to find it (control), and Shared = TRUE, intermediate values of all objects in    *)
(* one place (a common buffer), as well.  Emit prints every history for replay.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Objs, Points, Reeval, Emit, Nested, Shared
VARIABLES h,       \* calls so far: [o, m, p, f] (object, method, point, fault)
          prog,    \* remaining micro-steps of the running call
          cache,   \* caches: object and slot -> point of the values (or "-")
          read     \* points of the values which the running call has used
vars == <<h, prog, cache, read>>

Spaces == {"d", "u", "o", "e"}
Frameworks == {"f", "g"}
Fw(s) == IF s = "e" THEN "g" ELSE "f"
Slots == {<<s, x>> : s \in Spaces, x \in {"kin", "stress"}} \cup {<<q, x>> : q \in Frameworks, x \in {"inv", "dW"}} \cup {<<"z", "kin">>}
Place(slot) == IF Shared /\ slot[2] = "kin" THEN <<"z", "kin">> ELSE slot

\* micro-steps: <<"w", slot>> write with the point of the call, <<"r", slot>> read,
\* <<"a", "mg" or "mh">> ask the material (may raise)
FwGrad(q) == << <<"w", <<q, "inv">>>>, <<"r", <<q, "inv">>>>, <<"a", "mg">>, <<"w", <<q, "dW">>>>, <<"r", <<q, "dW">>>> >>
FwHess(q) == (IF Reeval THEN FwGrad(q) ELSE <<>>)
             \o << <<"r", <<q, "inv">>>>, <<"a", "mh">>, <<"r", <<q, "dW">>>> >>
SpGrad(s) == << <<"w", <<s, "kin">>>> >> \o FwGrad(Fw(s)) \o << <<"r", <<s, "kin">>>>, <<"w", <<s, "stress">>>>, <<"r", <<s, "stress">>>> >>
SpHess(s) == (IF Reeval THEN SpGrad(s) ELSE <<>>) \o << <<"r", <<s, "kin">>>> >> \o FwHess(Fw(s))
             \o << <<"r", <<s, "stress">>>>, <<"r", <<s, "kin">>>> >>
Program(c) == IF c.o \in Spaces THEN (IF c.m = "g" THEN SpGrad(c.o) ELSE SpHess(c.o))
              ELSE IF c.o \in Frameworks THEN (IF c.m = "g" THEN FwGrad(c.o) ELSE FwHess(c.o))
              ELSE << <<"a", IF c.m = "g" THEN "mg" ELSE "mh">> >>
Asked(o, m) == IF m = "g" THEN {"mg"} ELSE IF o = "m" THEN {"mh"} ELSE {"mg", "mh"}
Nest(a) == IF a = "mg" THEN "ng" ELSE "nh"
Faults(o, m) == {"-"} \cup Asked(o, m) \cup IF Nested THEN {Nest(a) : a \in Asked(o, m)} ELSE {}
Calls == UNION {UNION {{[o |-> o, m |-> m, p |-> p, f |-> f] : f \in Faults(o, m), p \in Points} : m \in {"g", "h"}} : o \in Objs}

Init == h = <<>> /\ prog = <<>> /\ cache = [s \in Slots |-> "-"] /\ read = {}
Start(c) == /\ prog = <<>> /\ Len(h) < Depth
            /\ Len(h) = Depth - 1 => c.f \in {"-", "ng", "nh"}      \* the last call is completed
            /\ h' = Append(h, c) /\ prog' = Program(c) /\ read' = {}
            /\ UNCHANGED cache
            /\ (Emit /\ Len(h') = Depth) => PrintT("HIST " \o ToJson(h'))
Step == /\ prog # <<>>
        /\ LET c == h[Len(h)]
               s == prog[1]
           IN CASE s[1] = "w" -> /\ cache' = [cache EXCEPT ![Place(s[2])] = c.p] /\ prog' = Tail(prog) /\ UNCHANGED read
                [] s[1] = "r" -> /\ read' = read \cup {cache[Place(s[2])]} /\ prog' = Tail(prog) /\ UNCHANGED cache
                [] s[1] = "a" -> /\ prog' = IF c.f = s[2] THEN <<>> ELSE Tail(prog)   \* the exception leaves the call
                                 /\ cache' = IF c.f = Nest(s[2]) THEN [cache EXCEPT ![<<"z", "kin">>] = "other"] ELSE cache
                                 /\ UNCHANGED read
        /\ UNCHANGED h
Next == Step \/ \E c \in Calls : Start(c)
Spec == Init /\ [][Next]_vars

Pure == h # <<>> => read \subseteq {h[Len(h)].p}
=============================================================================
