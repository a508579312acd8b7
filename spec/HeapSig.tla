------------------------------ MODULE HeapSig ------------------------------
(***************************************************************************)
(* Objects of a program using the tensor helpers, the memory region in       *)
(* which each of them lives, and the signatures of the helpers.              *)
(*   kinds: S symmetric second order (6), M fourth order (6,6), T full        *)
(*   second order (3,3), U full fourth order, N non-symmetric (3,3), Z scalar,  *)
(*   W full fourth order without minor symmetry, E eigenbases                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Kind == [ a |-> "S", v |-> "S", b |-> "S", w |-> "S", x |-> "S", y |-> "M", m |-> "M", p |-> "M", F |-> "T" ]
\* v is a reversed view of a, w a read-only view of b, p a transposed view of m; x and y are prefilled buffers
Region == [ a |-> "A", v |-> "A", b |-> "B", w |-> "B", x |-> "X", y |-> "Y", m |-> "M", p |-> "M", F |-> "F" ]
Objects == DOMAIN Kind
Buffers == {"x", "y"}

\* arguments, result, kind of the output buffer ("-": none; cdya_ik/il use theirs as scratch memory)
Sig == [ asvoigt2 |-> <<<<"T">>, "S", "-">>, astensor2 |-> <<<<"S">>, "T", "-">>,
         asvoigt4 |-> <<<<"U">>, "M", "-">>, astensor4 |-> <<<<"M">>, "U", "-">>,
         trace |-> <<<<"S">>, "Z", "-">>, det |-> <<<<"S">>, "Z", "-">>, eye |-> <<<<"S">>, "S", "-">>,
         dev |-> <<<<"S">>, "S", "-">>, inv |-> <<<<"S">>, "S", "S">>, invd |-> <<<<"S", "Z">>, "S", "S">>,
         dot |-> <<<<"S", "S">>, "N", "-">>, ddot22 |-> <<<<"S", "S">>, "Z", "-">>,
         ddot24 |-> <<<<"S", "M">>, "S", "-">>, ddot42 |-> <<<<"M", "S">>, "S", "-">>,
         ddot44 |-> <<<<"M", "M">>, "M", "-">>, dya |-> <<<<"S", "S">>, "M", "M">>,
         cdya |-> <<<<"S", "S">>, "M", "M">>, cdya_ik |-> <<<<"S", "S">>, "W", "M">>,
         cdya_il |-> <<<<"S", "S">>, "W", "M">>, transpose |-> <<<<"M">>, "M", "-">>,
         tril |-> <<<<"M">>, "M", "M">>, triu |-> <<<<"M">>, "M", "M">>, eigh |-> <<<<"S">>, "E", "-">> ]
HeapOps == DOMAIN Sig
Args(op) == Sig[op][1]
Result(op) == Sig[op][2]
OutKind(op) == Sig[op][3]
\* helpers whose output buffer may be the operand itself
InPlace(op) == op \in {"tril", "triu", "inv", "invd"}
Triangle(op) == op \in {"tril", "triu"}
\* results which may share the memory of their operand
MayShare(op) == op \in {"transpose"}
=============================================================================
