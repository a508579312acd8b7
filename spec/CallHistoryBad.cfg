SPECIFICATION Spec
CONSTANTS Depth = 2
 Objs = {"d", "u", "o", "e", "f", "m"}
 Points = {"p", "q"}
 Reeval = FALSE
 Nested = FALSE
 Shared = FALSE
 Emit = FALSE
INVARIANT Pure
CHECK_DEADLOCK FALSE
