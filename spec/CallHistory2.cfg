SPECIFICATION Spec
CONSTANTS Depth = 2
 Objs = {"d", "u", "o", "e", "f", "m"}
 Points = {"p", "q"}
 Reeval = TRUE
 Nested = FALSE
 Shared = FALSE
 Emit = TRUE
INVARIANT Pure
CHECK_DEADLOCK FALSE
