SPECIFICATION Spec
CONSTANTS Depth = 1
 Objs = {"d", "u", "o", "e", "f", "m"}
 Points = {"p", "q"}
 Reeval = TRUE
 Nested = TRUE
 Shared = TRUE
 Emit = FALSE
INVARIANT Pure
CHECK_DEADLOCK FALSE
