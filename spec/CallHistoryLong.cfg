SPECIFICATION Spec
CONSTANTS Depth = 16
 Objs = {"d", "u", "o", "e", "f", "g", "m"}
 Points = {"p", "q", "s", "t", "u"}
 Reeval = TRUE
 Nested = TRUE
 Shared = FALSE
 Emit = TRUE
INVARIANT Pure
CHECK_DEADLOCK FALSE
