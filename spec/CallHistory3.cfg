SPECIFICATION Spec
CONSTANTS Depth = 3
 Objs = {"d", "u", "f"}
 Points = {"p", "q"}
 Reeval = TRUE
 Nested = FALSE
 Shared = FALSE
 Emit = TRUE
INVARIANT Pure
CHECK_DEADLOCK FALSE
