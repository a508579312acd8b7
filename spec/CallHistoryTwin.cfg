SPECIFICATION Spec
CONSTANTS Depth = 12
 Objs = {"d", "u", "o", "f"}
 Points = {"v", "w", "x", "y"}
 Reeval = TRUE
 Nested = TRUE
 Shared = FALSE
 Emit = TRUE
INVARIANT Pure
CHECK_DEADLOCK FALSE
