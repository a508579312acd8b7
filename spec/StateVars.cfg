SPECIFICATION Spec
CONSTANTS Depth = 5
 Points = {"p", "q"}
 Emit = TRUE
INVARIANT Known
PROPERTY OnlyAccepted
CHECK_DEADLOCK FALSE
