SPECIFICATION Spec
CONSTANTS Depth = 2
 Names = {"a", "v", "b", "w", "m", "p", "F"}
 Names2 = {"a", "v", "b", "m", "F"}
 Emit = TRUE
INVARIANTS NoOverlap Fresh
PROPERTY OperandsKept
CHECK_DEADLOCK FALSE
