SPECIFICATION Spec
CONSTANTS Depth = 3
 Names = {"a", "b", "m"}
 Names2 = {"a"}
 Emit = TRUE
INVARIANTS NoOverlap Fresh
PROPERTY OperandsKept
CHECK_DEADLOCK FALSE
