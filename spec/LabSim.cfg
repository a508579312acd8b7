SPECIFICATION Spec
CONSTANTS Depth = 5
 Mutable = TRUE
 Emit = TRUE
PROPERTIES Pure Separate
CHECK_DEADLOCK FALSE
