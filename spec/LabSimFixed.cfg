SPECIFICATION Spec
CONSTANTS Depth = 5
 Mutable = FALSE
 Emit = TRUE
PROPERTIES Pure Separate
CHECK_DEADLOCK FALSE
