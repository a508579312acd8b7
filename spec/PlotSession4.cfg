SPECIFICATION Spec
CONSTANTS Depth = 4
 Gca = FALSE
 Emit = TRUE
PROPERTIES Appended Count Now
CHECK_DEADLOCK FALSE
