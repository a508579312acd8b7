SPECIFICATION Spec
CONSTANTS Depth = 3
 Gca = TRUE
 Emit = FALSE
PROPERTIES Appended Count Now
CHECK_DEADLOCK FALSE
