SPECIFICATION Spec
CONSTANTS Depth = 3
 Gca = FALSE
 Emit = TRUE
PROPERTIES Appended Count Now
CHECK_DEADLOCK FALSE
