SPECIFICATION Spec
CONSTANTS Depth = 4
 Early = FALSE
 Alias = FALSE
 Emit = TRUE
INVARIANTS ResidualsBelong ErrorsBelong SimsBelong LastFit
PROPERTIES OwnFitOnly CallerKept FailureKeeps
CHECK_DEADLOCK FALSE
