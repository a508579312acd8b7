SPECIFICATION Spec
CONSTANTS Depth = 3
 Early = FALSE
 Alias = TRUE
 Emit = FALSE
INVARIANTS ResidualsBelong ErrorsBelong SimsBelong LastFit
PROPERTIES OwnFitOnly CallerKept FailureKeeps
CHECK_DEADLOCK FALSE
