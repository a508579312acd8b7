SPECIFICATION Spec
CONSTANTS Depth = 3
 Early = TRUE
 Alias = FALSE
 Emit = FALSE
INVARIANTS ResidualsBelong ErrorsBelong SimsBelong LastFit
PROPERTIES OwnFitOnly CallerKept FailureKeeps
CHECK_DEADLOCK FALSE
