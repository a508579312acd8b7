INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Holds
CONSTANTS
  Num <- MNum
  Entries <- Entries2
  SpaceSet = {"dilatational"}
  Defect = "none"
