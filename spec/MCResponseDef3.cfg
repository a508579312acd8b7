INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Holds
CONSTANTS
  Num <- MNum
  Entries <- Entries3
  SpaceSet = {"deformation"}
  Defect = "none"
