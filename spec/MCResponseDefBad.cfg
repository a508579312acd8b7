INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Holds
CONSTANTS
  Num <- MNum
  Entries <- Entries1
  SpaceSet = {"deformation"}
  Defect = "nostress"
