SPECIFICATION Spec
CONSTANTS
  Load = 2
  Kf = 2
  Keyed = TRUE
  Ranks0 = {0,1,4}
  Tags = {0}
  MaxLen = 4
  Bulk = 1
  Steps <- StepsQ
  Lo = 0
INVARIANTS Refines StorageOK PositionsOK IslicesOK RangesOK ValuesOK PlacesOK
CHECK_DEADLOCK FALSE
