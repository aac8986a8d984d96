SPECIFICATION Spec
CONSTANTS
  Load = 2
  Kf = 0
  Keyed = FALSE
  Ranks0 = {0,2}
  Tags = {0}
  MaxLen = 6
  Bulk = 2
  Steps <- StepsQ
  Lo = 0
INVARIANTS Refines StorageOK PositionsOK IslicesOK RangesOK ValuesOK PlacesOK
CHECK_DEADLOCK FALSE
