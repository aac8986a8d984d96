SPECIFICATION Spec
CONSTANTS
  Load = 2
  Kf = 2
  Keyed = TRUE
  Ranks0 = {0,1,4}
  Tags = {0}
  MaxLen = 7
  Bulk = 2
  Steps <- StepsBig
  Lo <- LoBig
INVARIANTS Refines StorageOK PositionsOK IslicesOK RangesOK ValuesOK PlacesOK
CHECK_DEADLOCK FALSE
