SPECIFICATION Spec
CONSTANTS
  MaxRuns = 18
  Lens = {3, 4, 7, 8}
  Load = 4
  Kf = 0
  Keyed = FALSE
INVARIANTS Refines StorageOK PlacesOK
CHECK_DEADLOCK FALSE
