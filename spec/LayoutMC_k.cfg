SPECIFICATION Spec
CONSTANTS
  MaxRuns = 9
  Lens = {3, 4, 7, 8}
  Load = 4
  Kf = 2
  Keyed = TRUE
INVARIANTS Refines StorageOK PlacesOK
CHECK_DEADLOCK FALSE
