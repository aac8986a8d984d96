SPECIFICATION Spec
CONSTANTS
  Kind = "S"
  Kf = 0
  Ranks0 = {0, 1, 2, 50}
  Tags = {0, 1, 9}
  MaxLen = 3
  MaxArg = 2
  F = 2
  Emit = TRUE
INVARIANTS Agree Valid
CHECK_DEADLOCK FALSE
