SPECIFICATION Spec
CONSTANTS
  Kind = "S"
  Kf = 0
  Ranks0 = {0, 1, 2, 3, 50}
  Tags = {0, 9}
  MaxLen = 4
  MaxArg = 2
  F = 2
  Emit = FALSE
INVARIANTS Agree Valid
CHECK_DEADLOCK FALSE
