SPECIFICATION Spec
CONSTANTS
  Kind = "S"
  Kf = 3
  Ranks0 = {0, 1, 2, 3, 4, 50, 51}
  Tags = {0, 9}
  MaxLen = 6
  MaxArg = 2
  F = 2
  Emit = FALSE
INVARIANTS Agree Valid
CHECK_DEADLOCK FALSE
