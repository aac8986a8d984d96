SPECIFICATION Spec
CONSTANTS
  Kind = "D"
  Kf = 3
  Ranks0 = {0, 1, 2, 50, 51}
  Tags = {0, 9}
  MaxLen = 5
  MaxArg = 2
  F = 3
  Emit = FALSE
INVARIANTS Agree Valid
CHECK_DEADLOCK FALSE
