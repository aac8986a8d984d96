SPECIFICATION Spec
CONSTANTS
  MaxRank = 2
  MaxLen = 2
  KFs = {0, 3}
INVARIANTS AlgebraOK SetCmpOK LexOK ViewsOK
CHECK_DEADLOCK FALSE
