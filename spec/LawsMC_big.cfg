SPECIFICATION Spec
CONSTANTS
  MaxRank = 2
  MaxLen = 3
  KFs = {0, 1}
INVARIANTS AlgebraOK SetCmpOK LexOK ViewsOK
CHECK_DEADLOCK FALSE
