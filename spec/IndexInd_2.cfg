CONSTANTS
  N = 2
  Off = 1
  Depth = 1
INIT IndInv
NEXT Next
