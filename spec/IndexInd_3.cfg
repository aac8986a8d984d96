CONSTANTS
  N = 3
  Off = 3
  Depth = 2
INIT IndInv
NEXT Next
