CONSTANTS
  N = 8
  Off = 7
  Depth = 3
INIT IndInv
NEXT Next
