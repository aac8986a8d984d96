CONSTANTS
  N = 9
  Off = 15
  Depth = 4
INIT IndInv
NEXT Next
