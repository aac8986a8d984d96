CONSTANTS
  N = 16
  Off = 15
  Depth = 4
INIT IndInv
NEXT Next
