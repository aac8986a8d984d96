CONSTANTS
  N = 17
  Off = 31
  Depth = 5
INIT IndInv
NEXT Next
