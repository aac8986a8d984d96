CONSTANTS
 MaxLen = 5
 MaxRank = 3
 MaxTag = 0
 KFs = {0, 1, 2, 3, 4, 5}
INVARIANTS SortedInv BisInv FirstInv InsInv SortInv DictInv SliceInv IdxInv IrangeInv
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
