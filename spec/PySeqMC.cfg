CONSTANTS
 MaxLen = 4
 MaxRank = 2
 MaxTag = 0
 KFs = {0, 3}
INVARIANTS SortedInv BisInv FirstInv InsInv SortInv DictInv SliceInv IdxInv IrangeInv
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
