CONSTANTS Values = {1,2,3}
  MaxLen = 5
SPECIFICATION Spec
INVARIANTS IsPermutation SortedAtEnd
PROPERTY Terminates
CHECK_DEADLOCK FALSE
