CONSTANTS
  Keys = {1,2,3,4,5,6}
  Values = {1,2}
  Hash <- HashDef
  Initial = 1
  Factor = 4
  MaxSize = 16
SPECIFICATION Spec
CONSTRAINT Bound
INVARIANTS AlwaysFree Refines
CHECK_DEADLOCK FALSE
