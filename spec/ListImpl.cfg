CONSTANTS Nodes = {1,2,3,4,5,6}
SPECIFICATION Spec
INVARIANTS Refines NoDangling
CHECK_DEADLOCK FALSE
