SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Reports NotBefore InOrder
CHECK_DEADLOCK FALSE
