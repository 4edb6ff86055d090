SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Reports NotBefore InOrder
CHECK_DEADLOCK FALSE
