CONSTANTS CS = 3
 Initial = 4
 MaxChunks = 4
SPECIFICATION Spec
INVARIANTS NoDouble Consistent
VIEW View
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
