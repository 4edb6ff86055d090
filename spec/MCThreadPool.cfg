SPECIFICATION Fair
CONSTANTS NW = 2
Script <- Script22
Spurious = TRUE
Hist = FALSE
INVARIANTS Once Mutex NoneForgotten
PROPERTIES Refines Live
CHECK_DEADLOCK FALSE
