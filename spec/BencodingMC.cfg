SPECIFICATION Spec
CONSTANTS Alphabet={105,108,100,101,48,49,58,97}
MaxDoc=5
MaxVal=12
INVARIANTS Canonical Survives Cut
CHECK_DEADLOCK FALSE
