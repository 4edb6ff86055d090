SPECIFICATION HSpec
CONSTANTS Symbols={1,2,3,4}
MaxText=6
INVARIANTS RoundTrip Optimal
CHECK_DEADLOCK FALSE
