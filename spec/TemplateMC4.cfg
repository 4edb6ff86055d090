CONSTANT N = 4
INIT Init
NEXT Next
INVARIANTS TextIsItself Concatenates Unrolls Decides
CHECK_DEADLOCK FALSE
