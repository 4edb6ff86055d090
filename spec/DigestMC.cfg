SPECIFICATION Spec
CONSTANT MaxFeed = 2
INVARIANTS SameDigest Buffered Permutation Undone
CHECK_DEADLOCK FALSE
