SPECIFICATION Spec
CONSTANT MaxFeed = 3
INVARIANTS SameDigest Buffered Permutation Undone
CHECK_DEADLOCK FALSE
