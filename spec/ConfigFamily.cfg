INIT Init
NEXT Next
CONSTANT Vocab = {"a", "ab", "abc", "abd", "b", "cab"}
CONSTANT MaxStatics = 3
CONSTANT Quiet = FALSE
INVARIANT AllValid
CHECK_DEADLOCK FALSE
