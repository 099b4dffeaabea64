INIT Init
NEXT GNext
CONSTANT MaxNodes = 30
CONSTANT Quiet = FALSE
INVARIANT AllValid
CHECK_DEADLOCK FALSE
