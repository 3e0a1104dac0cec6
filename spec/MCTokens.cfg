SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxPieces = 3
INVARIANTS Untouched Beside Inner Innermost Tells Show
