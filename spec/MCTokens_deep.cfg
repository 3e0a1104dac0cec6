SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxPieces = 4
INVARIANTS Untouched Beside Inner Innermost Tells Show
