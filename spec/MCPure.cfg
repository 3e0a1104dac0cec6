SPECIFICATION Spec
CONSTANT MaxSteps = 4
CONSTANT Shows <- See
INVARIANTS Same Show
PROPERTY Kept Others
CHECK_DEADLOCK FALSE
