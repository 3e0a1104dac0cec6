SPECIFICATION Spec
CONSTANT MaxSteps = 2
INVARIANTS Sound Show
PROPERTY Frame
CHECK_DEADLOCK FALSE
