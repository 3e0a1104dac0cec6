SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxSteps = 2
INVARIANTS Consistent Looks Back Show
PROPERTIES Moved Gone Copied
