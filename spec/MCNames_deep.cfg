CONSTANTS MaxSteps = 3
SPECIFICATION Spec
INVARIANTS Names Show
PROPERTIES Exact
CHECK_DEADLOCK FALSE
