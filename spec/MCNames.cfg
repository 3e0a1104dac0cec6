CONSTANTS MaxSteps = 2
SPECIFICATION Spec
INVARIANTS Names Show
PROPERTIES Exact
CHECK_DEADLOCK FALSE
