CONSTANTS MaxArgs = 4
SPECIFICATION Spec
INVARIANTS Guarantees Show
CHECK_DEADLOCK FALSE
