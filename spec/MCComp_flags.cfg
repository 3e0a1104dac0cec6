SPECIFICATION Spec
CONSTANTS Profile = "flags"
 Budget = 3
INVARIANTS Guarantees Show
CHECK_DEADLOCK FALSE
