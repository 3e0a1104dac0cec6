SPECIFICATION Spec
CONSTANTS Profile = "inst"
 Budget = 3
INVARIANTS Guarantees Show
CHECK_DEADLOCK FALSE
