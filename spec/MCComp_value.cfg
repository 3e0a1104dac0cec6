SPECIFICATION Spec
CONSTANTS Profile = "value"
 Budget = 3
INVARIANTS Guarantees Show
CHECK_DEADLOCK FALSE
