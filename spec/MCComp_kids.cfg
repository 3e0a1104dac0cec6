SPECIFICATION Spec
CONSTANTS Profile = "kids"
 Budget = 5
INVARIANTS Guarantees Show
CHECK_DEADLOCK FALSE
