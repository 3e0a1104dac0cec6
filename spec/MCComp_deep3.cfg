SPECIFICATION Spec
CONSTANTS Profile = "deep"
 Budget = 3
INVARIANTS Guarantees Show
CHECK_DEADLOCK FALSE
