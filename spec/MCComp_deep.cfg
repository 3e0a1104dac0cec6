SPECIFICATION Spec
CONSTANTS Profile = "deep"
 Budget = 4
INVARIANTS Guarantees Show
CHECK_DEADLOCK FALSE
