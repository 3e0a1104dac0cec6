SPECIFICATION Spec
CONSTANTS Profile = "exec"
 Budget = 4
INVARIANTS Guarantees Show
CHECK_DEADLOCK FALSE
