SPECIFICATION Spec
INVARIANTS Guarantees Show
PROPERTY OnlyOwn
CHECK_DEADLOCK FALSE
