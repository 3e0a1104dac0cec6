SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS SameMeaning Ends Show
