SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Menu = 1
INVARIANTS OneComposite FoundExists Deeper Plain RootsFirst Nothing FirstOfList SCN
