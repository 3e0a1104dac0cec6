SPECIFICATION Spec
CONSTANTS Names = {"a", "ab"}
 MaxDepth = 4
 MaxSteps = 4
INVARIANTS ExpandIsStepping AncestorLaws TextInjective ReplaceLaws TrimLaws
CHECK_DEADLOCK FALSE
CONSTRAINT Export
