CONSTANTS
 Part = "files"
 Max = 3
 Depth = 0
 Full = FALSE
SPECIFICATION Spec
INVARIANTS AllApart NewDistinct OthersKept GoneNever SCN
CHECK_DEADLOCK FALSE
