CONSTANTS
 Part = "runs"
 Max = 4
 Depth = 2
 Full = FALSE
SPECIFICATION Spec
INVARIANTS Balanced NothingLeft HasServer NeverTaken ReturnsAsFound OneStarter Someone SCN
CHECK_DEADLOCK FALSE
