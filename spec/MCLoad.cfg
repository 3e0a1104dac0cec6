SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxOps = 2 Menu = 2
INVARIANTS ParentsBefore Together InOrder NoCycle OnlyReadable AllLoaded Kept Reloads Undo Show
