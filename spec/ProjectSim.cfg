SPECIFICATION Spec
CONSTANTS Srcs = {"a","b","c"} Vers = {1,2,3} Dirs = {"o1","o2"} MaxLen = 16 EmitAt = 16
INVARIANT UpToDate
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
