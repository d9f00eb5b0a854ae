SPECIFICATION Spec
VIEW view
CONSTANTS Srcs = {"a","b"} Vers = {1,2} Dirs = {"o1"} MaxLen = 3 EmitAt = 0
INVARIANT UpToDate
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
