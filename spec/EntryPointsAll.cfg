SPECIFICATION Spec
VIEW view
CONSTANTS Plain = {"a"} Incl = {"c"} Vers = {1, 2} Bad = {9} MaxLen = 5 EmitAt = 0
INVARIANT KeysFollowText
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
