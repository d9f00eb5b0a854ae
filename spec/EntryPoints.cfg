SPECIFICATION Spec
CONSTANTS Plain = {"a", "b"} Incl = {"c", "d"} Vers = {1, 2} Bad = {9} MaxLen = 12 EmitAt = 12
INVARIANT KeysFollowText
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
