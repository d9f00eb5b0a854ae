SPECIFICATION Spec
CONSTANTS Srcs = {"a","b"} Hdrs = {"h","i"} Vers = {1,2,3} MaxLen = 30 EmitAt = 30
INVARIANTS NoStaleResult CountsAgree
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
