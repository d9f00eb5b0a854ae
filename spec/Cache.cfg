SPECIFICATION Spec
VIEW view
CONSTANTS Srcs = {"a"} Hdrs = {"h","i"} Vers = {1,2} MaxLen = 5 EmitAt = 0
INVARIANTS NoStaleResult CountsAgree
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
