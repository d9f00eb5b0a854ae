SPECIFICATION Spec
CONSTANTS Hdrs = {"h1","h2","h3"} Absent = {"h9"} MaxItems = 4 EmitAt = 1
INVARIANTS OncePerLine Emit
CHECK_DEADLOCK FALSE
