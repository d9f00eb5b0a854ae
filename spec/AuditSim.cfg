SPECIFICATION Spec
CONSTANTS Marks = {"plain", "ptr", "transmute", "asm", "extern"} MinEv = 9 MaxEv = 14 MaxDepth = 7 MaxFiles = 5 EmitAt = 5 Sample = 1
INVARIANTS Counted
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
