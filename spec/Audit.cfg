SPECIFICATION Spec
CONSTANTS Marks = {"plain"} MinEv = 0 MaxEv = 4 MaxDepth = 4 MaxFiles = 1 EmitAt = 1 Sample = 0
INVARIANTS Counted
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
