SPECIFICATION Spec
VIEW view
CONSTANTS Codes = {"E0308", "E0502", "UNKNOWN"} Its = {1, 2, 3} Tiers = {"P0", "P1"} Feats = {"f1", "f2", "f3"} Defs = {"d1", "d2", "d3"} MaxTry = 3 MaxLen = 40 EmitAt = 40 Ops = {"files", "errors", "tries"}
INVARIANTS Consistent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
