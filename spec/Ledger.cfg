SPECIFICATION Spec
VIEW view
CONSTANTS Codes = {"E0308", "UNKNOWN"} Its = {1, 2} Tiers = {"P0", "P1"} Feats = {"f1", "f2"} Defs = {"d1", "d2"} MaxTry = 3 MaxLen = 4 EmitAt = 0 Ops = {"files"}
INVARIANTS Consistent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
