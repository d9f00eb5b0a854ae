SPECIFICATION Spec
CONSTANTS MaxHist = 3 Accs = {862, 868, 881, 935, 991} F1s = {810, 900, 950} MaxVers = 100 MaxLen = 24 EmitAt = 24
INVARIANTS OneActive ActiveNotRolledBack Ordered Bounded
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
