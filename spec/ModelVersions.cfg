SPECIFICATION Spec
VIEW view
CONSTANTS MaxHist = 2 Accs = {849, 850, 935} F1s = {799, 810} MaxVers = 4 MaxLen = 3 EmitAt = 0
INVARIANTS OneActive ActiveNotRolledBack Ordered Bounded
PROPERTY GatedActivation
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
