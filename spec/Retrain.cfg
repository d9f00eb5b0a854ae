SPECIFICATION Spec
VIEW view
CONSTANTS MinTrain = 7 MinVal = 2 MinTest = 2 PctTrain = 70 PctVal = 15
 Ns = {0, 10, 11, 14} Ps = {849, 850, 900, 960} Rs = {799, 800, 890} MaxLen = 3 EmitAt = 0
INVARIANTS GatesHold Rising
PROPERTY FailureChangesNothing
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
