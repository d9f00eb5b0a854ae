SPECIFICATION Spec
CONSTANTS MinTrain = 5 MinVal = 3 MinTest = 4 PctTrain = 50 PctVal = 25
 Ns = {11, 17, 33} Ps = {700, 861, 905, 957, 984} Rs = {750, 833, 901, 999} MaxLen = 20 EmitAt = 20
INVARIANTS GatesHold Rising
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
