SPECIFICATION Spec
CONSTANTS Mutexes = {"m", "n"} Vars = {"x", "y"} Forms = {"asg"} MaxLen = 5 NFun = 1 EmitAt = 5
INVARIANTS RegionsOk Symmetric
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
