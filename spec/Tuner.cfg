SPECIFICATION Spec
CONSTANTS N = 3 Confs = {0, 10, 20} Cands = {2, 10, 18} Crit = "accuracy"
INVARIANTS NoWorse NonEmpty Monotone
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
