SPECIFICATION Spec
VIEW view
CONSTANTS Sample = 0 StartT = 99 RuleKinds = {"owning", "immut", "mut", "array", "unknown"} MlKinds = {"owned", "borrowed", "borrowedmut", "slice", "raw", "vec"} Confs = {0, 4, 5, 6, 8} Thresholds = {0, 5, 8} MaxLen = 2 EmitAt = 0
INVARIANTS ModelGated RulesOtherwise Accounted InRange
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
