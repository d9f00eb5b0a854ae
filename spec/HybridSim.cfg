SPECIFICATION Spec
CONSTANTS Sample = 4 StartT = 99 RuleKinds = {"owning", "immut", "mut", "array", "unknown"} MlKinds = {"owned", "borrowed", "borrowedmut", "shared", "raw", "vec", "slice", "slicemut"} Confs = {0, 1, 2, 3, 4, 5, 6, 7, 8} MaxLen = 25 EmitAt = 25
Thresholds <- AnyT
INVARIANTS ModelGated RulesOtherwise Accounted InRange
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
