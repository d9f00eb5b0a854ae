SPECIFICATION Spec
CONSTANTS Mode = "queue" Strategy = "uncertainty" MaxPend = 3 MinU = 4000 Confs = {0, 1, 2, 3, 4, 6, 7, 8} Kinds = {"owned", "borrowed", "borrowedmut", "shared", "raw", "vec", "slice", "slicemut"} MaxLen = 30 MaxOut = 6 EmitAt = 30
INVARIANTS Sorted Bounded AllLabelled Disjoint
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
