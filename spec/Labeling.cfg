SPECIFICATION Spec
VIEW view
CONSTANTS Mode = "queue" Strategy = "uncertainty" MaxPend = 2 MinU = 4000 Confs = {3, 4, 6} Kinds = {"owned", "slice"} MaxLen = 4 MaxOut = 3 EmitAt = 0
INVARIANTS Sorted Bounded AllLabelled Disjoint
PROPERTY MostUncertainFirst
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
