SPECIFICATION Spec
CONSTANTS
  Lits <- LitSet
  Deep <- DeepPairs
INVARIANT Emit
CHECK_DEADLOCK FALSE
