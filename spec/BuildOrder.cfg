SPECIFICATION Spec
CONSTANTS N = 3 Loops = TRUE Mode = "gen"
INVARIANTS Emit OrderExists
CHECK_DEADLOCK FALSE
