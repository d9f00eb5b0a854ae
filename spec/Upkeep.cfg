SPECIFICATION Spec
VIEW view
CONSTANTS Ops = "retire" Pats = {"p1"} Codes = {"E1"} MaxLen = 7 EmitAt = 0 MinUse = 5 RateN = 3 RateD = 10 Arch = TRUE HitN = 1 HitD = 2 FixN = 4 FixD = 5
INVARIANTS Justified Partition
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
