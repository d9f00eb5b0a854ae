SPECIFICATION Spec
CONSTANTS Ops = "both" Pats = {"p1", "p2"} Codes = {"E1", "E2"} MaxLen = 40 EmitAt = 40 MinUse = 5 RateN = 3 RateD = 10 Arch = TRUE HitN = 1 HitD = 2 FixN = 4 FixD = 5
INVARIANTS Justified Partition
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
