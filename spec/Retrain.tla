------------------------------ MODULE Retrain ------------------------------
(* The retraining pipeline on top of the store of versions: sample counts,  *)
(* split, training, quality gate, degradation gate, promotion.  Precision   *)
(* and recall in thousandths, F1 in millionths.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS MinTrain, MinVal, MinTest, PctTrain, PctVal,
          Ns, Ps, Rs, MaxLen, EmitAt
VARIABLES vs, act, runs, hist
vars == <<vs, act, runs, hist>>
view == <<vs, act, Len(runs)>>
MaxHist == 10
F1(p, r) == IF p + r = 0 THEN 0 ELSE (2 * p * r * 1000) \div (p + r)
MinP == 850
MinR == 800
MaxDeg == 20000
Last(s) == s[Len(s)]
Max0(x) == IF x < 0 THEN 0 ELSE x

Split(n) == LET t == (n * PctTrain) \div 100  v == (n * PctVal) \div 100 IN <<t, v, n - t - v>>
Enough(n) == /\ n >= MinTrain + MinVal + MinTest
             /\ Split(n)[1] >= MinTrain /\ Split(n)[2] >= MinVal /\ Split(n)[3] >= MinTest
\* the store's own rule: the new model is used when it is better (see ModelVersions)
Abs(x) == IF x < 0 THEN -x ELSE x
Usable(m) == m.f1 >= 850000 /\ m.pr >= 800 /\ m.re >= 800
Activates(m) == Usable(m) /\ (act = 0 \/ m.f1 > vs[act].m.f1)
NextV == IF vs = <<>> THEN <<1, 0, 0>> ELSE <<Last(vs).v[1], Last(vs).v[2] + 1, 0>>
RECURSIVE Prune(_, _)
Prune(s, a) == IF Len(s) > MaxHist /\ a # 1
               THEN Prune(Tail(s), IF a > 1 THEN a - 1 ELSE a) ELSE <<s, a>>
Outcome(n, tr) ==
  IF ~Enough(n) THEN "insufficient"
  ELSE IF tr.err THEN "error"
  ELSE IF tr.p < MinP \/ tr.r < MinR THEN "quality"
  ELSE IF act # 0 /\ vs[act].m.f1 - F1(tr.p, tr.r) > MaxDeg THEN "degraded"
  ELSE "promoted"
Vis == [act |-> IF act = 0 THEN <<>> ELSE vs[act].v, n |-> Len(runs),
        ok |-> Cardinality({i \in 1..Len(runs) : runs[i] = "promoted"})]
Log(r) == hist' = Append(hist, r @@ [s |-> Vis'])
Init == vs = <<>> /\ act = 0 /\ runs = <<>> /\ hist = <<>>
Execute(n, tr) ==
  LET o == Outcome(n, tr)
      m == [pr |-> tr.p, re |-> tr.r, f1 |-> F1(tr.p, tr.r)]
      e == [v |-> NextV, m |-> m, rolled |-> FALSE]
      go == Activates(m)
      pr == Prune(Append(vs, e), IF go THEN Len(vs) + 1 ELSE act) IN
  /\ runs' = Append(runs, o)
  /\ IF o = "promoted" THEN vs' = pr[1] /\ act' = pr[2] ELSE UNCHANGED <<vs, act>>
  /\ Log([op |-> "execute", n |-> n, tr |-> tr, r |-> o,
          v |-> IF o = "promoted" THEN NextV ELSE <<>>,
          split |-> IF o = "insufficient" THEN <<>> ELSE Split(n),
          used |-> IF o = "promoted" THEN go ELSE FALSE])
RollbackTo(v) ==
  LET T == {i \in 1..Len(vs) : vs[i].v = v} IN
  /\ runs' = runs
  /\ IF T # {} /\ act # 0 /\ act \notin T
     THEN act' = (CHOOSE i \in T : TRUE) /\ vs' = [vs EXCEPT ![act].rolled = TRUE, ![act'].rolled = FALSE]
          /\ Log([op |-> "rollback", v |-> v, r |-> TRUE])
     ELSE UNCHANGED <<vs, act>> /\ Log([op |-> "rollback", v |-> v, r |-> FALSE])
Trainers == {[err |-> FALSE, p |-> p, r |-> q] : p \in Ps, q \in Rs} \cup {[err |-> TRUE, p |-> 0, r |-> 0]}
Next == /\ Len(hist) < MaxLen
        /\ \/ \E n \in Ns, tr \in Trainers : Execute(n, tr)
           \/ \E i \in 1..Len(vs) : RollbackTo(vs[i].v)
           \/ RollbackTo(<<7, 0, 0>>)
Spec == Init /\ [][Next]_vars
\* no model below a gate ever is in use, and a failed run changes nothing
GatesHold == act # 0 => /\ vs[act].m.pr >= MinP /\ vs[act].m.re >= MinR
FailureChangesNothing == [][(runs' # runs /\ Last(runs') # "promoted") => UNCHANGED <<vs, act>>]_vars
Rising == \A i \in 1..(Len(vs) - 1) : vs[i].v[2] < vs[i + 1].v[2]
Emit == IF EmitAt = 0 \/ Len(hist') = EmitAt THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT) ELSE TRUE
=============================================================================
