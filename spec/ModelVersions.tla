--------------------------- MODULE ModelVersions ---------------------------
(* The store of model versions: registration with quality gates, rollback,  *)
(* pruning.  Metrics are in thousandths.  Everything an observer can see is *)
(* in the variables vs (versions, oldest first), act (index of the active   *)
(* one, 0: none) and rb (rollbacks so far).                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS MaxHist, Accs, F1s, MaxVers, MaxLen, EmitAt
VARIABLES vs, act, rb, hist
vars == <<vs, act, rb, hist>>
view == <<vs, act, Len(rb)>>

Less(x, y) == \/ x[1] < y[1]
              \/ x[1] = y[1] /\ x[2] < y[2]
              \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]
Meets(m) == m.acc >= 850 /\ m.pr >= 800 /\ m.re >= 800 /\ m.f1 >= 800
Abs(x) == IF x < 0 THEN -x ELSE x
Better(m, o) == IF Abs(m.acc - o.acc) > 10 THEN m.acc > o.acc ELSE m.f1 > o.f1
Last(s) == s[Len(s)]
Newest == IF vs = <<>> THEN <<0, 0, 0>> ELSE Last(vs).v

RECURSIVE Prune(_, _)
Prune(s, a) == IF Len(s) > MaxHist /\ a # 1
               THEN Prune(Tail(s), IF a > 1 THEN a - 1 ELSE a) ELSE <<s, a>>
Deact(s, a) == IF a = 0 THEN s ELSE [s EXCEPT ![a].on = FALSE]
\* result of registering an entry in (s, a): <<ok, activated, versions, active>>
Reg(s, a, e) ==
  IF s # <<>> /\ ~Less(Last(s).v, e.v) THEN <<FALSE, FALSE, s, a>>
  ELSE LET go == Meets(e.m) /\ (a = 0 \/ Better(e.m, s[a].m))
           s2 == IF go THEN Append(Deact(s, a), [e EXCEPT !.on = TRUE]) ELSE Append(s, e)
           p == Prune(s2, IF go THEN Len(s2) ELSE a) IN
       <<TRUE, go, p[1], p[2]>>
Entry(v, m) == [v |-> v, m |-> m, on |-> FALSE, rolled |-> FALSE]
\* going back from the active version to index t
Switch(s, a, t, clear) ==
  [s EXCEPT ![a].on = FALSE, ![a].rolled = TRUE, ![t].on = TRUE,
            ![t].rolled = IF clear THEN FALSE ELSE @]
Older == {i \in 1..Len(vs) : i < act /\ ~vs[i].rolled}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
CanRollback == Len(vs) >= 2 /\ act # 0 /\ Older # {}

Vis == [vs |-> [i \in 1..Len(vs) |-> [v |-> vs[i].v, on |-> vs[i].on, rolled |-> vs[i].rolled]],
        act |-> IF act = 0 THEN <<>> ELSE vs[act].v, nrb |-> Len(rb)]
Log(r) == hist' = Append(hist, [r EXCEPT !.s = Vis'])
Do(rec) == rec @@ [s |-> 0]

Init == vs = <<>> /\ act = 0 /\ rb = <<>> /\ hist = <<>>
Mets == {[acc |-> x, pr |-> p, re |-> q, f1 |-> y] : x \in Accs, y \in F1s, p \in {900}, q \in {900}}
        \cup {[acc |-> 990, pr |-> 799, re |-> 900, f1 |-> 990], [acc |-> 990, pr |-> 900, re |-> 799, f1 |-> 990],
              [acc |-> 990, pr |-> 800, re |-> 800, f1 |-> 800]}
Cand == LET n == Newest IN {<<n[1] + 1, 0, 0>>, <<n[1], n[2] + 1, 0>>, <<n[1], n[2], n[3] + 1>>, n,
                            IF n[1] > 1 THEN <<n[1] - 1, n[2] + 5, 7>> ELSE <<n[1], n[2] + 2, 0>>}
Register(v, m) ==
  LET r == Reg(vs, act, Entry(v, m)) IN
  /\ vs' = r[3] /\ act' = r[4] /\ rb' = rb
  /\ Log(Do([op |-> "register", v |-> v, m |-> m, r |-> <<r[1], r[2]>>]))
Rollback ==
  /\ IF CanRollback
     THEN LET t == Max(Older) IN
          /\ vs' = Switch(vs, act, t, FALSE) /\ act' = t
          /\ rb' = Append(rb, <<vs[act].v, vs[t].v>>)
          /\ Log(Do([op |-> "rollback", r |-> <<TRUE, vs[act].v, vs[t].v>>]))
     ELSE /\ UNCHANGED <<vs, act, rb>> /\ Log(Do([op |-> "rollback", r |-> <<FALSE>>]))
RollbackTo(v) ==
  LET T == {i \in 1..Len(vs) : vs[i].v = v} IN
  /\ IF T # {} /\ act # 0 /\ act \notin T
     THEN LET t == CHOOSE i \in T : TRUE IN
          /\ vs' = Switch(vs, act, t, TRUE) /\ act' = t
          /\ rb' = Append(rb, <<vs[act].v, v>>)
          /\ Log(Do([op |-> "rollback_to", v |-> v, r |-> <<TRUE, vs[act].v, v>>]))
     ELSE /\ UNCHANGED <<vs, act, rb>> /\ Log(Do([op |-> "rollback_to", v |-> v, r |-> <<FALSE>>]))
\* the quality observed in operation: roll back when it is under the thresholds or
\* more than five points under the accuracy of the active model
Observe(m) ==
  LET bad == ~Meets(m) \/ (act # 0 /\ m.acc < vs[act].m.acc - 50) IN
  /\ IF bad /\ CanRollback
     THEN LET t == Max(Older) IN
          /\ vs' = Switch(vs, act, t, FALSE) /\ act' = t
          /\ rb' = Append(rb, <<vs[act].v, vs[t].v>>)
          /\ Log(Do([op |-> "observe", m |-> m, r |-> <<bad, TRUE, vs[act].v, vs[t].v>>]))
     ELSE /\ UNCHANGED <<vs, act, rb>> /\ Log(Do([op |-> "observe", m |-> m, r |-> <<bad, FALSE>>]))
\* written to a file and read back
Persist == /\ vs # <<>> /\ UNCHANGED <<vs, act, rb>> /\ Log(Do([op |-> "persist", r |-> <<TRUE>>]))

Next == /\ Len(hist) < MaxLen
        /\ \/ \E v \in Cand, m \in Mets : Len(vs) < MaxVers /\ Register(v, m)
           \/ Rollback \/ Persist
           \/ \E i \in 1..Len(vs) : RollbackTo(vs[i].v)
           \/ RollbackTo(<<9, 9, 9>>)
           \/ \E m \in Mets : Observe(m)
Spec == Init /\ [][Next]_vars

OneActive == /\ \A i \in 1..Len(vs) : vs[i].on <=> i = act
             /\ act \in 0..Len(vs)
ActiveNotRolledBack == act # 0 => ~vs[act].rolled
Ordered == \A i \in 1..(Len(vs) - 1) : Less(vs[i].v, vs[i + 1].v)
\* old versions are dropped at the next registration (never the one in use)
Bounded == (hist # <<>> /\ Last(hist).op = "register" /\ Last(hist).r[1]) => (Len(vs) <= MaxHist \/ act = 1)
\* a newly registered version is only put into use when it passed the gates
GatedActivation == [][(Len(hist') > 0 /\ Last(hist').op = "register" /\ act' # 0 /\ (act = 0 \/ vs'[act'].v # vs[act].v))
                       => Meets(vs'[act'].m)]_vars
Emit == IF EmitAt = 0 \/ Len(hist') = EmitAt THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT) ELSE TRUE
=============================================================================
