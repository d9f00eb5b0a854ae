------------------------------ MODULE CExpect ------------------------------
(* Runs the abstract machine of CCore on every record of the case file     *)
(* (a program and input vectors) and emits the behaviour it prescribes;    *)
(* the driver replays each case into the code under test.  One step per    *)
(* case, so the number of distinct states is the number of cases + 1.      *)
EXTENDS CSafe, Json, IOUtils, CSV
Cases_ == ndJsonDeserialize(IOEnv.CASES)
Out    == IOEnv.OUT
VARIABLE i

\* kinds of case: "fn" = independent calls, "seq" = calls sharing the globals,
\* "main" = run main() and observe output and exit status
Behaviour(c) ==
  CASE c.kind = "fn"   -> [j \in 1..Len(c.in) |-> RunFn(c.p, c.f, c.in[j]).v]
    [] c.kind = "seq"  -> [j \in 1..Len(c.in) |-> RunSeq(c.p, c.in[j], 1, Start(c.p))]
    [] c.kind = "main" -> LET r == RunFn(c.p, "main", <<>>) IN
                          [v |-> r.v, o |-> r.o, ok |-> r.ok]

Init == i = 0
Next == /\ i < Len(Cases_)
        /\ i' = i + 1
        /\ LET c == Cases_[i + 1] IN
           CSVWrite("%1$s", <<ToJson([id |-> c.id, w |-> Behaviour(c), t |-> c.tame /\ Tame(c.p)])>>, Out)
Spec == Init /\ [][Next]_i
Progress == i <= Len(Cases_)
=============================================================================
