----------------------------- MODULE BuildOrder -----------------------------
(* Files and their dependencies as a directed graph; which answers of the   *)
(* build order computation are right.  Two uses: enumerate every graph over *)
(* N files (Gen), and judge answers recorded from the code (Judge).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS N, Loops, Mode
Nodes == 1..N
Pairs == {p \in Nodes \X Nodes : Loops \/ p[1] # p[2]}

RECURSIVE Reach(_, _, _)
Reach(E, S, k) == IF k = 0 THEN S
                  ELSE Reach(E, S \cup {y \in {p[2] : p \in E} : \E x \in S : <<x, y>> \in E}, k - 1)
\* a file that (directly or not) depends on itself
Cyclic(n, E) == \E x \in 1..n : x \in Reach(E, {p[2] : p \in {q \in E : q[1] = x}}, n)
ValidOrder(n, E, ord) ==
  /\ Len(ord) = n
  /\ \A x \in 1..n : \E i \in 1..n : ord[i] = x
  /\ \A i \in 1..n, j \in 1..n : <<ord[i], ord[j]>> \in E => j < i
Right(n, E, err, ord) == IF Cyclic(n, E) THEN err ELSE ~err /\ ValidOrder(n, E, ord)

VARIABLES g, i
Recs == IF Mode = "judge" THEN ndJsonDeserialize(IOEnv.CASES) ELSE <<>>
Init == /\ i = 0
        /\ IF Mode = "judge" THEN g = {} ELSE g \in SUBSET Pairs
Edges(c) == {<<c.e[k][1], c.e[k][2]>> : k \in 1..Len(c.e)}
Next == /\ Mode = "judge" /\ i < Len(Recs) /\ i' = i + 1 /\ g' = g
        /\ LET c == Recs[i + 1] IN
           CSVWrite("%1$s", <<ToJson([id |-> c.id,
               ok |-> Right(c.n, Edges(c), c.err, c.ord) /\ {<<c.h[k][1], c.h[k][2]>> : k \in 1..Len(c.h)} = Edges(c)])>>, IOEnv.OUT)
Spec == Init /\ [][Next]_<<g, i>>
Emit == IF Mode = "judge" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([e |-> g])>>, IOEnv.OUT)
\* sanity of the definitions on every graph: an order exists exactly for the acyclic ones
Orders(n) == {f \in [1..n -> 1..n] : \A x \in 1..n : \E k \in 1..n : f[k] = x}
OrderExists == (Mode # "judge" /\ N <= 3) => (Cyclic(N, g) <=> ~\E f \in Orders(N) : ValidOrder(N, g, f))
=============================================================================
