------------------------------ MODULE Includes ------------------------------
(* A source file and headers in two directories, built up line by line;     *)
(* what a translation unit consists of after #include processing.  Every    *)
(* header is include-guarded, so C puts its text where it is included first.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Hdrs,      \* headers that exist (some are in a sub directory: the driver decides)
          Absent,    \* headers that do not exist
          MaxItems, EmitAt
Files == {"main"} \cup Hdrs
Items(f) == {[k |-> "t", x |-> "t"], [k |-> "sys", x |-> "stdio.h"]}
            \cup {[k |-> "inc", x |-> h] : h \in Hdrs \cup Absent}
VARIABLES fs, n
vars == <<fs, n>>
Init == fs = [f \in Files |-> <<>>] /\ n = 0

RECURSIVE Exp(_, _, _)
\* Exp(items, position, state): state = [out, done, err]
Exp(f, i, s) ==
  IF s.err \/ i > Len(fs[f]) THEN s
  ELSE LET it == fs[f][i] IN
       IF it.k = "t" THEN Exp(f, i + 1, [s EXCEPT !.out = Append(@, <<f, i>>)])
       ELSE IF it.k = "sys" THEN Exp(f, i + 1, s)
       ELSE IF it.x \in Absent THEN [s EXCEPT !.err = TRUE]
       ELSE IF it.x \in s.done THEN Exp(f, i + 1, s)
       ELSE Exp(f, i + 1, Exp(it.x, 1, [s EXCEPT !.done = @ \cup {it.x}]))
Unit == Exp("main", 1, [out |-> <<>>, done |-> {}, err |-> FALSE])

Add(f, it) == /\ f = "main" \/ f \in Unit.done
              /\ n < MaxItems /\ n' = n + 1
              /\ fs' = [fs EXCEPT ![f] = Append(@, it)]
Next == \E f \in Files : \E it \in Items(f) : Add(f, it)
Spec == Init /\ [][Next]_vars

\* every line of every reached file appears exactly once, in the order of the file
OncePerLine == LET o == Unit.out IN
  /\ \A i, j \in 1..Len(o) : o[i] = o[j] => i = j
  /\ ~Unit.err => \A f \in {"main"} \cup Unit.done : \A i \in 1..Len(fs[f]) :
        fs[f][i].k = "t" => \E j \in 1..Len(o) : o[j] = <<f, i>>
  /\ \A i, j \in 1..Len(o) : (o[i][1] = o[j][1] /\ o[i][2] < o[j][2]) => i < j
Emit == IF n >= EmitAt THEN CSVWrite("%1$s", <<ToJson([fs |-> fs, out |-> Unit.out, done |-> Unit.done, err |-> Unit.err])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
