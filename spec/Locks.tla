------------------------------- MODULE Locks -------------------------------
(* Lock discipline.  A function is built statement by statement; what the   *)
(* analysis has to report about it is a function of the statements so far.  *)
(*   region     an acquisition of a mutex and its release                   *)
(*   protected  data accessed strictly inside a region of that mutex        *)
(*   broken     releases of a mutex not held, acquisitions never released   *)
(*   exposed    accesses to protected data outside every region             *)
(*   deadlock   pairs of functions acquiring two mutexes in opposite order  *)
(* Statement indices are 0-based, as in the reports.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Mutexes, Vars, Forms, MaxLen, NFun, EmitAt
VARIABLES fs, hist         \* functions finished and in progress: sequences of statements
vars == <<fs, hist>>

\* the data a statement accesses
Uses(s) ==
  CASE s.k \in {"lock", "unlock"} -> {s.m}
    [] s.f \in {"asg", "if", "ifelse", "while", "for", "call", "comp", "tern", "switch", "and", "nest", "dowhile"} -> {s.a, s.b}
    [] s.f \in {"decl", "inc", "dec", "neg", "cond", "ret"} -> {s.a}
    [] s.f = "arr"   -> {"arr", s.a, s.b}
    [] s.f = "rdarr" -> {"arr", s.a, s.b}
    [] s.f = "fld"   -> {"st", s.a}
    [] s.f = "rdfld" -> {"st", s.a}
    [] s.f = "ptr"   -> {"pt", s.a}
    [] s.f = "deref" -> {"dp", s.a}
    [] s.f = "none"  -> {}

\* mutex -> index of its acquisition, for those held before statement i (0-based)
RECURSIVE Held(_, _), Regs(_, _)
Held(b, i) ==
  IF i = 0 THEN [m \in {} |-> 0]
  ELSE LET h == Held(b, i - 1)  s == b[i] IN
       IF s.k = "lock" THEN (s.m :> (i - 1)) @@ h
       ELSE IF s.k = "unlock" THEN [m \in DOMAIN h \ {s.m} |-> h[m]] ELSE h
Regs(b, i) ==
  IF i = 0 THEN <<>>
  ELSE LET s == b[i]  h == Held(b, i - 1) IN
       IF s.k = "unlock" /\ s.m \in DOMAIN h
       THEN Append(Regs(b, i - 1), [m |-> s.m, from |-> h[s.m], to |-> i - 1]) ELSE Regs(b, i - 1)
Regions(b)   == Regs(b, Len(b))
Inside(r, i) == r.from < i /\ i < r.to
Protected(b, m) == UNION {UNION {Uses(b[i + 1]) : i \in {j \in 0..(Len(b) - 1) : Inside(Regions(b)[r], j)}} :
                          r \in {q \in 1..Len(Regions(b)) : Regions(b)[q].m = m}}
BadUnlocks(b) == {i \in 0..(Len(b) - 1) : b[i + 1].k = "unlock" /\ b[i + 1].m \notin DOMAIN Held(b, i)}
Unreleased(b) == LET h == Held(b, Len(b)) IN {h[m] : m \in DOMAIN h}
AllProt(b) == UNION {Protected(b, m) : m \in Mutexes}
Exposed(b) == {<<v, i>> \in ((AllProt(b)) \X (0..(Len(b) - 1))) :
                 v \in Uses(b[i + 1]) /\ \A r \in 1..Len(Regions(b)) : ~Inside(Regions(b)[r], i)}
RECURSIVE Order(_, _)
Order(b, i) == IF i = 0 THEN <<>> ELSE IF b[i].k = "lock" THEN Append(Order(b, i - 1), b[i].m) ELSE Order(b, i - 1)
Before(o, a, c) == \E i, j \in 1..Len(o) : i < j /\ o[i] = a /\ o[j] = c
Conflict(f, g) == LET x == Order(f, Len(f))  y == Order(g, Len(g)) IN
                  \E a, c \in Mutexes : a # c /\ Before(x, a, c) /\ Before(y, c, a)

SetSeq(S) == S       \* ToJson writes a set as a list
Verdict(F) ==
  [fn |-> [i \in 1..Len(F) |-> LET b == F[i] IN
     [regions |-> Regions(b), prot |-> [m \in Mutexes |-> Protected(b, m)], bad |-> BadUnlocks(b), open |-> Unreleased(b),
      exposed |-> Exposed(b)]],
   deadlocks |-> Cardinality({<<i, j>> \in (1..Len(F)) \X (1..Len(F)) : i < j /\ Conflict(F[i], F[j])})]

Stmts == {[k |-> "lock", m |-> m, f |-> "", a |-> "", b |-> ""] : m \in Mutexes}
    \cup {[k |-> "unlock", m |-> m, f |-> "", a |-> "", b |-> ""] : m \in Mutexes}
    \cup {[k |-> "use", m |-> "", f |-> f, a |-> a, b |-> b] : f \in Forms, a \in Vars, b \in Vars}
Init == fs = <<<<>>>> /\ hist = <<>>
Last == fs[Len(fs)]
Total == hist
Add(s) == /\ fs' = [fs EXCEPT ![Len(fs)] = Append(@, s)] /\ hist' = Append(hist, s)
NewFun == /\ Len(fs) < NFun /\ Last # <<>> /\ fs' = Append(fs, <<>>) /\ hist' = Append(hist, [k |-> "fun"])
Next == Len(hist) < MaxLen /\ ((\E s \in Stmts : Add(s)) \/ NewFun)
Spec == Init /\ [][Next]_vars

\* sanity of the specification: with perfectly nested code nothing is reported
Balanced(b) == BadUnlocks(b) = {} /\ Unreleased(b) = {}
RegionsOk == \A k \in 1..Len(fs) : LET b == fs[k] IN
   /\ \A r \in 1..Len(Regions(b)) : LET q == Regions(b)[r] IN
        q.from < q.to /\ b[q.from + 1] = [k |-> "lock", m |-> q.m, f |-> "", a |-> "", b |-> ""]
   /\ \A x \in Exposed(b) : x[1] \in AllProt(b)
   \* a function without regions protects nothing, hence exposes nothing
   /\ Regions(b) = <<>> => Exposed(b) = {}
\* deadlock reports do not depend on the order of the functions
Symmetric == \A i, j \in 1..Len(fs) : Conflict(fs[i], fs[j]) <=> Conflict(fs[j], fs[i])
Emit == IF EmitAt = 0 \/ Len(hist') = EmitAt THEN CSVWrite("%1$s", <<ToJson([fs |-> fs', w |-> Verdict(fs')])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
