-------------------------------- MODULE Audit -------------------------------
(* The unsafe audit.  A Rust file is written from left to right: items and    *)
(* blocks are opened, filled and closed.  An audit of the finished file has   *)
(* to report every unsafe block and every unsafe function with a body, in     *)
(* order, wherever it stands, each with the size of its body and a pattern    *)
(* that follows from what it contains; and nothing of files audited before.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, Randomization
CONSTANTS Marks, MinEv, MaxEv, MaxDepth, MaxFiles, EmitAt, Sample
VARIABLES ev, stack, hist      \* ev: opened things of the current file; stack: indices into ev
vars == <<ev, stack, hist>>

ItemLevel == {"top", "mod"}
Bodies == {"fn", "ufn", "m", "um", "blk", "ub"}
Opens(ctx) == CASE ctx \in ItemLevel -> {"fn", "ufn", "impl", "trait", "mod", "ub"}
                [] ctx = "impl" -> {"m", "um", "ub"}
                [] ctx = "trait" -> {"m", "um"}
                [] OTHER -> {"blk", "ub", "fn", "ufn"}
Leaves(ctx) == CASE ctx \in Bodies -> {"st"} [] ctx = "trait" -> {"sig", "usig"} [] OTHER -> {}
Ctx == IF stack = <<>> THEN "top" ELSE ev[stack[Len(stack)]].k
Par == IF stack = <<>> THEN 0 ELSE stack[Len(stack)]

Children(e, i) == {j \in 1..Len(e) : e[j].par = i}
RECURSIVE InSub(_, _, _)
InSub(e, j, i) == j = i \/ (e[j].par # 0 /\ InSub(e, e[j].par, i))
MarksIn(e, i) == {e[j].m : j \in {q \in 1..Len(e) : InSub(e, q, i)}}
Pattern(e, i) == IF e[i].k # "ub" THEN <<"Other", 60>>
                 ELSE LET ms == MarksIn(e, i) IN
                      IF "ptr" \in ms THEN <<"RawPointerDeref", 85>> ELSE IF "transmute" \in ms THEN <<"Transmute", 40>>
                      ELSE IF "asm" \in ms THEN <<"Assembly", 15>> ELSE IF "extern" \in ms THEN <<"FfiCall", 30>> ELSE <<"Other", 50>>
Unsafe(e) == SelectSeq([i \in 1..Len(e) |-> i], LAMBDA i : e[i].k \in {"ub", "ufn", "um"})
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Report(e) == LET u == Unsafe(e) IN
  [blocks |-> [i \in 1..Len(u) |-> Pattern(e, u[i])],
   lines  |-> Sum([i \in 1..Len(u) |-> Cardinality(Children(e, u[i])) + 2]),
   high   |-> Cardinality({i \in 1..Len(u) : Pattern(e, u[i])[2] >= 70}),
   conf   |-> Sum([i \in 1..Len(u) |-> Pattern(e, u[i])[2]])]

Open(k) == /\ Len(stack) < MaxDepth /\ k \in Opens(Ctx)
           /\ ev' = Append(ev, [k |-> k, par |-> Par, m |-> ""]) /\ stack' = Append(stack, Len(ev) + 1) /\ UNCHANGED hist
Leaf(k, m) == /\ k \in Leaves(Ctx) /\ (k # "st" => m = "plain")
              /\ ev' = Append(ev, [k |-> k, par |-> Par, m |-> m]) /\ UNCHANGED <<stack, hist>>
Close == stack # <<>> /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<ev, hist>>
\* the file is finished and audited; what follows is a new file
Audit == /\ stack = <<>> /\ Len(ev) >= MinEv /\ ev' = <<>> /\ UNCHANGED stack
         /\ hist' = Append(hist, [op |-> "audit", ev |-> ev, r |-> Report(ev)])
\* the file is cut off inside an open block: an error, and no trace of it later
Broken == /\ stack # <<>> /\ Len(ev) >= MinEv /\ ev' = <<>> /\ stack' = <<>>
          /\ hist' = Append(hist, [op |-> "broken", ev |-> ev, open |-> Len(stack)])
Some(s) == IF Sample = 0 THEN s ELSE RandomSubset(Sample, s)
All == {"fn", "ufn", "impl", "trait", "mod", "m", "um", "blk", "ub"}
Next == /\ Len(hist) < MaxFiles
        /\ \/ Len(ev) < MaxEv /\ \E k \in All : Open(k)
           \/ Len(ev) < MaxEv /\ \E k \in {"st", "sig", "usig"}, m \in Some(Marks) : Leaf(k, m)
           \/ Close \/ Audit \/ Broken
Init == ev = <<>> /\ stack = <<>> /\ hist = <<>>
Spec == Init /\ [][Next]_vars

\* a file without the keyword has an empty report, and every use of it counts once
Counted == \A i \in 1..Len(hist) : hist[i].op = "audit" =>
   /\ Len(hist[i].r.blocks) = Cardinality({j \in 1..Len(hist[i].ev) : hist[i].ev[j].k \in {"ub", "ufn", "um"}})
   /\ (hist[i].r.blocks = <<>>) <=> (hist[i].r.lines = 0)
Emit == IF Len(hist') = EmitAt /\ hist' # hist THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT) ELSE TRUE
=============================================================================
