------------------------------ MODULE Project ------------------------------
(* A C project that is edited and transpiled again and again.  Sources "a", *)
(* "b", "c"; a and b include h1 (b only while incl.b), h1 includes h2 while *)
(* incl.h1.  The content of a file is its version (0: absent).  What a run  *)
(* writes for a source is the snapshot of everything the source consists of.*)
(* The cache must be invisible: it occurs only as the ghost variable gc, so *)
(* that the exploration distinguishes what a cache could remember.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Srcs, Vers, Dirs, MaxLen, EmitAt
Hdrs == {"h1", "h2"}
Files == Srcs \cup Hdrs
VARIABLES disk, incl, outs, gc, hist
\* outs[d][s]: the set of snapshots that may be in output directory d for s ({<<>>}: no file)
vars == <<disk, incl, outs, gc, hist>>
view == <<disk, incl, outs, gc>>
Init == /\ disk = [f \in Files |-> 1] /\ incl = [b |-> TRUE, h1 |-> TRUE]
        /\ outs = [d \in Dirs |-> [s \in Srcs |-> {<<>>}]]
        /\ gc = [s \in Srcs |-> <<>>] /\ hist = <<>>
Log(r) == hist' = Append(hist, r)

Uses(s) == LET h1 == (s = "a") \/ (s = "b" /\ incl.b) IN
           (IF h1 THEN {"h1"} ELSE {}) \cup (IF h1 /\ incl.h1 THEN {"h2"} ELSE {})
Broken(s) == disk[s] # 0 /\ ((disk["h1"] = 0 /\ "h1" \in Uses(s)) \/ (disk["h1"] # 0 /\ disk["h2"] = 0 /\ "h2" \in Uses(s)))
Snap(s) == <<disk[s], IF "h1" \in Uses(s) THEN disk["h1"] ELSE 0, IF "h2" \in Uses(s) THEN disk["h2"] ELSE 0>>
Present == {s \in Srcs : disk[s] # 0}

Write(f, v) == /\ disk[f] # v /\ disk' = [disk EXCEPT ![f] = v]
               /\ Log([op |-> "write", f |-> f, v |-> v]) /\ UNCHANGED <<incl, outs, gc>>
Delete(f) == /\ disk[f] # 0 /\ disk' = [disk EXCEPT ![f] = 0]
             /\ Log([op |-> "delete", f |-> f]) /\ UNCHANGED <<incl, outs, gc>>
Toggle(w) == /\ disk[w] # 0 /\ incl' = [incl EXCEPT ![w] = ~@]
             /\ Log([op |-> "toggle", f |-> w]) /\ UNCHANGED <<disk, outs, gc>>
Wipe(d) == /\ outs' = [outs EXCEPT ![d] = [s \in Srcs |-> {<<>>}]]
           /\ outs # outs'
           /\ Log([op |-> "wipe", d |-> d]) /\ UNCHANGED <<disk, incl, gc>>
\* a run was killed while it saved its cache
Damage == /\ \E s \in Srcs : gc[s] # <<>>
          /\ gc' = [s \in Srcs |-> <<>>]
          /\ Log([op |-> "damage"]) /\ UNCHANGED <<disk, incl, outs>>
Run(d, cache) ==
  LET fail == \E s \in Srcs : Broken(s)
      new(s) == IF disk[s] = 0 \/ Broken(s) THEN outs[d][s]
                ELSE IF fail THEN outs[d][s] \cup {Snap(s)} ELSE {Snap(s)} IN
  /\ outs' = [outs EXCEPT ![d] = [s \in Srcs |-> new(s)]]
  /\ gc' = IF cache /\ ~fail THEN [s \in Srcs |-> IF disk[s] = 0 THEN gc[s] ELSE Snap(s)] ELSE gc
  /\ Log([op |-> "run", d |-> d, cache |-> cache, ok |-> ~fail, o |-> outs'[d]])
  /\ UNCHANGED <<disk, incl>>
Dry(d) == /\ Log([op |-> "dry", d |-> d, o |-> outs[d]]) /\ UNCHANGED <<disk, incl, outs, gc>>
One(s) == /\ disk[s] # 0
          /\ Log([op |-> "one", f |-> s, ok |-> ~Broken(s), o |-> {Snap(s)}])
          /\ UNCHANGED <<disk, incl, outs, gc>>

Next == /\ Len(hist) < MaxLen
        /\ \/ \E f \in Files, v \in Vers : Write(f, v)
           \/ \E f \in Files : Delete(f)
           \/ \E w \in {"b", "h1"} : Toggle(w)
           \/ \E d \in Dirs : Wipe(d) \/ Dry(d)
           \/ \E d \in Dirs, c \in BOOLEAN : Run(d, c)
           \/ \E d \in Dirs : Run(d, TRUE)
           \/ Damage
           \/ \E s \in Srcs : One(s)
Spec == Init /\ [][Next]_vars
\* after a successful run every present source has exactly the output of its present content
Last == hist[Len(hist)]
UpToDate == (hist # <<>> /\ Last.op = "run" /\ Last.ok) => \A s \in Present : outs[Last.d][s] = {Snap(s)}
Emit == IF EmitAt = 0 \/ Len(hist') = EmitAt THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT) ELSE TRUE
=============================================================================
