------------------------------- MODULE Cache -------------------------------
(* The transpilation cache: files on disk, the entries of the cache in      *)
(* memory, the copy of them that was last saved.  A result is modelled by   *)
(* the snapshot of the contents (source and dependencies) it was made from. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Srcs, Hdrs, Vers, MaxLen, EmitAt
VARIABLES disk,   \* file -> version, 0 = absent
          mem,    \* source -> None or [s |-> version, d |-> header -> version (0: no dependency), n |-> serial]
          saved,  \* kind "none", "bad" (truncated by a crash) or "ok", and the saved copy of mem
          nid,    \* serial number of the next result
          hits, nones, stale, hist
vars == <<disk, mem, saved, nid, hits, nones, stale, hist>>
None == [s |-> 0, d |-> [h \in Hdrs |-> 0], n |-> 0]
Files == Srcs \cup Hdrs
Norm(m) == [s \in Srcs |-> [m[s] EXCEPT !.n = IF @ = 0 THEN 0 ELSE 1]]
view == <<disk, Norm(mem), saved.k, Norm(saved.m), [s \in Srcs |-> saved.m[s].n = mem[s].n]>>
NoSave == [k |-> "none", m |-> [s \in Srcs |-> None]]

Init == /\ disk = [f \in Files |-> 1]
        /\ mem = [s \in Srcs |-> None]
        /\ saved = NoSave /\ nid = 1
        /\ hits = 0 /\ nones = 0 /\ stale = 0 /\ hist = <<>>

Log(r) == hist' = Append(hist, r)

Write(f, v) == /\ disk[f] # v
               /\ disk' = [disk EXCEPT ![f] = v]
               /\ Log([op |-> "write", f |-> f, v |-> v])
               /\ UNCHANGED <<mem, saved, nid, hits, nones, stale>>
Delete(f) ==   /\ disk[f] # 0
               /\ disk' = [disk EXCEPT ![f] = 0]
               /\ Log([op |-> "delete", f |-> f])
               /\ UNCHANGED <<mem, saved, nid, hits, nones, stale>>
\* a result is stored for a source and the headers it used (all present)
Insert(s, D) ==
  /\ disk[s] # 0 /\ \A h \in D : disk[h] # 0
  /\ mem' = [mem EXCEPT ![s] = [s |-> disk[s], d |-> [h \in Hdrs |-> IF h \in D THEN disk[h] ELSE 0], n |-> nid]]
  /\ nid' = nid + 1
  /\ Log([op |-> "insert", f |-> s, d |-> D, id |-> nid])
  /\ UNCHANGED <<disk, saved, hits, nones, stale>>

FreshNow(s, e) == /\ e.n # 0 /\ disk[s] = e.s
                  /\ \A h \in Hdrs : e.d[h] # 0 => disk[h] = e.d[h]
Get(s) ==
  LET ok == FreshNow(s, mem[s]) IN
  /\ hits'  = IF ok THEN hits + 1 ELSE hits
  /\ nones' = IF ok THEN nones ELSE nones + 1
  /\ stale' = IF ~ok /\ mem[s].n # 0 /\ disk[s] # 0 THEN stale + 1 ELSE stale
  /\ Log([op |-> "get", f |-> s, r |-> IF ok THEN mem[s].n ELSE 0,
          h |-> hits', m0 |-> stale', m1 |-> nones',
          t |-> Cardinality({x \in Srcs : mem[x].n # 0})])
  /\ UNCHANGED <<disk, mem, saved, nid>>
Save == /\ saved' = [k |-> "ok", m |-> mem] /\ Log([op |-> "save"])
        /\ UNCHANGED <<disk, mem, nid, hits, nones, stale>>
\* the process dies while the cache file is being written
Crash == /\ saved.k # "bad" /\ saved' = [NoSave EXCEPT !.k = "bad"] /\ Log([op |-> "crash"])
         /\ UNCHANGED <<disk, mem, nid, hits, nones, stale>>
Load == /\ hist # <<>>
        /\ mem' = IF saved.k = "bad" THEN mem ELSE saved.m
        /\ IF saved.k = "bad" THEN UNCHANGED <<hits, nones, stale>>
           ELSE hits' = 0 /\ nones' = 0 /\ stale' = 0
        /\ Log([op |-> "load", r |-> IF saved.k = "bad" THEN 0 ELSE 1])
        /\ UNCHANGED <<disk, saved, nid>>
Clear == /\ \E s \in Srcs : mem[s].n # 0
         /\ mem' = [s \in Srcs |-> None] /\ hits' = 0 /\ nones' = 0 /\ stale' = 0
         /\ Log([op |-> "clear"])
         /\ UNCHANGED <<disk, saved, nid>>

Next == /\ Len(hist) < MaxLen
        /\ \/ \E f \in Files, v \in Vers : Write(f, v)
           \/ \E f \in Files : Delete(f)
           \/ \E s \in Srcs, D \in SUBSET Hdrs : Insert(s, D)
           \/ \E s \in Srcs : Get(s)
           \/ Save \/ Crash \/ Load \/ Clear
Spec == Init /\ [][Next]_vars

(* The property: what a lookup returns was made from exactly the contents   *)
(* that are on disk now.                                                    *)
Last == hist[Len(hist)]
NoStaleResult ==
  (hist # <<>> /\ Last.op = "get" /\ Last.r # 0) =>
     /\ mem[Last.f].n = Last.r /\ FreshNow(Last.f, mem[Last.f])
CountsAgree == hits + nones >= hits /\ stale <= nones
Emit == IF EmitAt = 0 \/ Len(hist') = EmitAt THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT) ELSE TRUE
=============================================================================
