---------------------------- MODULE EntryPoints ----------------------------
(* What decy makes of a file depends on the text of that file and of the    *)
(* headers it includes, and on nothing else: not on the entry point or      *)
(* reporting option used, not on what was translated before in the same     *)
(* process, not on what is translated at the same time.                     *)
(*   ver   current version of each source file                              *)
(*   hdr   current version of the common header                             *)
(* A step that translates carries the key of its input; equal keys have to  *)
(* produce equal text.  "fail" versions do not parse and must be refused by *)
(* every entry point.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Plain,      \* files without local includes
          Incl,       \* files that include the header
          Vers, Bad, MaxLen, EmitAt
VARIABLES ver, hdr, hist
vars == <<ver, hdr, hist>>
view == <<ver, hdr>>
Files == Plain \cup Incl
\* entry points that take only text, and those that know where the file is
TextEntry == {"plain", "trace", "verify"}
FileEntry == {"includes", "file", "cli", "clitrace", "clistdout", "project", "projectcache"}
Key(f) == <<f, ver[f], IF f \in Incl THEN hdr ELSE 0>>
Fails(f) == ver[f] \in Bad
ProjEntry == {"project", "projectcache"}
\* the project commands translate every file, and fail if one of them does
Good(e, f) == IF e \in ProjEntry THEN \A g \in Files : ~Fails(g) ELSE ~Fails(f)
Init == ver = [f \in Files |-> 1] /\ hdr = 1 /\ hist = <<>>
Log(r) == hist' = Append(hist, r)
Go(e, f) == /\ (e \in TextEntry => f \in Plain)
            /\ UNCHANGED <<ver, hdr>>
            /\ Log([op |-> "go", e |-> e, f |-> f, key |-> Key(f), ok |-> Good(e, f)])
Par(f, g, h) == /\ UNCHANGED <<ver, hdr>>
                /\ Log([op |-> "par", fs |-> <<f, g, h>>, keys |-> <<Key(f), Key(g), Key(h)>>,
                        oks |-> <<~Fails(f), ~Fails(g), ~Fails(h)>>])
Edit(f, v) == /\ ver[f] # v /\ ver' = [ver EXCEPT ![f] = v] /\ hdr' = hdr /\ Log([op |-> "edit", f |-> f, v |-> v])
EditH(v) == /\ hdr # v /\ hdr' = v /\ ver' = ver /\ Log([op |-> "edith", v |-> v])
Next == /\ Len(hist) < MaxLen
        /\ \/ \E e \in TextEntry \cup FileEntry, f \in Files : Go(e, f)
           \/ \E f \in Files, g \in Plain, h \in Files : Par(f, g, h)
           \/ \E f \in Files, v \in Vers \cup Bad : Edit(f, v)
           \/ \E v \in Vers : EditH(v)
Spec == Init /\ [][Next]_vars
\* going back to an earlier text restores the earlier key
KeysFollowText == \A i, j \in 1..Len(hist) :
   (hist[i].op = "go" /\ hist[j].op = "go" /\ hist[i].key = hist[j].key
      /\ {hist[i].e, hist[j].e} \cap ProjEntry = {}) => hist[i].ok = hist[j].ok
Emit == IF EmitAt = 0 \/ Len(hist') = EmitAt THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT) ELSE TRUE
=============================================================================
