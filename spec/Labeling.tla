------------------------------ MODULE Labeling -----------------------------
(* The active-learning queue: predictions the model is unsure of wait for a  *)
(* human label, most uncertain first; labelled ones become training data.    *)
(* Scores are in 8000ths.  pend: waiting samples in order; out: handed out;    *)
(* lab: labelled, ready for training; nid: ids given out so far; tot:        *)
(* samples ever accepted.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Mode,      \* "queue": the queue alone; "learner": with the calculator in front
          Strategy, MaxPend, MinU, Confs, Kinds, MaxLen, MaxOut, EmitAt
VARIABLES pend, out, lab, nid, tot, hist
vars == <<pend, out, lab, nid, tot, hist>>
view == <<pend, out, lab, nid, tot>>

\* confidence c in eighths; fb: the prediction has a fallback
Entropy(c) == <<0, 4348, 6490, 7635, 8000, 7635, 6490, 4348, 0>>[c + 1]
Score(c, fb) == IF Strategy = "margin" /\ fb THEN 8000 - 200 * c
                ELSE IF Strategy = "entropy" THEN Entropy(c) ELSE 8000 - 1000 * c
RECURSIVE Pos(_, _, _)
Pos(s, x, i) == IF i > Len(s) THEN i ELSE IF s[i].sc < x THEN i ELSE Pos(s, x, i + 1)
Insert(s, e) == LET p == Pos(s, e.sc, 1) IN
   IF p > MaxPend THEN s
   ELSE LET n == SubSeq(s, 1, p - 1) \o <<e>> \o SubSeq(s, p, Len(s)) IN
        IF Len(n) > MaxPend THEN SubSeq(n, 1, MaxPend) ELSE n
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s).sc + Sum(Tail(s))
Right == Cardinality({i \in 1..Len(lab) : lab[i].label = lab[i].k})
Ids(s) == [i \in 1..Len(s) |-> s[i].id]
Vis == [pend |-> Ids(pend), lab |-> Ids(lab), labels |-> [i \in 1..Len(lab) |-> lab[i].label], tot |-> tot,
        sum |-> Sum(pend), right |-> Right]
Log(rec) == hist' = Append(hist, rec @@ [s |-> Vis'])

Add(c, fb, k) ==
  LET sc == Score(c, fb)
      q  == Mode = "queue" \/ sc >= MinU
      e  == [id |-> nid + 1, sc |-> sc, k |-> k, label |-> "none"] IN
  /\ IF q THEN /\ pend' = Insert(pend, e) /\ nid' = nid + 1 /\ tot' = tot + 1
          ELSE UNCHANGED <<pend, nid, tot>>
  /\ UNCHANGED <<out, lab>>
  /\ Log([op |-> "add", c |-> c, fb |-> fb, k |-> k, sc |-> sc, r |-> <<IF Mode = "queue" THEN nid + 1 ELSE sc, q>>])
Take(n) ==
  LET m == IF n < Len(pend) THEN n ELSE Len(pend) IN
  /\ Len(out) + m <= MaxOut
  /\ out' = out \o SubSeq(pend, 1, m) /\ pend' = SubSeq(pend, m + 1, Len(pend))
  /\ UNCHANGED <<lab, nid, tot>>
  /\ Log([op |-> "take", n |-> n, r |-> [i \in 1..m |-> <<pend[i].id, pend[i].sc>>]])
Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Label(i, k) ==      \* label the i-th handed out sample (or hand it back without a label)
  /\ i <= Len(out)
  /\ out' = Remove(out, i)
  /\ lab' = IF k = "none" THEN lab ELSE Append(lab, [out[i] EXCEPT !.label = k])
  /\ UNCHANGED <<pend, nid, tot>>
  /\ Log([op |-> "label", i |-> i, k |-> k, r |-> IF k = "none" THEN "none" ELSE IF k = out[i].k THEN "right" ELSE "wrong"])
TakeLab == /\ lab' = <<>> /\ UNCHANGED <<pend, out, nid, tot>>
           /\ Log([op |-> "train", r |-> Ids(lab)])
Clear == /\ Mode = "queue" /\ pend' = <<>> /\ UNCHANGED <<out, lab, nid, tot>>
         /\ Log([op |-> "clear", r |-> 0])
Persist == /\ Mode = "queue" /\ hist # <<>> /\ UNCHANGED <<pend, out, lab, nid, tot>>
           /\ Log([op |-> "persist", r |-> 0])
Init == pend = <<>> /\ out = <<>> /\ lab = <<>> /\ nid = 0 /\ tot = 0 /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E c \in Confs, fb \in BOOLEAN, k \in Kinds : (fb => Strategy = "margin") /\ Add(c, fb, k)
           \/ \E n \in 0..3 : Take(n)
           \/ \E i \in 1..2, k \in Kinds \cup {"none"} : Label(i, k)
           \/ TakeLab \/ Clear \/ Persist
Spec == Init /\ [][Next]_vars

Sorted == \A i \in 1..(Len(pend) - 1) : pend[i].sc > pend[i + 1].sc \/ (pend[i].sc = pend[i + 1].sc /\ pend[i].id < pend[i + 1].id)
Bounded == Len(pend) <= MaxPend
AllLabelled == \A i \in 1..Len(lab) : lab[i].label # "none"
\* no sample is in two places
Parts == Ids(pend) \o Ids(out) \o Ids(lab)
Disjoint == Cardinality({Parts[i] : i \in 1..Len(Parts)}) = Len(Parts)
\* taking always yields samples at least as uncertain as the ones left waiting
MostUncertainFirst == [][Len(out') > Len(out) => \A i \in (Len(out) + 1)..Len(out'), j \in 1..Len(pend') : out'[i].sc >= pend'[j].sc]_vars
Emit == IF EmitAt = 0 \/ Len(hist') = EmitAt THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT) ELSE TRUE
=============================================================================
