------------------------------- MODULE Ledger ------------------------------
(* The quality figures decy reports are figures of what was recorded:        *)
(* compile success, first-try rate and iterations, baseline of a corpus,     *)
(* convergence per tier, suspiciousness of C features, retries.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Codes, Its, Tiers, Feats, Defs, MaxTry, MaxLen, EmitAt, Ops
VARIABLES cm, lm, fm, tm, tr, it, hist
vars == <<cm, lm, fm, tm, tr, it, hist>>
view == <<cm, lm, fm, tm, tr, it>>
Z(S) == [x \in S |-> 0]
Pick(S) == IF EmitAt = 0 THEN S ELSE {RandomElement(S)}

\* a rate n/d reaches a target of p percent (0 when nothing was recorded)
Reaches(n, d, p) == IF d = 0 THEN FALSE ELSE n * 100 >= p * d
Max1(n) == IF n = 0 THEN 1 ELSE n
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(S \ {x}, f)

\* Tarantula: failing share / (failing share + passing share), as a fraction
Num(f) == tr.ff[f] * Max1(tr.pass)
Den(f) == Num(f) + tr.fp[f] * Max1(tr.fail)
Seen == {f \in Feats : tr.ff[f] + tr.fp[f] > 0}
Susp == {f \in Seen : Den(f) > 0 /\ 10 * Num(f) > 7 * Den(f)}
Vis ==
 [cm |-> cm, cpass |-> Reaches(cm.ok, cm.ok + cm.bad, 80),
  lm |-> lm, lpass |-> Reaches(lm.first, lm.n, 85),
  fm |-> fm, fpass |-> Reaches(fm.first, fm.n, 85),
  tm |-> tm, ttot |-> [n |-> Sum(Tiers, [t \in Tiers |-> tm[t].n]), tr |-> Sum(Tiers, [t \in Tiers |-> tm[t].tr]), co |-> Sum(Tiers, [t \in Tiers |-> tm[t].co])],
  fail |-> tr.fail, pass |-> tr.pass, dd |-> tr.dd, fd |-> [f \in Feats |-> [d \in Defs |-> tr.fd[<<f, d>>]]],
  feats |-> [f \in Seen |-> [ff |-> tr.ff[f], fp |-> tr.fp[f], num |-> Num(f), den |-> Den(f)]],
  susp |-> Susp, often |-> {d \in Defs : tr.dd[d] > 5},
  it |-> it, retry |-> it.n < MaxTry]
Log(rec) == hist' = Append(hist, rec @@ [s |-> Vis'])

File(o, k, c, t) ==
  LET ok == o = "ok"  first == ok /\ k = 1 IN
  /\ (first <=> c = "-")
  /\ cm' = IF first THEN [cm EXCEPT !.ok = @ + 1] ELSE [cm EXCEPT !.bad = @ + 1, !.codes[c] = @ + 1]
  /\ lm' = [lm EXCEPT !.n = @ + 1, !.first = @ + (IF first THEN 1 ELSE 0), !.its = @ + k, !.h[k] = @ + 1]
  /\ fm' = [n |-> fm.n + 1, first |-> fm.first + (IF first THEN 1 ELSE 0), ev |-> fm.ev + (IF ok THEN 1 ELSE 0), its |-> fm.its + (IF ok THEN k ELSE 0)]
  /\ tm' = [tm EXCEPT ![t] = [n |-> @.n + 1, tr |-> @.tr + (IF o = "notrans" THEN 0 ELSE 1), co |-> @.co + (IF ok THEN 1 ELSE 0)]]
  /\ UNCHANGED <<tr, it>> /\ Log([op |-> "file", o |-> o, k |-> k, c |-> c, t |-> t])
Reset == /\ cm' = [ok |-> 0, bad |-> 0, codes |-> Z(Codes)]
         /\ lm' = [n |-> 0, first |-> 0, its |-> 0, h |-> Z(Its)]
         /\ UNCHANGED <<fm, tm, tr, it>> /\ Log([op |-> "reset"])
Err(d, F) == /\ tr' = [tr EXCEPT !.fail = @ + 1, !.dd[d] = @ + 1,
                         !.ff = [f \in Feats |-> @[f] + (IF f \in F THEN 1 ELSE 0)],
                         !.fd = [p \in Feats \X Defs |-> @[p] + (IF p[1] \in F /\ p[2] = d THEN 1 ELSE 0)]]
             /\ UNCHANGED <<cm, lm, fm, tm, it>> /\ Log([op |-> "err", d |-> d, F |-> F])
Suc(F) == /\ tr' = [tr EXCEPT !.pass = @ + 1, !.fp = [f \in Feats |-> @[f] + (IF f \in F THEN 1 ELSE 0)]]
          /\ UNCHANGED <<cm, lm, fm, tm, it>> /\ Log([op |-> "suc", F |-> F])
Try(k) == /\ it' = [n |-> it.n + 1, last |-> k, all |-> Append(it.all, k)]
          /\ UNCHANGED <<cm, lm, fm, tm, tr>> /\ Log([op |-> "try", k |-> k])

Init == /\ cm = [ok |-> 0, bad |-> 0, codes |-> Z(Codes)] /\ lm = [n |-> 0, first |-> 0, its |-> 0, h |-> Z(Its)]
        /\ fm = [n |-> 0, first |-> 0, ev |-> 0, its |-> 0] /\ tm = [t \in Tiers |-> [n |-> 0, tr |-> 0, co |-> 0]]
        /\ tr = [fail |-> 0, pass |-> 0, dd |-> Z(Defs), ff |-> Z(Feats), fp |-> Z(Feats), fd |-> Z(Feats \X Defs)]
        /\ it = [n |-> 0, last |-> 0, all |-> <<>>] /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \/ "files" \in Ops /\ \E o \in {"ok", "nocompile", "notrans"}, k \in Pick(Its), c \in Codes \cup {"-"}, t \in Pick(Tiers) : File(o, k, c, t)
           \/ "files" \in Ops /\ hist # <<>> /\ Len(hist) % 5 = 4 /\ Reset
           \/ "errors" \in Ops /\ \E d \in Defs, F \in Pick(SUBSET Feats) : Err(d, F)
           \/ "errors" \in Ops /\ \E F \in Pick(SUBSET Feats) : Suc(F)
           \/ "tries" \in Ops /\ it.n < 6 /\ \E k \in 0..2 : Try(k)
Spec == Init /\ [][Next]_vars
Consistent == /\ cm.ok + cm.bad = lm.n /\ cm.ok = lm.first /\ Sum(Codes, cm.codes) = cm.bad /\ Sum(Its, lm.h) = lm.n
              /\ fm.first <= fm.ev /\ fm.ev <= fm.n /\ fm.ev <= fm.its /\ Sum(Tiers, [t \in Tiers |-> tm[t].n]) = fm.n
              /\ Sum(Tiers, [t \in Tiers |-> tm[t].co]) = fm.ev /\ Sum(Defs, tr.dd) = tr.fail
Emit == IF EmitAt = 0 \/ Len(hist') = EmitAt THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT) ELSE TRUE
=============================================================================
