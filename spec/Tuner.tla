------------------------------- MODULE Tuner -------------------------------
(* Choosing the confidence threshold of the hybrid classifier from           *)
(* validation samples.  A sample is [ru, ml, c]: whether the rules are        *)
(* right, what the model says ("right", "wrong", "same" as the wrong rules)   *)
(* and its confidence in 20ths.  The specification gives, for the candidate   *)
(* thresholds, the counts and the set of best ones.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS N, Confs, Cands, Crit
VARIABLES ss, done
S == [ru : BOOLEAN, ml : {"right", "wrong", "same"}, c : Confs]
MlRight(s) == s.ml = "right" \/ (s.ml = "same" /\ s.ru)
UsesMl(s, t) == s.c >= t
Right(s, t) == IF UsesMl(s, t) THEN MlRight(s) ELSE s.ru
Cnt(P(_)) == Cardinality({i \in 1..Len(ss) : P(ss[i])})
Correct(t) == LET P(s) == Right(s, t) IN Cnt(P)
Ml(t) == LET P(s) == UsesMl(s, t) IN Cnt(P)
Base == LET P(s) == s.ru IN Cnt(P)
MlOnly == Cnt(MlRight)
Above == {t \in Cands : Correct(t) >= Base}
Best(f(_), T) == {t \in T : \A u \in T : f(t) >= f(u)}
Balanced(t) == 7 * Correct(t) + 3 * Ml(t)
Optimal == CASE Crit \in {"accuracy", "f1"} -> Best(Correct, Cands)
             [] Crit = "balanced" -> Best(Balanced, Cands)
             [] Crit = "minfallback" -> IF Above = {} THEN Best(Correct, Cands) ELSE Best(Ml, Above)
Prescribed == [ss |-> ss, base |-> Base, mlonly |-> MlOnly, opt |-> Optimal,
               at |-> [i \in 1..21 |-> IF (i - 1) \in Cands THEN <<Correct(i - 1), Ml(i - 1)>> ELSE <<>>]]
Init == ss = <<>> /\ done = FALSE
Add == ~done /\ Len(ss) < N /\ \E s \in S : ss' = Append(ss, s) /\ done' = FALSE
Tune == ~done /\ done' = TRUE /\ ss' = ss
Next == Add \/ Tune
Spec == Init /\ [][Next]_<<ss, done>>
\* accuracy at the chosen threshold is at least that of rules alone if some candidate only uses rules
NoWorse == (Crit \in {"accuracy", "f1", "minfallback"} /\ \E t \in Cands : Ml(t) = 0) => \A t \in Optimal : Correct(t) >= Base
NonEmpty == Optimal # {}
\* raising the threshold never uses the model more often
Monotone == \A t, u \in Cands : t <= u => Ml(t) >= Ml(u)
Emit == IF done' THEN CSVWrite("%1$s", <<ToJson(Prescribed)>>, IOEnv.OUT) ELSE TRUE
=============================================================================
