------------------------------- MODULE Hybrid ------------------------------
(* The hybrid ownership classifier: rules always give an answer, a model may *)
(* give another one with some confidence; which one is used depends on the   *)
(* mode, on whether the model is enabled and on the threshold in force.      *)
(* Confidences and thresholds are in eighths, resulting confidences in       *)
(* 160ths.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, Randomization
CONSTANTS RuleKinds, MlKinds, Confs, Thresholds, MaxLen, EmitAt, StartT, Sample
AnyT == -2..10
VARIABLES on, th, m, hist
vars == <<on, th, m, hist>>
view == <<on, th, m>>

Inferred == [owning |-> "owned", immut |-> "borrowed", mut |-> "borrowedmut", array |-> "slice", unknown |-> "raw"]
Clamp(t) == IF t < 0 THEN 0 ELSE IF t > 8 THEN 8 ELSE t
Min(a, b) == IF a < b THEN a ELSE b
\* [o: ownership, c: confidence in 160ths, m: method, ml: whether the model was asked]
Rules(k, rc, method, ml) == [o |-> Inferred[k], c |-> 20 * rc, m |-> method, ml |-> ml]
Model(k, mc) == [o |-> k, c |-> 20 * mc, m |-> "ml", ml |-> TRUE]
Classify(mode, k, rc, mk, mc) ==
  CASE mode = "rules"    -> Rules(k, rc, "rule-based", FALSE)
    [] mode = "hybrid"   -> IF ~on THEN Rules(k, rc, "rule-based", FALSE)
                            ELSE IF 100 * mc >= th THEN Model(mk, mc)
                            ELSE Rules(k, rc, "fallback", TRUE)
    [] mode = "ensemble" -> IF Inferred[k] = mk THEN [o |-> mk, c |-> Min(160, 11 * (rc + mc)), m |-> "hybrid", ml |-> TRUE]
                            ELSE IF mc > rc THEN Model(mk, mc) ELSE Rules(k, rc, "rule-based", TRUE)
Count(x, k, mk) == [total |-> m.total + 1,
   rule_based |-> m.rule_based + (IF x.m = "rule-based" THEN 1 ELSE 0), ml_used |-> m.ml_used + (IF x.m = "ml" THEN 1 ELSE 0),
   fallback |-> m.fallback + (IF x.m = "fallback" THEN 1 ELSE 0), hybrid |-> m.hybrid + (IF x.m = "hybrid" THEN 1 ELSE 0),
   agreements |-> m.agreements + (IF x.ml /\ Inferred[k] = mk THEN 1 ELSE 0),
   disagreements |-> m.disagreements + (IF x.ml /\ Inferred[k] # mk THEN 1 ELSE 0)]
Log(rec) == hist' = Append(hist, rec @@ [s |-> [on |-> on', th |-> th', m |-> m']])

Ask(mode, k, rc, mk, mc) == LET x == Classify(mode, k, rc, mk, mc) IN
  /\ m' = Count(x, k, mk) /\ UNCHANGED <<on, th>>
  /\ Log([op |-> "ask", mode |-> mode, k |-> k, rc |-> rc, mk |-> mk, mc |-> mc, r |-> x])
Switch(b) == on' = b /\ UNCHANGED <<th, m>> /\ Log([op |-> "switch", v |-> b, r |-> 0])
Set(t) == th' = 100 * Clamp(t) /\ UNCHANGED <<on, m>> /\ Log([op |-> "set", v |-> t, r |-> 0])
Zero == [total |-> 0, rule_based |-> 0, ml_used |-> 0, fallback |-> 0, hybrid |-> 0, agreements |-> 0, disagreements |-> 0]
\* the threshold starts at 0.65 (520 of 800) or is given
Init == on = FALSE /\ th = (IF StartT = 99 THEN 520 ELSE 100 * Clamp(StartT)) /\ m = Zero /\ hist = <<>>
Asks == [mode : {"rules", "hybrid", "ensemble"}, k : RuleKinds, rc : Confs, mc : Confs, mk : MlKinds]
Some(s) == IF Sample = 0 THEN s ELSE RandomSubset(Sample, s)     \* random choices keep simulation cheap
Next == /\ Len(hist) < MaxLen
        /\ \/ \E q \in Some(Asks) : Ask(q.mode, q.k, q.rc, q.mk, q.mc)
           \/ \E b \in BOOLEAN : Switch(b)
           \/ \E t \in Some(Thresholds) : Set(t)
Spec == Init /\ [][Next]_vars

Last == hist[Len(hist)]
Asked == hist # <<>> /\ Last.op = "ask"
\* the model's word counts only if it may speak and is confident enough
ModelGated == (Asked /\ Last.mode = "hybrid" /\ Last.r.m = "ml") => (on /\ 100 * Last.mc >= th)
RulesOtherwise == (Asked /\ Last.mode # "ensemble" /\ Last.r.m # "ml") => Last.r.o = Inferred[Last.k]
Accounted == m.total = m.rule_based + m.ml_used + m.fallback + m.hybrid
InRange == 0 <= th /\ th <= 800 /\ (Asked => Last.r.c \in 0..160)
Emit == IF EmitAt = 0 \/ Len(hist') = EmitAt THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT) ELSE TRUE
=============================================================================
