------------------------------- MODULE Upkeep ------------------------------
(* The books the oracle keeps: what each fix pattern did (and whether it      *)
(* stays), and what the oracle answered (and whether CI passes).             *)
(* pat: statistics per pattern; q: query and fix counters per error code.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Pats, Codes, MaxLen, EmitAt,
          MinUse, RateN, RateD, Arch,        \* retirement: uses in window, success rate RateN/RateD, archive instead of delete
          HitN, HitD, FixN, FixD,            \* CI: hit and fix rate
          Ops                                \* "retire" or "gate" or "both"
VARIABLES pat, q, hist
vars == <<pat, q, hist>>
view == <<pat, q>>
Sup == {"none", "better"}
New == [uses |-> 0, win |-> 0, ok |-> 0, sup |-> "none"]

\* ---- retirement
Decide(p) ==
  IF p.win < MinUse THEN [d |-> IF Arch THEN "archive" ELSE "retire", why |-> "usage", uses |-> p.win]
  ELSE IF p.ok * RateD < RateN * p.uses /\ p.uses >= 5
       THEN [d |-> IF Arch THEN "archive" ELSE "retire", why |-> "failures", uses |-> p.ok]
  ELSE IF p.sup # "none" THEN [d |-> "archive", why |-> "superseded", uses |-> 0]
  ELSE [d |-> "keep", why |-> "", uses |-> 0]
Is(d, w) == Cardinality({x \in Pats : Decide(pat[x]).d = d /\ (w = "any" \/ Decide(pat[x]).why = w)})
Why(w) == Cardinality({x \in Pats : Decide(pat[x]).why = w})
Sweep == [total |-> Cardinality(Pats), kept |-> Is("keep", "any"), usage |-> Why("usage"), failures |-> Why("failures"),
          superseded |-> Why("superseded"), archived |-> Is("archive", "any"), gone |-> {x \in Pats : Decide(pat[x]).d # "keep"}]
\* ---- CI gate
RECURSIVE SumC(_, _)
SumC(S, f) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN q[c][f] + SumC(S \ {c}, f)
Tot(f) == SumC(Codes, f)
Passes == LET n == Tot("hits") + Tot("misses") IN
  \/ n = 0
  \/ /\ Tot("hits") * HitD >= HitN * n
     /\ Tot("applied") = 0 \/ Tot("verified") * FixD >= FixN * Tot("applied")
Vis == [pat |-> pat, dec |-> [x \in Pats |-> Decide(pat[x])], sweep |-> Sweep, q |-> q,
        tot |-> [hits |-> Tot("hits"), misses |-> Tot("misses"), applied |-> Tot("applied"), verified |-> Tot("verified")], passes |-> Passes]
Log(rec) == hist' = Append(hist, rec @@ [s |-> Vis'])

Use(x, b) == /\ pat' = [pat EXCEPT ![x].uses = @ + 1, ![x].win = @ + 1, ![x].ok = @ + (IF b THEN 1 ELSE 0)]
             /\ UNCHANGED q /\ Log([op |-> "use", x |-> x, b |-> b])
Reset(x) == pat' = [pat EXCEPT ![x].win = 0] /\ UNCHANGED q /\ Log([op |-> "reset", x |-> x])
Supersede(x) == pat' = [pat EXCEPT ![x].sup = "better"] /\ UNCHANGED q /\ Log([op |-> "supersede", x |-> x])
Ev(f, c) == q' = [q EXCEPT ![c][f] = @ + 1] /\ UNCHANGED pat /\ Log([op |-> f, c |-> c])
Persist == UNCHANGED <<pat, q>> /\ hist # <<>> /\ Log([op |-> "persist"])
Init == pat = [x \in Pats |-> New] /\ q = [c \in Codes |-> [hits |-> 0, misses |-> 0, applied |-> 0, verified |-> 0]] /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \/ Ops # "gate" /\ \E x \in Pats : (\E b \in BOOLEAN : Use(x, b)) \/ Reset(x) \/ Supersede(x)
           \/ Ops # "retire" /\ \E f \in {"hits", "misses", "applied", "verified"}, c \in Codes : Ev(f, c)
           \/ Persist
Spec == Init /\ [][Next]_vars
\* a pattern leaves only for a reason that holds
Justified == \A x \in Pats : LET d == Decide(pat[x]) IN d.d # "keep" =>
   (pat[x].win < MinUse \/ pat[x].ok * RateD < RateN * pat[x].uses \/ pat[x].sup # "none")
Partition == Sweep.kept + Cardinality(Sweep.gone) = Sweep.total /\ Sweep.usage + Sweep.failures + Sweep.superseded = Cardinality(Sweep.gone)
Emit == IF EmitAt = 0 \/ Len(hist') = EmitAt THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT) ELSE TRUE
=============================================================================
