----------------------------- MODULE CStmtEnum -----------------------------
(* Every function built from an outer and an inner control construct, with *)
(* a jump (or none) at one of the places a jump can be.  h records the     *)
(* path taken (an order-sensitive hash), so two executions that take       *)
(* different paths return different values.                                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
N(x)       == [k |-> "n", v |-> x]
V(x)       == [k |-> "v", x |-> x]
B(o, l, r) == [k |-> "b", o |-> o, l |-> l, r |-> r]
Asg(x, e)  == [k |-> "asg", lv |-> V(x), o |-> "=", e |-> e]
Inc(x)     == [k |-> "inc", lv |-> V(x), o |-> "++"]
Decl(x, e) == [k |-> "decl", x |-> x, e |-> e]
\* h = (h * 7 + m) % 10007
Mark(m)    == Asg("h", B("%", B("+", B("*", V("h"), N(7)), N(m)), N(10007)))
If(c, t, f) == [k |-> "if", c |-> c, t |-> t, f |-> f]
None       == [k |-> "none"]

Outer == {"if", "ifelse", "else", "elseif", "while", "for", "forno", "dowhile", "switch", "fall", "default", "block"}
Inner == {"if", "ifelse", "elseif", "while", "for", "forno", "dowhile", "switch", "fall", "seq"}
Jump  == {"none", "break", "continue", "return"}
Place == {"before", "after", "tail"}
InLoop(c)   == c \in {"while", "for", "forno", "dowhile"}
InSwitch(c) == c \in {"switch", "fall", "default"}

J(j) == CASE j = "none" -> <<>> [] j = "break" -> <<[k |-> "br"]>> [] j = "continue" -> <<[k |-> "co"]>>
          [] j = "return" -> <<[k |-> "ret", e |-> B("+", V("h"), N(20000))]>>
\* the jump is taken on some iterations / inputs only
Guarded(j, x) == IF j = "none" THEN <<>> ELSE <<If(B("==", V(x), V("b")), J(j), <<>>)>>

\* last: the body ends in a jump, nothing may follow it in the construct
End(last, m) == IF last THEN <<>> ELSE <<Mark(m)>>
\* construct c with loop counter x, selector e, marks from m, containing body
Con(c, x, e, m, body, last) ==
  LET lim == B("<", V(x), N(3)) IN
  CASE c = "if"     -> <<If(B(">", e, N(0)), <<Mark(m)>> \o body, <<>>)>>
    [] c = "ifelse" -> <<If(B(">", e, N(0)), <<Mark(m)>> \o body, <<Mark(m + 1)>>)>>
    [] c = "else"   -> <<If(B(">", e, N(1)), <<Mark(m)>>, <<Mark(m + 1)>> \o body)>>
    [] c = "elseif" -> <<If(B("==", e, N(2)), <<Mark(m)>>, <<If(B("==", e, N(1)), <<Mark(m + 1)>> \o body, <<Mark(m + 2)>>)>>)>>
    [] c = "while"  -> <<Asg(x, N(0)), [k |-> "wh", c |-> lim, b |-> <<Inc(x), Mark(m)>> \o body \o End(last, m + 1)]>>
    [] c = "for"    -> <<[k |-> "for", i |-> <<Asg(x, N(0))>>, c |-> lim, u |-> <<Inc(x)>>, b |-> <<Mark(m)>> \o body \o End(last, m + 1)]>>
    [] c = "forno"  -> <<Asg(x, N(0)), [k |-> "for", i |-> <<>>, c |-> None, u |-> <<Inc(x), Mark(m + 2)>>,
                          b |-> <<If(B(">=", V(x), N(3)), <<[k |-> "br"]>>, <<>>), Mark(m)>> \o body \o End(last, m + 1)]>>
    [] c = "dowhile" -> <<Asg(x, N(0)), [k |-> "dw", c |-> lim, b |-> <<Inc(x), Mark(m)>> \o body \o End(last, m + 1)]>>
    [] c = "switch" -> <<[k |-> "sw", e |-> e, cs |-> <<
                          [v |-> <<0>>, d |-> FALSE, b |-> <<Mark(m), [k |-> "br"]>>],
                          [v |-> <<1, 3>>, d |-> FALSE, b |-> <<Mark(m + 1)>> \o body \o (IF last THEN <<>> ELSE <<Mark(m + 2), [k |-> "br"]>>)],
                          [v |-> <<>>, d |-> TRUE, b |-> <<Mark(m + 3), [k |-> "br"]>>]>>]>>
    [] c = "fall"   -> <<[k |-> "sw", e |-> e, cs |-> <<
                          [v |-> <<0>>, d |-> FALSE, b |-> <<Mark(m)>>],
                          [v |-> <<1>>, d |-> FALSE, b |-> <<Mark(m + 1)>> \o body],
                          [v |-> <<2>>, d |-> FALSE, b |-> <<Mark(m + 2), [k |-> "br"]>>],
                          [v |-> <<>>, d |-> TRUE, b |-> <<Mark(m + 3)>>]>>]>>
    [] c = "default" -> <<[k |-> "sw", e |-> e, cs |-> <<
                          [v |-> <<0>>, d |-> FALSE, b |-> <<Mark(m), [k |-> "br"]>>],
                          [v |-> <<>>, d |-> TRUE, b |-> <<Mark(m + 1)>> \o body]>>]>>
    [] c = "block"  -> <<[k |-> "blk", b |-> <<Mark(m)>> \o body]>>
    [] c = "seq"    -> <<Mark(m)>> \o body

\* the inner jump ji sits (guarded) in the inner construct; the outer jump jo
\* sits (guarded) before the inner construct or (plain) at the end of the body
InLegal(o, n, j) ==
  CASE j \in {"none", "return"} -> TRUE
    [] j = "break"    -> InLoop(o) \/ InSwitch(o) \/ InLoop(n) \/ InSwitch(n)
    [] j = "continue" -> InLoop(o) \/ InLoop(n)
OutLegal(o, j) ==
  CASE j \in {"none", "return"} -> TRUE
    [] j = "break"    -> InLoop(o) \/ InSwitch(o)
    [] j = "continue" -> InLoop(o)
Body(s0) ==
  Con(s0.o, "i", V("a"), 1,
      (IF s0.p = "before" THEN Guarded(s0.jo, "i") ELSE <<>>)
      \o Con(s0.n, "k", V("c"), 11, Guarded(s0.ji, "k"), FALSE)
      \o (IF s0.p = "after" THEN Guarded(s0.jo, "i")
          ELSE IF s0.p = "tail" THEN <<Mark(19)>> \o J(s0.jo) ELSE <<>>), s0.p = "tail")
Fun(s0) ==
  <<Decl("h", N(0)), Decl("i", V("c")), Decl("k", V("a"))>> \o Body(s0)
  \o <<Mark(6), [k |-> "ret", e |-> B("+", V("h"), B("*", N(20000), B("+", V("i"), B("*", V("k"), N(10)))))]>>
VARIABLE s
Init == \E o \in Outer, n \in Inner, ji \in Jump, jo \in Jump, p \in Place :
           /\ InLegal(o, n, ji) /\ OutLegal(o, jo) /\ (jo = "none" => p = "before")
           /\ s = [o |-> o, n |-> n, ji |-> ji, jo |-> jo, p |-> p]
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Emit == CSVWrite("%1$s", <<ToJson([s |-> s, b |-> Fun(s)])>>, IOEnv.OUT)
=============================================================================
