----------------------------- MODULE CExprEnum -----------------------------
(* Every int expression with two operators over the parameters a, b, c:    *)
(* both nestings of every pair of binary operators, every unary operator   *)
(* around and inside every binary one, and the conditional operator in and *)
(* around every binary operator.  Each initial state is one expression.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
BinOps == {"+","-","*","/","%","&","|","^","<<",">>","<","<=",">",">=","==","!=","&&","||"}
UnOps  == {"-","~","!"}
V(x)       == [k |-> "v", x |-> x]
B(o, l, r) == [k |-> "b", o |-> o, l |-> l, r |-> r]
U(o, e)    == [k |-> "u", o |-> o, e |-> e]
T(c, l, r) == [k |-> "t", c |-> c, l |-> l, r |-> r]
A == V("a")  Bv == V("b")  C == V("c")

Shape(kind, o1, o2) ==
  CASE kind = "left"   -> B(o2, B(o1, A, Bv), C)
    [] kind = "right"  -> B(o1, A, B(o2, Bv, C))
UShape(kind, uo, o) ==
  CASE kind = "uout"  -> U(uo, B(o, A, Bv))
    [] kind = "uleft" -> B(o, U(uo, A), Bv)
    [] kind = "uright"-> B(o, A, U(uo, Bv))
    [] kind = "utern" -> T(B(o, A, Bv), U(uo, C), A)
TShape(kind, o) ==
  CASE kind = "tcond"  -> T(B(o, A, Bv), C, A)
    [] kind = "tthen"  -> T(A, B(o, Bv, C), C)
    [] kind = "telse"  -> T(A, Bv, B(o, Bv, C))
    [] kind = "tleft"  -> B(o, T(A, Bv, C), Bv)
    [] kind = "tright" -> B(o, A, T(C, Bv, A))
    [] kind = "tboth"  -> B(o, T(A, Bv, C), T(C, A, Bv))
VARIABLE e
Init == \/ \E kd \in {"left", "right"}, o1 \in BinOps, o2 \in BinOps : e = Shape(kd, o1, o2)
        \/ \E kd \in {"uout", "uleft", "uright", "utern"}, uo \in UnOps, o \in BinOps : e = UShape(kd, uo, o)
        \/ \E kd \in {"tcond", "tthen", "telse", "tleft", "tright", "tboth"}, o \in BinOps : e = TShape(kd, o)
        \/ \E u1 \in UnOps, u2 \in UnOps : e = U(u1, U(u2, A))
        \/ \E o \in BinOps : e = B(o, A, Bv)
        \/ \E uo \in UnOps : e = U(uo, A)
Next == UNCHANGED e
Spec == Init /\ [][Next]_e
Emit == CSVWrite("%1$s", <<ToJson(e)>>, IOEnv.OUT)
=============================================================================
