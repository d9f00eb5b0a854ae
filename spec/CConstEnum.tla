----------------------------- MODULE CConstEnum ----------------------------
(* Expressions with constant operands, which translators simplify: every   *)
(* binary operator over every pair of small constants, every operator with *)
(* one constant and one variable operand, constant subexpressions under a  *)
(* second operator, and conditions that are constant.  Each initial state  *)
(* is one expression.                                                      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
CONSTANTS Lits, Deep
LitSet == {-9, -8, -3, -2, -1, 0, 1, 2, 3, 7, 8, 31}
DeepPairs == {<<-7, 3>>, <<6, -4>>, <<2, 5>>}
BinOps == {"+","-","*","/","%","&","|","^","<<",">>","<","<=",">",">=","==","!=","&&","||"}
UnOps  == {"-","~","!"}
V(x)       == [k |-> "v", x |-> x]
B(o, l, r) == [k |-> "b", o |-> o, l |-> l, r |-> r]
U(o, e)    == [k |-> "u", o |-> o, e |-> e]
T(c, l, r) == [k |-> "t", c |-> c, l |-> l, r |-> r]
N(v)       == IF v >= 0 THEN [k |-> "n", v |-> v] ELSE U("-", [k |-> "n", v |-> -v])
VARIABLE e
Init == \/ \E o \in BinOps, l \in Lits, r \in Lits : e = B(o, N(l), N(r))
        \/ \E o \in BinOps, l \in Lits : e = B(o, N(l), V("b")) \/ e = B(o, V("b"), N(l))
        \/ \E uo \in UnOps, l \in Lits : e = U(uo, N(l)) \/ e = B("+", V("b"), U(uo, N(l)))
        \/ \E o1 \in BinOps, o2 \in BinOps, x \in Deep :
              \/ e = B(o1, V("b"), B(o2, N(x[1]), N(x[2])))
              \/ e = B(o1, B(o2, N(x[1]), N(x[2])), V("b"))
              \/ e = B(o1, B(o2, V("b"), N(x[1])), N(x[2]))
              \/ e = B(o1, N(x[1]), B(o2, N(x[2]), V("b")))
        \/ \E o \in BinOps, l \in Lits : e = T(B(o, N(l), N(2)), V("b"), N(l)) \/ e = T(N(l), B(o, V("b"), N(3)), V("b"))
        \/ \E o \in BinOps, uo \in UnOps, x \in Deep : e = U(uo, B(o, N(x[1]), N(x[2])))
Next == UNCHANGED e
Spec == Init /\ [][Next]_e
Emit == CSVWrite("%1$s", <<ToJson(e)>>, IOEnv.OUT)
=============================================================================
