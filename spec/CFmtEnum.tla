------------------------------ MODULE CFmtEnum -----------------------------
(* Every printf conversion of an int: conversion x flags x width x value.  *)
(* Each initial state is one printf argument.                              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
Convs  == {"d", "i", "u", "x", "X", "o", "c"}
Flags  == {"none", "left", "zero", "plus", "leftplus"}
Widths == {0, 1, 2, 5, 6, 11}
Vals   == {0, 1, -1, 7, 8, 42, -42, 255, 4096, 65535, -65535, 123456, 99999999}
VARIABLE s
Init == \E k \in Convs, f \in Flags, w \in Widths, v \in Vals :
   /\ f \in {"plus", "leftplus"} => k \in {"d", "i"}
   /\ k = "c" => f \in {"none", "left"} /\ v \in {42}
   /\ f \in {"zero", "left", "leftplus"} => w > 0
   /\ k \in {"u", "x", "X", "o"} => v >= 0
   /\ s = [k |-> k, left |-> f \in {"left", "leftplus"}, zero |-> f = "zero", plus |-> f \in {"plus", "leftplus"}, w |-> w, v |-> v]
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Emit == CSVWrite("%1$s", <<ToJson(s)>>, IOEnv.OUT)
=============================================================================
