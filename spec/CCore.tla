------------------------------- MODULE CCore -------------------------------
(***************************************************************************)
(* Operational semantics of the C subset that decy translates.             *)
(*                                                                         *)
(* A program is a record [f |-> functions, g |-> globals]; an abstract     *)
(* machine state is                                                        *)
(*   m   memory: object -> sequence of int cells; an object is <<depth,    *)
(*       name>>, depth 0 being the globals and depth d the d-th frame      *)
(*   p   pointer variables: object -> <<target object, offset>>            *)
(*   d   depth of the current frame                                        *)
(*   k   remaining steps (an execution that exhausts them is undefined)    *)
(*   o   standard output so far, a sequence of character codes             *)
(*   h   number of heap allocations so far                                 *)
(*                                                                         *)
(* A heap object is <<0, name>> with the name derived from its handle; a   *)
(* pointer into the heap is an int cell holding the handle, NULL being 0.  *)
(*                                                                         *)
(* The expression semantics is C's on int: truncating division, two's      *)
(* complement bit operations, 0/1 results of comparisons, short circuit.   *)
(* UB marks every value that C leaves undefined (or that falls outside     *)
(* the range this model can represent): no claim is made about those.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

UB  == -2000000000
HBase == 500000000
HObj(v) == <<0, "@" \o ToString(v)>>
Lim == 1000000000

Norm(v)  == IF v > Lim \/ v < -Lim THEN UB ELSE v
Abs(v)   == IF v < 0 THEN -v ELSE v
B2I(b)   == IF b THEN 1 ELSE 0
Sgn(v)   == IF v < 0 THEN -1 ELSE 1
Pow2(n)  == 2^n

CDiv(a, b) == IF b = 0 THEN UB ELSE Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
CMod(a, b) == IF b = 0 THEN UB ELSE Sgn(a) * (Abs(a) % Abs(b))
CMul(a, b) == IF a = 0 \/ b = 0 THEN 0
              ELSE IF Abs(a) > Lim \div Abs(b) THEN UB ELSE a * b
CShl(a, n) == IF n < 0 \/ n > 29 \/ a < 0 THEN UB
              ELSE IF a > Lim \div Pow2(n) THEN UB ELSE a * Pow2(n)
CShr(a, n) == IF n < 0 \/ n > 31 THEN UB
              ELSE IF n >= 30 THEN (IF a < 0 THEN -1 ELSE 0) ELSE a \div Pow2(n)
\* two's complement on unbounded integers: ~x = -x-1
CNot(a)    == (-a) - 1
CAnd(a, b) == IF a >= 0 /\ b >= 0 THEN a & b
              ELSE IF a >= 0 THEN a - (a & CNot(b))
              ELSE IF b >= 0 THEN b - (b & CNot(a))
              ELSE CNot(CNot(a) | CNot(b))
COr(a, b)  == CNot(CAnd(CNot(a), CNot(b)))
CXor(a, b) == CAnd(COr(a, b), CNot(CAnd(a, b)))

BinOp(o, a, b) ==
  IF a = UB \/ b = UB THEN UB ELSE
  CASE o = "+"  -> Norm(a + b)
    [] o = "-"  -> Norm(a - b)
    [] o = "*"  -> Norm(CMul(a, b))
    [] o = "/"  -> CDiv(a, b)
    [] o = "%"  -> CMod(a, b)
    [] o = "&"  -> Norm(CAnd(a, b))
    [] o = "|"  -> Norm(COr(a, b))
    [] o = "^"  -> Norm(CXor(a, b))
    [] o = "<<" -> CShl(a, b)
    [] o = ">>" -> CShr(a, b)
    [] o = "==" -> B2I(a = b)
    [] o = "!=" -> B2I(a /= b)
    [] o = "<"  -> B2I(a < b)
    [] o = "<=" -> B2I(a <= b)
    [] o = ">"  -> B2I(a > b)
    [] o = ">=" -> B2I(a >= b)
    [] OTHER    -> UB

UnOp(o, a) ==
  IF a = UB THEN UB ELSE
  CASE o = "-" -> -a
    [] o = "+" -> a
    [] o = "~" -> Norm(CNot(a))
    [] o = "!" -> B2I(a = 0)
    [] OTHER   -> UB

NoLoc == <<<<0, "">>, -1>>

\* the object a name denotes in the current frame (local first, then global)
Obj(x, st) == IF <<st.d, x>> \in DOMAIN st.m THEN <<st.d, x>> ELSE <<0, x>>

ValidLoc(loc, st) == /\ loc[1] \in DOMAIN st.m
                     /\ loc[2] >= 0 /\ loc[2] < Len(st.m[loc[1]])
Rd(loc, st) == IF ValidLoc(loc, st) THEN st.m[loc[1]][loc[2] + 1] ELSE UB
Wr(loc, v, st) == [st EXCEPT !.m = [st.m EXCEPT ![loc[1]] = [@ EXCEPT ![loc[2] + 1] = v]]]

Bind(x, cells, st) == [st EXCEPT !.m = (<<st.d, x>> :> cells) @@ st.m]
BindP(x, loc, st)  == [st EXCEPT !.p = (<<st.d, x>> :> loc) @@ st.p]

(***************************************************************************)
(* printf: conversion of an int to character codes                         *)
(***************************************************************************)
RECURSIVE Digits(_, _)
Digits(n, base) == IF n < base THEN <<n>> ELSE Append(Digits(n \div base, base), n % base)
DigitCode(dg, upper) == IF dg < 10 THEN 48 + dg ELSE (IF upper THEN 55 ELSE 87) + dg
RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN <<>> ELSE <<c>> \o Rep(c, n - 1)
\* part: [k, w, left, zero, plus]
FmtInt(pt, v) ==
  LET base == IF pt.k = "x" \/ pt.k = "X" THEN 16 ELSE IF pt.k = "o" THEN 8 ELSE 10
      ds   == Digits(Abs(v), base)
      body == [i \in 1..Len(ds) |-> DigitCode(ds[i], pt.k = "X")]
      sign == IF v < 0 THEN <<45>> ELSE IF pt.plus THEN <<43>> ELSE <<>>
      pad  == pt.w - Len(sign) - Len(body)
  IN IF pt.left THEN sign \o body \o Rep(32, pad)
     ELSE IF pt.zero THEN sign \o Rep(48, pad) \o body
     ELSE Rep(32, pad) \o sign \o body

(***************************************************************************)
(* Expressions                                                             *)
(***************************************************************************)
RECURSIVE Eval(_, _, _), Loc(_, _, _), Exec(_, _, _), ExecSeq(_, _, _, _),
          Loop(_, _, _, _, _), Call(_, _, _, _), BindArgs(_, _, _, _, _),
          Cases(_, _, _, _), PrintParts(_, _, _, _),
          EvalS(_, _, _), LocS(_, _, _), ArgsS(_, _, _, _)

Eval(e, st, P) ==
  CASE e.k = "n"  -> e.v
    [] e.k = "v"  -> Rd(<<Obj(e.x, st), 0>>, st)
    [] e.k = "u"  -> UnOp(e.o, Eval(e.e, st, P))
    [] e.k = "b"  ->
         IF e.o = "&&" THEN
           LET a == Eval(e.l, st, P) IN
           IF a = UB THEN UB ELSE IF a = 0 THEN 0
           ELSE LET b == Eval(e.r, st, P) IN IF b = UB THEN UB ELSE B2I(b /= 0)
         ELSE IF e.o = "||" THEN
           LET a == Eval(e.l, st, P) IN
           IF a = UB THEN UB ELSE IF a /= 0 THEN 1
           ELSE LET b == Eval(e.r, st, P) IN IF b = UB THEN UB ELSE B2I(b /= 0)
         ELSE BinOp(e.o, Eval(e.l, st, P), Eval(e.r, st, P))
    [] e.k = "t"  -> LET c == Eval(e.c, st, P) IN
                     IF c = UB THEN UB
                     ELSE IF c /= 0 THEN Eval(e.l, st, P) ELSE Eval(e.r, st, P)
    [] e.k = "call" -> LET r == Call(e.f, e.a, st, P) IN
                     IF r.sig = "r" THEN r.v ELSE UB
    [] OTHER      -> LET loc == Loc(e, st, P) IN Rd(loc, st)

\* the location an lvalue expression denotes
Loc(e, st, P) ==
  CASE e.k = "v"   -> <<Obj(e.x, st), 0>>
    [] e.k = "ix"  -> LET i == Eval(e.e, st, P) IN
                      IF i = UB THEN NoLoc ELSE <<Obj(e.x, st), i>>
    [] e.k = "ix2" -> LET i == Eval(e.e, st, P)  j == Eval(e.e2, st, P) IN
                      IF i = UB \/ j = UB \/ j < 0 \/ j >= e.n THEN NoLoc
                      ELSE <<Obj(e.x, st), i * e.n + j>>
    [] e.k = "fd"  -> <<Obj(e.x, st), e.i>>
    [] e.k = "sfd" -> LET i == Eval(e.e, st, P) IN
                      IF i = UB THEN NoLoc ELSE <<Obj(e.x, st), i * e.n + e.i>>
    [] e.k = "dr"  -> st.p[<<st.d, e.x>>]
    [] e.k = "pix" -> LET i == Eval(e.e, st, P)  q == st.p[<<st.d, e.x>>] IN
                      IF i = UB THEN NoLoc ELSE <<q[1], q[2] + i>>
    [] e.k = "ar"  -> LET q == st.p[<<st.d, e.x>>] IN <<q[1], q[2] + e.i>>
    [] e.k = "hp"  -> LET h == Eval(e.p, st, P)  i == Eval(e.e, st, P) IN
                      IF h = UB \/ i = UB \/ i < 0 THEN NoLoc ELSE <<HObj(h), i * e.w + e.i>>
    [] OTHER       -> NoLoc

(***************************************************************************)
(* Function calls: arguments are int values, addresses or pointers         *)
(***************************************************************************)
BindArgs(ps, as, i, old, new) ==
  \* new already has depth old.d + 1; as[i] evaluated in the caller's state
  IF i > Len(ps) THEN new
  ELSE LET a == as[i] IN
    IF a.k = "loc" THEN BindArgs(ps, as, i + 1, old, BindP(ps[i].x, a.l, new))
    ELSE BindArgs(ps, as, i + 1, old, Bind(ps[i].x, <<a.v>>, new))

ArgVal(a, st, P) ==
  CASE a.k = "i" -> [k |-> "int", v |-> Eval(a.e, st, P), l |-> NoLoc]
    [] a.k = "a" -> [k |-> "loc", v |-> 0, l |-> Loc(a.e, st, P)]
    [] a.k = "p" -> [k |-> "loc", v |-> 0, l |-> st.p[<<st.d, a.x>>]]

BadArg(a, st) == (a.k = "int" /\ a.v = UB) \/ (a.k = "loc" /\ ~ValidLoc(a.l, st))

Call(f, args, st, P) ==
  LET fn == P.f[f]
      as == [i \in 1..Len(args) |-> ArgVal(args[i], st, P)]
  IN IF st.k <= 0 \/ \E i \in 1..Len(as) : BadArg(as[i], st)
     THEN [st |-> st, sig |-> "u", v |-> UB]
     ELSE LET s0 == [st EXCEPT !.d = st.d + 1, !.k = st.k - 1]
              s1 == BindArgs(fn.p, as, 1, st, s0)
              r  == ExecSeq(fn.b, 1, s1, P)
              dd == st.d
              s2 == [r.st EXCEPT !.d = dd,
                       !.m = [o \in {x \in DOMAIN r.st.m : x[1] <= dd} |-> r.st.m[o]],
                       !.p = [o \in {x \in DOMAIN r.st.p : x[1] <= dd} |-> r.st.p[o]]]
          IN IF r.sig = "u" THEN [st |-> s2, sig |-> "u", v |-> UB]
             ELSE IF r.sig = "r" THEN [st |-> s2, sig |-> "r", v |-> r.v]
             ELSE [st |-> s2, sig |-> "n", v |-> UB]

(***************************************************************************)
(* Statements.  Result: [st, sig, v]; sig is n(ormal), b(reak), c(ontinue),*)
(* r(eturn v) or u(ndefined).                                              *)
(***************************************************************************)
Ok(st)      == [st |-> st, sig |-> "n", v |-> 0]
Undef(st)   == [st |-> st, sig |-> "u", v |-> UB]
Sig(st, s)  == [st |-> st, sig |-> s, v |-> 0]

Store(lv, v, st, P) ==
  LET loc == Loc(lv, st, P) IN
  IF v = UB \/ ~ValidLoc(loc, st) THEN Undef(st) ELSE Ok(Wr(loc, v, st))

CompOp(o) == CASE o = "+=" -> "+" [] o = "-=" -> "-" [] o = "*=" -> "*" [] o = "/=" -> "/"
               [] o = "%=" -> "%" [] o = "&=" -> "&" [] o = "|=" -> "|" [] o = "^=" -> "^"
               [] o = "<<=" -> "<<" [] o = ">>=" -> ">>"

(***************************************************************************)
(* Expressions with side effects: assignments, increments and commas       *)
(* inside expressions.  EvalS yields the value v, the state afterwards and *)
(* the locations read (r) and written (w); two operands that are not       *)
(* separated by a sequence point and touch a common location, at least one *)
(* of them writing it, have no defined value (C11 6.5p2).  An expression   *)
(* of this kind is wrapped as [k |-> "fx", e |-> ...] where it stands.     *)
(***************************************************************************)
Val(st, v, r, w) == [st |-> st, v |-> v, r |-> r, w |-> w]
Clash(a, b) == (a.w \cap (b.r \cup b.w)) /= {} \/ (b.w \cap a.r) /= {}
Seqd(a, b, v) == Val(b.st, v, a.r \cup b.r, a.w \cup b.w)     \* a, then b
Changed(s, t) == UNION {{<<o, i - 1>> : i \in {j \in 1..Len(s.m[o]) : s.m[o][j] /= t.m[o][j]}} :
                        o \in DOMAIN s.m \cap DOMAIN t.m}

EvalS(e, st, P) ==
  CASE e.k = "n"  -> Val(st, e.v, {}, {})
    [] e.k = "u"  -> LET a == EvalS(e.e, st, P) IN [a EXCEPT !.v = UnOp(e.o, a.v)]
    [] e.k = "b" /\ e.o \in {"&&", "||"} ->
         LET a == EvalS(e.l, st, P) IN
         IF a.v = UB THEN a
         ELSE IF (a.v = 0) = (e.o = "&&") THEN [a EXCEPT !.v = B2I(a.v /= 0)]
         ELSE LET b == EvalS(e.r, a.st, P) IN Seqd(a, b, IF b.v = UB THEN UB ELSE B2I(b.v /= 0))
    [] e.k = "b"  -> LET a == EvalS(e.l, st, P)  b == EvalS(e.r, a.st, P) IN
         Seqd(a, b, IF Clash(a, b) THEN UB ELSE BinOp(e.o, a.v, b.v))
    [] e.k = "t"  -> LET c == EvalS(e.c, st, P) IN
         IF c.v = UB THEN c
         ELSE LET b == EvalS(IF c.v /= 0 THEN e.l ELSE e.r, c.st, P) IN Seqd(c, b, b.v)
    [] e.k = "ec" -> LET a == EvalS(e.l, st, P)  b == EvalS(e.r, a.st, P) IN
         Seqd(a, b, IF a.v = UB THEN UB ELSE b.v)
    [] e.k = "call" ->
         LET as == ArgsS(e.a, 1, Val(st, 0, {}, {}), P) IN
         IF as.v = UB THEN Val(as.st, UB, as.r, as.w)
         ELSE LET r == Call(e.f, as.a, as.st, P) IN
              Val(r.st, IF r.sig = "r" THEN r.v ELSE UB, as.r, as.w \cup Changed(as.st, r.st))
    [] e.k = "ei" ->
         LET l == LocS(e.lv, st, P) IN
         IF ~ValidLoc(l.v, l.st) \/ l.v \in l.w THEN Val(l.st, UB, l.r, l.w)
         ELSE LET old == Rd(l.v, l.st)
                  new == BinOp(IF e.o = "++" THEN "+" ELSE "-", old, 1)
              IN IF new = UB THEN Val(l.st, UB, l.r, l.w)
                 ELSE Val(Wr(l.v, new, l.st), IF e.pre THEN new ELSE old, l.r \cup {l.v}, l.w \cup {l.v})
    [] e.k = "ea" ->
         LET l == LocS(e.lv, st, P)
             a == EvalS(e.e, l.st, P)
             x == Seqd(l, a, UB)
         IN IF a.v = UB \/ ~ValidLoc(l.v, l.st) \/ Clash(l, a) \/ l.v \in x.w THEN x
            ELSE LET v == IF e.o = "=" THEN a.v ELSE BinOp(CompOp(e.o), Rd(l.v, a.st), a.v) IN
                 IF v = UB THEN x ELSE Val(Wr(l.v, v, a.st), v, x.r \cup {l.v}, x.w \cup {l.v})
    [] OTHER -> LET l == LocS(e, st, P) IN
                Val(l.st, IF l.v \in l.w THEN UB ELSE Rd(l.v, l.st), l.r \cup {l.v}, l.w)

LocS(e, st, P) ==
  CASE e.k \in {"ix", "sfd", "pix"} ->
         LET i == EvalS(e.e, st, P) IN
         [i EXCEPT !.v = IF i.v = UB THEN NoLoc
            ELSE IF e.k = "ix" THEN <<Obj(e.x, st), i.v>>
            ELSE IF e.k = "sfd" THEN <<Obj(e.x, st), i.v * e.n + e.i>>
            ELSE LET q == st.p[<<st.d, e.x>>] IN <<q[1], q[2] + i.v>>]
    [] e.k = "ix2" ->
         LET i == EvalS(e.e, st, P)  j == EvalS(e.e2, i.st, P) IN
         Seqd(i, j, IF i.v = UB \/ j.v = UB \/ Clash(i, j) \/ j.v < 0 \/ j.v >= e.n THEN NoLoc
                    ELSE <<Obj(e.x, st), i.v * e.n + j.v>>)
    [] OTHER -> Val(st, Loc(e, st, P), {}, {})

\* int arguments, unsequenced among each other; a: literal arguments for Call
ArgsS(as, i, acc, P) ==
  IF i > Len(as) THEN [st |-> acc.st, v |-> acc.v, r |-> acc.r, w |-> acc.w, a |-> <<>>]
  ELSE LET x == EvalS(as[i].e, acc.st, P)
           rest == ArgsS(as, i + 1, Seqd(acc, x, IF x.v = UB \/ acc.v = UB \/ Clash(acc, x) THEN UB ELSE 0), P)
       IN [rest EXCEPT !.a = <<[k |-> "i", e |-> [k |-> "n", v |-> x.v]]>> \o rest.a]

Ev(e, st, P) == IF e.k = "fx" THEN EvalS(e.e, st, P) ELSE [st |-> st, v |-> Eval(e, st, P)]

ExecSeq(ss, i, st, P) ==
  IF i > Len(ss) THEN Ok(st)
  ELSE LET r == Exec(ss[i], st, P) IN
       IF r.sig = "n" THEN ExecSeq(ss, i + 1, r.st, P) ELSE r

\* loops: condition c (has = FALSE: none), body b, update u; test-first unless first
Loop(s, st, P, first, n) ==
  IF n <= 0 \/ st.k <= 0 THEN Undef(st)
  ELSE LET c == IF first \/ s.c.k = "none" THEN [st |-> st, v |-> 1] ELSE Ev(s.c, st, P) IN
    IF c.v = UB THEN Undef(st)
    ELSE IF c.v = 0 THEN Ok(c.st)
    ELSE LET s1 == [c.st EXCEPT !.k = st.k - 1]
             r  == ExecSeq(s.b, 1, s1, P) IN
      IF r.sig = "b" THEN Ok(r.st)
      ELSE IF r.sig \in {"r", "u"} THEN r
      ELSE LET ru == ExecSeq(s.u, 1, r.st, P) IN
           IF ru.sig = "u" THEN ru ELSE Loop(s, ru.st, P, FALSE, n - 1)

\* switch: run the sections from index i on (fallthrough) until a break
Cases(cs, i, st, P) ==
  IF i > Len(cs) THEN Ok(st)
  ELSE LET r == ExecSeq(cs[i].b, 1, st, P) IN
       IF r.sig = "n" THEN Cases(cs, i + 1, r.st, P)
       ELSE IF r.sig = "b" THEN Ok(r.st) ELSE r

SeqHas(s, v) == \E i \in 1..Len(s) : s[i] = v

PrintParts(ps, i, st, P) ==
  IF i > Len(ps) THEN Ok(st)
  ELSE LET pt == ps[i] IN
    IF pt.k = "s" THEN PrintParts(ps, i + 1, [st EXCEPT !.o = st.o \o pt.t], P)
    ELSE IF pt.k = "lit" THEN          \* %s: precision pr (-1: none), width w
      LET tx == IF pt.pr >= 0 /\ pt.pr < Len(pt.t) THEN SubSeq(pt.t, 1, pt.pr) ELSE pt.t
          pd == Rep(32, pt.w - Len(tx))
      IN PrintParts(ps, i + 1, [st EXCEPT !.o = st.o \o (IF pt.left THEN tx \o pd ELSE pd \o tx)], P)
    ELSE LET v == Eval(pt.e, st, P) IN
      IF v = UB THEN Undef(st)
      ELSE IF pt.k = "c" THEN
             IF v < 1 \/ v > 126 THEN Undef(st)
             ELSE PrintParts(ps, i + 1, [st EXCEPT !.o = st.o \o
                     (IF pt.left THEN <<v>> \o Rep(32, pt.w - 1) ELSE Rep(32, pt.w - 1) \o <<v>>)], P)
      ELSE IF pt.k \in {"x", "X", "o", "u"} /\ v < 0 THEN Undef(st)
      ELSE PrintParts(ps, i + 1, [st EXCEPT !.o = st.o \o FmtInt(pt, v)], P)

Exec(s, st, P) ==
  CASE s.k = "asg" ->
         LET v == IF s.o = "=" THEN Eval(s.e, st, P)
                  ELSE BinOp(CompOp(s.o), Eval(s.lv, st, P), Eval(s.e, st, P))
         IN Store(s.lv, v, st, P)
    [] s.k = "inc" ->
         Store(s.lv, BinOp(IF s.o = "++" THEN "+" ELSE "-", Eval(s.lv, st, P), 1), st, P)
    [] s.k = "decl" ->
         LET a == Ev(s.e, st, P) IN
         IF a.v = UB THEN Undef(st) ELSE Ok(Bind(s.x, <<a.v>>, a.st))
    [] s.k = "fxs" ->       \* an expression evaluated for its effects
         LET a == EvalS(s.e, st, P) IN
         IF a.v = UB THEN Undef(st) ELSE Ok(a.st)
    [] s.k = "decl0" -> Ok(Bind(s.x, <<UB>>, st))
    [] s.k = "darr" ->      \* array / struct with initialisers, rest zero
         LET vs == [i \in 1..s.n |-> IF i <= Len(s.i) THEN Eval(s.i[i], st, P) ELSE 0] IN
         IF \E i \in 1..s.n : vs[i] = UB THEN Undef(st) ELSE Ok(Bind(s.x, vs, st))
    [] s.k = "hnew" ->      \* lv = malloc/calloc of n elements of w cells
         LET n == Eval(s.n, st, P)
             h == HBase + st.h
             s1 == [st EXCEPT !.h = st.h + 1,
                      !.m = (HObj(h) :> [i \in 1..(n * s.w) |-> IF s.z THEN 0 ELSE UB]) @@ st.m] IN
         IF n = UB \/ n <= 0 \/ n > 100 THEN Undef(st)
         ELSE IF s.dcl THEN Ok(Bind(s.lv.x, <<h>>, s1)) ELSE Store(s.lv, h, s1, P)
    [] s.k = "free" ->
         LET h == Eval(s.p, st, P) IN
         IF h = 0 THEN Ok(st)
         ELSE IF h = UB \/ HObj(h) \notin DOMAIN st.m THEN Undef(st)
         ELSE Ok([st EXCEPT !.m = [o \in DOMAIN st.m \ {HObj(h)} |-> st.m[o]]])
    [] s.k = "darr0" -> Ok(Bind(s.x, [i \in 1..s.n |-> UB], st))
    [] s.k = "dptr" ->
         LET loc == Loc(s.e, st, P) IN
         IF ValidLoc(loc, st) THEN Ok(BindP(s.x, loc, st)) ELSE Undef(st)
    [] s.k = "if" ->
         LET c == Ev(s.c, st, P) IN
         IF c.v = UB THEN Undef(st)
         ELSE IF c.v /= 0 THEN ExecSeq(s.t, 1, c.st, P) ELSE ExecSeq(s.f, 1, c.st, P)
    [] s.k = "wh"  -> Loop([c |-> s.c, b |-> s.b, u |-> <<>>], st, P, FALSE, 200)
    [] s.k = "dw"  -> Loop([c |-> s.c, b |-> s.b, u |-> <<>>], st, P, TRUE, 200)
    [] s.k = "for" ->
         LET r == ExecSeq(s.i, 1, st, P) IN
         IF r.sig = "u" THEN r ELSE Loop([c |-> s.c, b |-> s.b, u |-> s.u], r.st, P, FALSE, 200)
    [] s.k = "sw" ->
         LET a == Ev(s.e, st, P) IN
         IF a.v = UB THEN Undef(st)
         ELSE LET hit == {i \in 1..Len(s.cs) : SeqHas(s.cs[i].v, a.v)}
                  dfl == {i \in 1..Len(s.cs) : s.cs[i].d}
              IN IF hit /= {} THEN Cases(s.cs, CHOOSE i \in hit : TRUE, a.st, P)
                 ELSE IF dfl /= {} THEN Cases(s.cs, CHOOSE i \in dfl : TRUE, a.st, P)
                 ELSE Ok(a.st)
    [] s.k = "blk" -> ExecSeq(s.b, 1, st, P)
    [] s.k = "br"  -> Sig(st, "b")
    [] s.k = "co"  -> Sig(st, "c")
    [] s.k = "ret" -> LET a == Ev(s.e, st, P) IN
                      IF a.v = UB THEN Undef(st) ELSE [st |-> a.st, sig |-> "r", v |-> a.v]
    [] s.k = "retv" -> [st |-> st, sig |-> "r", v |-> 0]
    [] s.k = "call" -> LET r == Call(s.f, s.a, st, P) IN
                       IF r.sig = "u" THEN r ELSE Ok(r.st)
    [] s.k = "acall" -> LET r == Call(s.f, s.a, st, P) IN
                       IF r.sig /= "r" THEN Undef(r.st) ELSE Store(s.lv, r.v, r.st, P)
    [] s.k = "dcall" -> LET r == Call(s.f, s.a, st, P) IN
                       IF r.sig /= "r" THEN Undef(r.st) ELSE Ok(Bind(s.x, <<r.v>>, r.st))
    [] s.k = "pr"  -> PrintParts(s.ps, 1, st, P)
    [] OTHER -> Undef(st)

(***************************************************************************)
(* Whole runs                                                              *)
(***************************************************************************)
InitState(P) ==
  [m |-> [o \in {<<0, P.g[i].x>> : i \in 1..Len(P.g)} |->
            (CHOOSE i \in 1..Len(P.g) : P.g[i].x = o[2]) ] ,
   p |-> [o \in {} |-> NoLoc], d |-> 0, k |-> 2000, o |-> <<>>, h |-> 0]

Start(P) == LET s == InitState(P) IN
  [s EXCEPT !.m = [o \in DOMAIN s.m |-> P.g[s.m[o]].i]]

\* call function f with int arguments: [v, out], v = UB when undefined
RunFn(P, f, ins) ==
  LET r == Call(f, [i \in 1..Len(ins) |-> [k |-> "i", e |-> [k |-> "n", v |-> ins[i]]]], Start(P), P)
  IN IF r.sig = "r" THEN [v |-> r.v, o |-> r.st.o, ok |-> TRUE]
     ELSE IF r.sig = "n" THEN [v |-> 0, o |-> r.st.o, ok |-> TRUE]
     ELSE [v |-> UB, o |-> <<>>, ok |-> FALSE]

\* several calls in sequence on one memory (globals persist between them)
RECURSIVE RunSeq(_, _, _, _)
RunSeq(P, calls, i, st) ==
  IF i > Len(calls) THEN <<>>
  ELSE LET c == calls[i]
           r == Call(c.f, [j \in 1..Len(c.a) |-> [k |-> "i", e |-> [k |-> "n", v |-> c.a[j]]]],
                     [st EXCEPT !.k = 2000], P)
       IN IF r.sig = "u" THEN <<UB>> ELSE <<IF r.sig = "n" THEN 0 ELSE r.v>> \o RunSeq(P, calls, i + 1, r.st)
=============================================================================
