------------------------------- MODULE CSafe -------------------------------
(* Which programs of CCore's syntax need no raw pointers: those without     *)
(* globals in which a heap pointer is only allocated, indexed, dereferenced, *)
(* passed to a function and freed.  As soon as a pointer is copied, stored,  *)
(* returned or compared, shared ownership is possible and nothing is said.   *)
EXTENDS CCore

Union(f, s) == UNION {f[i] : i \in 1..Len(s)}

RECURSIVE PtrE(_), PtrS(_), ValE(_), ValS(_)
\* variables used as heap pointers (bases of accesses, of free and of allocations)
PtrEs(s) == UNION {PtrE(s[i]) : i \in 1..Len(s)}
PtrAs(s) == UNION {IF s[i].k = "i" THEN PtrE(s[i].e) ELSE {} : i \in 1..Len(s)}
PtrE(e) ==
  CASE e.k = "hp"  -> PtrE(e.p) \cup PtrE(e.e) \cup (IF e.p.k = "v" THEN {e.p.x} ELSE {})
    [] e.k = "b"   -> PtrE(e.l) \cup PtrE(e.r)
    [] e.k = "u"   -> PtrE(e.e)
    [] e.k = "t"   -> PtrE(e.c) \cup PtrE(e.l) \cup PtrE(e.r)
    [] e.k = "call" -> PtrAs(e.a)
    [] e.k \in {"ix", "sfd", "pix"} -> PtrE(e.e)
    [] OTHER -> {}
PtrSs(s) == UNION {PtrS(s[i]) : i \in 1..Len(s)}
PtrS(s) ==
  CASE s.k = "asg" -> PtrE(s.lv) \cup PtrE(s.e)
    [] s.k = "inc" -> PtrE(s.lv)
    [] s.k \in {"decl", "ret"} -> PtrE(s.e)
    [] s.k = "hnew" -> PtrE(s.n) \cup (IF s.lv.k = "v" THEN {s.lv.x} ELSE PtrE(s.lv))
    [] s.k = "free" -> {s.p.x}
    [] s.k = "if" -> PtrE(s.c) \cup PtrSs(s.t) \cup PtrSs(s.f)
    [] s.k \in {"wh", "dw"} -> PtrE(s.c) \cup PtrSs(s.b)
    [] s.k = "for" -> PtrE(s.c) \cup PtrSs(s.i) \cup PtrSs(s.u) \cup PtrSs(s.b)
    [] s.k = "sw" -> PtrE(s.e) \cup UNION {PtrSs(s.cs[i].b) : i \in 1..Len(s.cs)}
    [] s.k = "blk" -> PtrSs(s.b)
    [] s.k \in {"call", "dcall"} -> PtrAs(s.a)
    [] s.k = "acall" -> PtrE(s.lv) \cup PtrAs(s.a)
    [] OTHER -> {}

\* variables whose value is used otherwise (a bare argument is allowed)
ValEs(s) == UNION {ValE(s[i]) : i \in 1..Len(s)}
ValAs(s) == UNION {IF s[i].k = "i" /\ s[i].e.k /= "v" THEN ValE(s[i].e) ELSE {} : i \in 1..Len(s)}
ValE(e) ==
  CASE e.k = "v"   -> {e.x}
    [] e.k = "hp"  -> ValE(e.e) \cup (IF e.p.k = "v" THEN {} ELSE {"*"})
    [] e.k = "b"   -> ValE(e.l) \cup ValE(e.r)
    [] e.k = "u"   -> ValE(e.e)
    [] e.k = "t"   -> ValE(e.c) \cup ValE(e.l) \cup ValE(e.r)
    [] e.k = "call" -> ValAs(e.a)
    [] e.k \in {"ix", "sfd", "pix"} -> ValE(e.e)
    [] OTHER -> {}
ValSs(s) == UNION {ValS(s[i]) : i \in 1..Len(s)}
ValS(s) ==
  CASE s.k = "asg" -> ValE(s.lv) \cup ValE(s.e)
    [] s.k = "inc" -> ValE(s.lv)
    [] s.k \in {"decl", "ret"} -> ValE(s.e)
    [] s.k = "hnew" -> ValE(s.n) \cup (IF s.lv.k = "v" THEN {} ELSE {"*"})
    [] s.k = "if" -> ValE(s.c) \cup ValSs(s.t) \cup ValSs(s.f)
    [] s.k \in {"wh", "dw"} -> ValE(s.c) \cup ValSs(s.b)
    [] s.k = "for" -> ValE(s.c) \cup ValSs(s.i) \cup ValSs(s.u) \cup ValSs(s.b)
    [] s.k = "sw" -> ValE(s.e) \cup UNION {ValSs(s.cs[i].b) : i \in 1..Len(s.cs)}
    [] s.k = "blk" -> ValSs(s.b)
    [] s.k \in {"call", "dcall"} -> ValAs(s.a)
    [] s.k = "acall" -> ValE(s.lv) \cup ValAs(s.a)
    [] OTHER -> {}

\* a call result bound to a variable used as a pointer
RECURSIVE Results(_)
Results(ss) == UNION {LET s == ss[i] IN
    CASE s.k = "dcall" -> {s.x}
      [] s.k = "acall" /\ s.lv.k = "v" -> {s.lv.x}
      [] s.k = "if" -> Results(s.t) \cup Results(s.f)
      [] s.k \in {"wh", "dw", "blk", "for"} -> Results(s.b)
      [] OTHER -> {} : i \in 1..Len(ss)}

TameFn(f) == LET p == PtrSs(f.b)  v == ValSs(f.b) IN
             p \cap v = {} /\ "*" \notin v /\ p \cap Results(f.b) = {}
Tame(P) == Len(P.g) = 0 /\ \A f \in DOMAIN P.f : TameFn(P.f[f])
=============================================================================
