------------------------------ MODULE Flags ------------------------------
(* Selection flags: an infinite vector of booleans given by a finite prefix
   and the value of all the remaining positions.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, Regs, Profile
Dflt == [b |-> <<>>, d |-> FALSE]
InitSt == [r \in 0..2 |-> Dflt]
At(f, i) == IF i < Len(f.b) THEN f.b[i + 1] ELSE f.d        \* i counts from 0
Max(a, b) == IF a > b THEN a ELSE b
Not(f) == [b |-> [k \in DOMAIN f.b |-> ~f.b[k]], d |-> ~f.d]
Op2(f, g, Conn(_, _)) == [b |-> [k \in 1..Max(Len(f.b), Len(g.b)) |-> Conn(At(f, k - 1), At(g, k - 1))], d |-> Conn(f.d, g.d)]
AndC(x, y) == x /\ y
OrC(x, y) == x \/ y
And(f, g) == Op2(f, g, AndC)
Or(f, g) == Op2(f, g, OrC)
AnyOn(f) == f.d \/ \E k \in DOMAIN f.b : f.b[k]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
Bit(x) == IF x THEN "1" ELSE "0"
Text(f) == Cat([k \in DOMAIN f.b |-> Bit(f.b[k])])
Show(f) == <<Text(f), Cat([k \in 1..8 |-> Bit(At(f, k - 1))]), AnyOn(f)>>
Put(st, r, f) == [st |-> [st EXCEPT ![r] = f], obs |-> Show(f)]
Err(st) == [st |-> st, obs |-> <<"exc", "invalid_argument">>]
OfChars(s) == [k \in DOMAIN s |-> s[k] = "1"]
IsBits(s) == \A k \in DOMAIN s : s[k] \in {"0", "1"}
NoBlank(s) == SelectSeq(s, LAMBDA c : c # " ")
Apply(st, o) ==
  CASE o[1] = "fbool" -> Put(st, o[2], [b |-> <<>>, d |-> o[3]])
    [] o[1] = "fstr" -> IF IsBits(o[3]) THEN Put(st, o[2], [b |-> OfChars(o[3]), d |-> FALSE]) ELSE Err(st)
    [] o[1] = "fvec" -> Put(st, o[2], [b |-> o[3], d |-> FALSE])
    [] o[1] = "fadd" -> Put(st, o[2], [st[o[2]] EXCEPT !.b = Append(@, o[3])])
    [] o[1] = "fset" -> Put(st, o[2], [st[o[2]] EXCEPT !.b = [k \in DOMAIN @ |-> IF k = o[3] + 1 THEN TRUE ELSE @[k]]])
    [] o[1] = "funset" -> Put(st, o[2], [st[o[2]] EXCEPT !.b = [k \in DOMAIN @ |-> IF k = o[3] + 1 THEN FALSE ELSE @[k]]])
    [] o[1] = "fnot" -> Put(st, o[3], Not(st[o[2]]))
    [] o[1] = "fand" -> Put(st, o[4], And(st[o[2]], st[o[3]]))
    [] o[1] = "for" -> Put(st, o[4], Or(st[o[2]], st[o[3]]))
    [] o[1] = "fandeq" -> Put(st, o[2], And(st[o[2]], st[o[3]]))
    [] o[1] = "foreq" -> Put(st, o[2], Or(st[o[2]], st[o[3]]))
    [] o[1] = "fcopy" -> Put(st, o[3], st[o[2]])
    [] o[1] = "fget" -> [st |-> st, obs |-> <<At(st[o[2]], o[3])>>]
    [] o[1] = "fread" -> IF IsBits(NoBlank(o[3])) THEN Put(st, o[2], [b |-> OfChars(NoBlank(o[3])), d |-> FALSE]) ELSE Err(st)
    [] o[1] = "fecho" -> Put(st, o[2], [b |-> st[o[2]].b, d |-> FALSE])
R == 0..(Regs - 1)
Ops(st) == << {<<"fbool", r, x>> : r \in R, x \in BOOLEAN}, {<<"fadd", r, x>> : r \in R, x \in BOOLEAN},
   {<<"fset", r, i>> : r \in R, i \in 0..MaxLen}, {<<"funset", r, i>> : r \in R, i \in 0..MaxLen},
   {<<"fnot", r, r>> : r \in R}, {<<"fandeq", r, s>> : r \in R, s \in R}, {<<"foreq", r, s>> : r \in R, s \in R},
   {<<"fand", 0, Regs - 1, 0>>, <<"for", Regs - 1, 0, Regs - 1>>}, {<<"fget", r, i>> : r \in R, i \in {0, MaxLen, 20}},
   {<<"fecho", r>> : r \in R}, {<<"fstr", 0, <<"1", "0">> >>, <<"fstr", 0, <<"0", "2">> >>, <<"fread", 0, <<"1", " ", "0">> >>, <<"fread", 0, <<"0", "x">> >>} >>
Bound(st) == \A r \in 0..2 : Len(st[r].b) <= MaxLen
Inv(st) == \A r \in 0..2, s \in 0..2 : \A i \in 0..(MaxLen + 2) :   \* pointwise Boolean algebra
   /\ At(And(st[r], st[s]), i) = (At(st[r], i) /\ At(st[s], i))
   /\ At(Or(st[r], st[s]), i) = (At(st[r], i) \/ At(st[s], i))
   /\ At(Not(st[r]), i) = ~At(st[r], i)
   /\ At(Not(And(st[r], st[s])), i) = At(Or(Not(st[r]), Not(st[s])), i)
StepOK(st, o, r) == o[1] \in {"fand", "for", "fnot", "fget"} => (\A x \in 0..2 : x # o[Len(o)] => r.st[x] = st[x])
=============================================================================
