---------------------------- MODULE MultiBound ----------------------------
(* A bound is a single value, or an interval either end of which may be
   absent; values are in halves.  V is a vector of bounds.                  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Vals, MaxV
Single(x) == [m |-> "S", x |-> x, i |-> 0, s |-> 0, hi |-> FALSE, hs |-> FALSE]
Double(hi, i, hs, s) == [m |-> "D", x |-> 0, i |-> IF hi THEN i ELSE 0, s |-> IF hs THEN s ELSE 0, hi |-> hi, hs |-> hs]
InitSt == [M |-> Single(0), V |-> <<>>]
Num(h) == LET a == IF h < 0 THEN -h ELSE h
          IN (IF h < 0 THEN "-" ELSE "") \o ToString(a \div 2) \o (IF a % 2 = 1 THEN ".5" ELSE "")
Text(m) == IF m.m = "S" THEN Num(m.x) ELSE "(" \o (IF m.hi THEN Num(m.i) ELSE "--") \o "," \o (IF m.hs THEN Num(m.s) ELSE "--") \o ")"
RECURSIVE Join(_)
Join(v) == IF v = <<>> THEN "" ELSE IF Len(v) = 1 THEN Text(v[1]) ELSE Text(v[1]) \o "," \o Join(Tail(v))
VText(v) == "[" \o ToString(Len(v)) \o "](" \o Join(v) \o ")"
Show(m) == IF m.m = "S" THEN <<Text(m), "single", m.x, 204, "exc", 204, 204, "exc", 204, "S">>
           ELSE <<Text(m), "none", m.hi>> \o (IF m.hi THEN <<m.i>> ELSE <<"exc", 204>>) \o <<m.hs>> \o (IF m.hs THEN <<m.s>> ELSE <<"exc", 204>>) \o <<"D">>
Put(st, m) == [st |-> [st EXCEPT !.M = m], obs |-> Show(m)]
Dbl(m) == IF m.m = "D" THEN m ELSE Double(FALSE, 0, FALSE, 0)
SetB(m, w, x) == IF w = "sup" THEN Double(Dbl(m).hi, Dbl(m).i, TRUE, x) ELSE Double(TRUE, x, Dbl(m).hs, Dbl(m).s)
UnsetB(m, w) == IF w = "sup" THEN Double(Dbl(m).hi, Dbl(m).i, FALSE, 0) ELSE Double(FALSE, 0, Dbl(m).hs, Dbl(m).s)
-----------------------------------------------------------------------------
(* grammar of the textual form; a text is a sequence of characters *)
Digit(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9
Fail == [ok |-> FALSE, v |-> 0, k |-> 1]
C(t, k) == IF k <= Len(t) THEN t[k] ELSE ""
RECURSIVE Digits(_, _, _)
Digits(t, k, acc) == IF Digit(C(t, k)) THEN Digits(t, k + 1, 10 * acc + DVal(t[k])) ELSE [v |-> acc, k |-> k]
(* [-] digits [ . 5 ]   (value in halves) *)
Number(t, k) == LET neg == C(t, k) = "-"  a == IF neg THEN k + 1 ELSE k
  IN IF ~Digit(C(t, a)) THEN Fail
     ELSE LET d == Digits(t, a, 0)
              half == C(t, d.k) = "." /\ C(t, d.k + 1) = "5"
              h == 2 * d.v + (IF half THEN 1 ELSE 0)
          IN [ok |-> TRUE, v |-> IF neg THEN -h ELSE h, k |-> IF half THEN d.k + 2 ELSE d.k]
End(t, k, m, w) == IF C(t, k) = "-" /\ C(t, k + 1) = "-" THEN [ok |-> TRUE, v |-> UnsetB(m, w), k |-> k + 2]
  ELSE LET n == Number(t, k) IN IF n.ok THEN [ok |-> TRUE, v |-> SetB(m, w, n.v), k |-> n.k] ELSE Fail
ReadB(t, k, m) == IF C(t, k) = "("
  THEN LET a == End(t, k + 1, m, "inf") IN IF ~a.ok \/ C(t, a.k) # "," THEN Fail
       ELSE LET b == End(t, a.k + 1, a.v, "sup") IN IF ~b.ok \/ C(t, b.k) # ")" THEN Fail ELSE [b EXCEPT !.k = @ + 1]
  ELSE LET n == Number(t, k) IN IF n.ok THEN [ok |-> TRUE, v |-> Single(n.v), k |-> n.k] ELSE Fail
RECURSIVE ReadItems(_, _, _, _)
ReadItems(t, k, n, acc) == IF n = 0 THEN [ok |-> TRUE, v |-> acc, k |-> k]
  ELSE LET b == ReadB(t, k, Single(0)) IN
       IF ~b.ok \/ C(t, b.k) # (IF n = 1 THEN ")" ELSE ",") THEN Fail ELSE ReadItems(t, b.k + 1, n - 1, Append(acc, b.v))
ReadV(t) == IF C(t, 1) # "[" \/ ~Digit(C(t, 2)) THEN Fail
  ELSE LET d == Digits(t, 2, 0) IN IF C(t, d.k) # "]" \/ C(t, d.k + 1) # "(" THEN Fail
       ELSE IF d.v = 0 THEN (IF C(t, d.k + 2) = ")" THEN [ok |-> TRUE, v |-> <<>>, k |-> d.k + 3] ELSE Fail)
       ELSE ReadItems(t, d.k + 2, d.v, <<>>)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
-----------------------------------------------------------------------------
Apply(st, o) ==
  CASE o[1] = "mnew" -> Put(st, Single(o[2]))
    [] o[1] = "mnew2" -> Put(st, Double(TRUE, o[2], TRUE, o[3]))
    [] o[1] = "mnewb" -> Put(st, SetB(Single(0), o[3], o[2]))
    [] o[1] = "mset" -> Put(st, SetB(st.M, o[2], o[3]))
    [] o[1] = "munset" -> Put(st, UnsetB(st.M, o[2]))
    [] o[1] = "msingle" -> Put(st, Single(o[2]))
    [] o[1] \in {"mcopy", "mecho"} -> Put(st, st.M)
    [] o[1] = "mread" -> LET r == ReadB(o[2], 1, st.M) IN IF r.ok THEN [st |-> [st EXCEPT !.M = r.v], obs |-> Append(Show(r.v), Cat(SubSeq(o[2], r.k, Len(o[2]))))] ELSE [st |-> st, obs |-> <<"rejected">>]
    [] o[1] = "vpush" -> LET v == Append(st.V, st.M) IN [st |-> [st EXCEPT !.V = v], obs |-> <<VText(v)>>]
    [] o[1] = "vclear" -> [st |-> [st EXCEPT !.V = <<>>], obs |-> <<VText(<<>>)>>]
    [] o[1] = "vget" -> Put(st, st.V[o[2]])
    [] o[1] = "vecho" -> [st |-> st, obs |-> <<VText(st.V) \o ";" \o VText(st.V)>>]
    [] o[1] = "vread" -> LET r == ReadV(o[2]) IN IF r.ok THEN [st |-> [st EXCEPT !.V = r.v], obs |-> <<VText(r.v)>>] ELSE [st |-> st, obs |-> <<"rejected">>]
W == {"inf", "sup"}
Ops(st) == << {<<"mnew", x>> : x \in Vals}, {<<"mnew2", x, y>> : x \in Vals, y \in Vals}, {<<"mnewb", x, w>> : x \in Vals, w \in W},
   {<<"mset", w, x>> : w \in W, x \in Vals}, {<<"munset", w>> : w \in W}, {<<"msingle", x>> : x \in Vals}, {<<"mcopy">>, <<"mecho">>},
   {<<"vpush">>, <<"vclear">>, <<"vecho">>}, {<<"vget", k>> : k \in 1..Len(st.V)} >>
Bound(st) == Len(st.V) <= MaxV
Inv(st) == st.M.m \in {"S", "D"}
StepOK(st, o, r) == /\ o[1] \in {"mcopy", "mecho", "vecho"} => r.st = st
                    /\ o[1] = "mset" => r.st.M.m = "D" /\ (st.M.m = "S" => ~(r.st.M.hi /\ r.st.M.hs))
=============================================================================
