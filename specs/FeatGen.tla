------------------------------ MODULE FeatGen ------------------------------
(* Features given by an error, a Jacobian, a selection and a reference: the
   selected components of the difference to the reference, its derivative and
   the same rows of the Jacobian.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Profile
Unset == [on |-> FALSE, v |-> <<>>]
On(v) == [on |-> TRUE, v |-> v]
F0 == [err |-> Unset, jac |-> Unset, dot |-> Unset, b |-> <<>>, d |-> TRUE, ref |-> 0]
InitSt == [i \in 1..3 |-> F0]
At(f, i) == IF i <= Len(f.b) THEN f.b[i] ELSE f.d
RECURSIVE From(_, _, _)
From(f, k, n) == IF k > n THEN <<>> ELSE (IF At(f, k) THEN <<k>> ELSE <<>>) \o From(f, k + 1, n)
Sel(f) == From(f, 1, Len(f.err.v))                          \* selected components, in order
Top(s) == IF s = <<>> THEN 0 ELSE s[Len(s)]
Signal == <<"exc", "dg">>
Size == <<"exc", "sot", 302>>
Pick(s, v) == [k \in DOMAIN s |-> v[s[k]]]
Neg(v) == [k \in DOMAIN v |-> -v[k]]
Dim(st, i) == IF ~st[i].err.on THEN Signal ELSE <<"ok", Len(Sel(st[i]))>>
Error(st, i) == LET f == st[i]  s == Sel(f) IN
  IF ~f.err.on THEN Signal
  ELSE IF f.ref = 0 THEN <<"ok", Pick(s, f.err.v)>>
  ELSE LET g == st[f.ref].err IN
       IF ~g.on THEN Signal ELSE IF Top(s) > Len(g.v) THEN Size
       ELSE <<"ok", [k \in DOMAIN s |-> f.err.v[s[k]] - g.v[s[k]]]>>
ErrorDot(st, i) == LET f == st[i]  s == Sel(f) IN
  IF ~f.err.on THEN Signal
  ELSE IF f.ref = 0 THEN <<"ok", [k \in DOMAIN s |-> 0]>>
  ELSE LET g == st[f.ref].dot IN
       IF ~g.on THEN <<"ok", [k \in DOMAIN s |-> 0]>> ELSE IF Top(s) > Len(g.v) THEN Size
       ELSE <<"ok", Neg(Pick(s, g.v))>>
Jacobian(st, i) == LET f == st[i]  s == Sel(f) IN
  IF ~f.jac.on \/ ~f.err.on THEN Signal
  ELSE IF Top(s) > Len(f.jac.v) THEN Size ELSE <<"ok", Pick(s, f.jac.v)>>
Name(j) == IF j = 0 THEN "none" ELSE "f" \o ToString(j)
Same(st, obs) == [st |-> st, obs |-> obs]
Put(st, i, f) == [st |-> [st EXCEPT ![i] = f], obs |-> <<"ok">>]
Apply(st, o) == LET i == o[2]  f == st[i] IN
  CASE o[1] = "unit" -> Same(st, <<"ok">>)     \* all values are given, and read, in another unit
    [] o[1] = "err" -> Put(st, i, [f EXCEPT !.err = On(o[3])])
    [] o[1] = "jac" -> Put(st, i, [f EXCEPT !.jac = On(o[3])])
    [] o[1] = "dot" -> Put(st, i, [f EXCEPT !.dot = On(o[3])])
    [] o[1] = "undot" -> Put(st, i, [f EXCEPT !.dot = Unset])
    [] o[1] = "sel" -> Put(st, i, [f EXCEPT !.b = o[3], !.d = o[4]])
    [] o[1] = "ref" -> Put(st, i, [f EXCEPT !.ref = IF o[3] = 9 THEN 0 ELSE o[3]])   \* 9: a feature of another kind
    [] o[1] = "refname" -> IF o[3] = 0 THEN Same(st, <<"exc", "sot", 401>>) ELSE Put(st, i, [f EXCEPT !.ref = o[3]])
    [] o[1] = "getref" -> Same(st, <<Name(f.ref)>>)
    [] o[1] = "graph" -> Same(st, <<IF f.ref = 0 THEN "" ELSE "\t\"" \o Name(f.ref) \o "\" -> \"" \o Name(i) \o "\"[ color=darkseagreen4 ]\n">>)
    [] o[1] = "error" -> Same(st, Error(st, i))
    [] o[1] = "errordot" -> Same(st, ErrorDot(st, i))
    [] o[1] = "jacobian" -> Same(st, Jacobian(st, i))
    [] o[1] = "dim" -> Same(st, Dim(st, i))
Gets == {"error", "errordot", "jacobian", "dim"}
Ops(st) == << {<<"err", 1, v>> : v \in {<<5, 7>>, <<2>>, <<1, 2, 3>>}}, {<<"err", i, v>> : i \in 2..N, v \in {<<1, 4>>, <<3>>}},
   {<<"jac", 1, v>> : v \in {<< <<1, 2>>, <<3, 4>> >>, << <<5>>, <<6>>, <<7>> >>}}, {<<"dot", 2, v>> : v \in {<<8, 9>>, <<6>>}}, {<<"undot", 2>>},
   {<<"sel", 1, b, d>> : b \in {<<>>, <<FALSE, TRUE>>}, d \in BOOLEAN},
   {<<"ref", 1, j>> : j \in {0, 9} \cup 2..N}, {<<"refname", 1, 0>>, <<"refname", 1, 2>>}, {<<g, 1>> : g \in Gets \cup {"getref", "graph"}} >>
Bound(st) == TRUE
Inv(st) == \A i \in 1..3 : st[i].err.on =>
   LET n == Len(Sel(st[i]))  c == [st[i] EXCEPT !.b = [k \in DOMAIN @ |-> ~@[k]], !.d = ~@] IN
   /\ n + Len(Sel(c)) = Len(st[i].err.v)                       \* a selection and its complement share the error out
   /\ Error(st, i)[1] = "ok" => Len(Error(st, i)[2]) = n
   /\ ErrorDot(st, i)[1] = "ok" => Len(ErrorDot(st, i)[2]) = n
   /\ Jacobian(st, i)[1] = "ok" => Len(Jacobian(st, i)[2]) = n
   /\ st[i].ref # i
StepOK(st, o, r) == o[1] \in Gets => r.st = st
=============================================================================
