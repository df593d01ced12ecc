----------------------------- MODULE FeatPos -----------------------------
(* Position features built from signals or values: what is plugged, what the
   names of the signals stand for, and what the commands reach.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Small
InitSt == <<>>
Unset == <<"unset">>
V(x) == <<"v", x>>
Id4 == << <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>> >>
M1 == << <<0, -1, 0, 3>>, <<1, 0, 0, -2>>, <<0, 0, 1, 5>>, <<0, 0, 0, 1>> >>
(* given as nothing, a signal, a value *)
Src(g, s, def) == IF g[1] = "none" THEN def ELSE IF g[1] = "sig" THEN <<"sig", s>> ELSE V(g[2])
Table(m) == IF m.kind = "fp" THEN << <<"position", "", "position">>, <<"reference", "_ref", "position">>, <<"Jq", "", "Jq">>, <<"error", "", "error">>, <<"selec", "", "selec">> >>
  ELSE << <<"basePosition", "", "positionRef">>, <<"otherPosition", "", "position">>, <<"baseReference", "_ref", "positionRef">>, <<"otherReference", "_ref", "position">>, <<"JqBase", "", "JqRef">>, <<"JqOther", "", "Jq">>, <<"error", "", "error">>, <<"jacobian", "", "jacobian">>, <<"selec", "", "selec">> >>
Full(m, r) == m.name \o r[2] \o "." \o r[3]
Look(m) == <<m.name, m.src, m.sel, m.name \o "_ref", m.frame>>
Upd(st, i, m) == [st |-> [st EXCEPT ![i] = m], obs |-> Look(m)]
(* order of the sources: fp: position, Jq, reference; fpr: base, other, base reference, other reference, JqBase, JqOther *)
Apply(st, o) ==
  IF o[1] = "new" THEN
    LET m == [kind |-> o[2], name |-> o[3], sel |-> "111111", frame |-> "current", src |->
           IF o[2] = "fp" THEN <<Src(IF o[4] THEN <<"sig">> ELSE <<"none">>, "src.pos", Unset), Src(IF o[5] THEN <<"sig">> ELSE <<"none">>, "src.jac", Unset), Src(<<o[6], o[7]>>, "", Unset)>>
           ELSE [k \in 1..4 |-> Src(o[6][k], "src.h" \o ToString(k), V(Id4))] \o <<IF o[4] THEN <<"sig", "src.j1">> ELSE Unset, IF o[5] THEN <<"sig", "src.j2">> ELSE Unset>>]
    IN [st |-> Append(st, m), obs |-> Look(m)]
  ELSE LET i == o[2]  m == st[i] IN
  CASE o[1] = "signal" -> LET k == {x \in DOMAIN Table(m) : Table(m)[x][1] = o[3]} IN [st |-> st, obs |-> IF k = {} THEN <<"exc", "RuntimeError">> ELSE LET x == CHOOSE y \in k : TRUE IN <<Full(m, Table(m)[x]), TRUE>>]
    [] o[1] = "names" -> [st |-> st, obs |-> [x \in DOMAIN Table(m) |-> Full(m, Table(m)[x])]]
    [] o[1] = "frame" -> Upd(st, i, [m EXCEPT !.frame = o[3]])
    [] o[1] = "selec" -> Upd(st, i, [m EXCEPT !.sel = o[3]])
    [] o[1] = "keep" -> [st |-> st, obs |-> << <<"keep", m.name>> >>]
    [] o[1] = "setref" -> Upd(st, i, IF m.kind = "fp" THEN [m EXCEPT !.src[3] = V(o[3])] ELSE [m EXCEPT !.src[4] = V(o[3])])
G == {<<"none", <<>> >>, <<"sig", <<>> >>, <<"val", M1>>, <<"arr", M1>>}
Ops(st) == << IF Len(st) = 0 THEN {<<"new", "fp", "a", p, j, g[1], g[2]>> : p \in BOOLEAN, j \in BOOLEAN, g \in G \ {<<"sig", <<>> >>}} \cup {<<"new", "fpr", "a", p, j, <<g, h, k, l>> >> : p \in BOOLEAN, j \in {TRUE}, g \in G, h \in G, k \in G, l \in G} ELSE {},
   IF Len(st) = 1 THEN {<<"new", "fp", "b", TRUE, FALSE, "val", M1>>} ELSE {} >> \o
   [i \in DOMAIN st |-> {<<"signal", i, n>> : n \in {"position", "reference", "Jq", "error", "selec", "basePosition", "otherPosition", "baseReference", "otherReference", "JqBase", "JqOther", "jacobian", ""}} \cup {<<"names", i>>, <<"keep", i>>}
       \cup (IF Len(st) = 1 THEN {<<"frame", i, "desired">>, <<"selec", i, "101010">>, <<"setref", i, Id4>>} ELSE {})]
Bound(st) == Small => (Len(st) < 2 \/ st[1].kind = "fp")
Inv(st) == TRUE
StepOK(st, o, r) == (o[1] # "new" => \A i \in DOMAIN st : (i # o[2] => r.st[i] = st[i])) /\ (o[1] \in {"signal", "names", "keep"} => r.st = st)
=============================================================================
