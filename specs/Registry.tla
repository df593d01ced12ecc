------------------------------- MODULE Registry -------------------------------
(* Features and tasks are known by their names from their creation to their    *)
(* destruction; references between them; the graphs that describe them.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Names, Kinds       \* Names: a sorted sequence
N == {Names[i] : i \in DOMAIN Names}
None == [k |-> "", ref |-> "none", l |-> <<>>]
InitSt == [n \in N |-> None]
Is(st, n, ks) == n \in N /\ st[n].k \in ks
Feat == {"gen", "p6", "one", "post"}
RECURSIVE Sel(_, _, _)
Sel(st, i, ks) == IF i > Len(Names) THEN <<>> ELSE (IF st[Names[i]].k \in ks THEN <<Names[i]>> ELSE <<>>) \o Sel(st, i + 1, ks)
In(x, l) == \E i \in DOMAIN l : l[i] = x
Used(st, n) == \E m \in N : m # n /\ (st[m].ref = n \/ In(n, st[m].l))
Ok(st) == [st |-> st, obs |-> <<"ok">>]
See(st, x) == [st |-> st, obs |-> <<"ok">> \o x]
Unknown(st) == [st |-> st, obs |-> <<"exc", "sot", 401>>]
Chain(l) == [i \in 1..(IF Len(l) = 0 THEN 0 ELSE Len(l) - 1) |-> <<l[i], l[i + 1]>>]
Apply(st, o) ==
  CASE o[1] = "new" -> IF st[o[3]].k # "" THEN [st |-> st, obs |-> <<"exc", "dg">>] ELSE Ok([st EXCEPT ![o[3]] = [None EXCEPT !.k = o[2]]])
    [] o[1] = "del" -> Ok([st EXCEPT ![o[2]] = None])
    [] o[1] = "feature" -> IF Is(st, o[2], Feat) THEN See(st, <<st[o[2]].k>>) ELSE Unknown(st)
    [] o[1] = "task" -> IF Is(st, o[2], {"task"}) THEN See(st, <<"task">>) ELSE Unknown(st)
    [] o[1] = "ref" -> IF ~Is(st, o[3], Feat) THEN Unknown(st) ELSE Ok(IF st[o[2]].k = "post" THEN st ELSE [st EXCEPT ![o[2]].ref = IF st[o[3]].k = st[o[2]].k THEN o[3] ELSE "none"])
    [] o[1] = "unref" -> Ok([st EXCEPT ![o[2]].ref = "none"])
    [] o[1] = "getref" -> See(st, <<st[o[2]].ref>>)
    [] o[1] = "add" -> IF ~Is(st, o[3], Feat) THEN Unknown(st) ELSE Ok([st EXCEPT ![o[2]].l = Append(st[o[2]].l, o[3])])
    [] o[1] = "push" -> Ok([st EXCEPT ![o[2]].l = Append(st[o[2]].l, o[3])])
    [] o[1] = "clear" -> Ok([st EXCEPT ![o[2]].l = <<>>])
    [] o[1] = "graph" -> LET e == st[o[2]] IN See(st,
         CASE e.k \in Feat -> <<IF e.ref = "none" THEN <<>> ELSE << <<e.ref, o[2]>> >>, <<>> >>
           [] e.k = "task" -> <<[i \in DOMAIN e.l |-> <<e.l[i], o[2]>>], <<>> >>
           [] e.k = "sot" -> <<Chain(e.l), e.l>>)
    [] o[1] = "file" -> See(st, <<IF o[5] = "" THEN o[3] ELSE o[3] \o o[4], Sel(st, 1, {"task"})>>)        \* directory, name, middle, extension
Ops(st) == << {<<"new", k, n>> : k \in Kinds, n \in N}, {<<"del", n>> : n \in {m \in N : st[m].k # "" /\ ~Used(st, m)}},
  {<<x, n>> : x \in {"feature", "task"}, n \in N \union {"other"}},
  {<<"ref", a, b>> : a \in {m \in N : Is(st, m, Feat)}, b \in N \union {"other"}} \ {<<"ref", a, a>> : a \in N}, {<<x, a>> : x \in {"unref", "getref"}, a \in {m \in N : Is(st, m, Feat)}},
  UNION {{<<"add", t, f>> : f \in {n \in N \union {"other"} : ~In(n, st[t].l) /\ n # t}} : t \in {m \in N : Is(st, m, {"task"})}},
  UNION {{<<"push", s, t>> : t \in {n \in N : Is(st, n, {"task"}) /\ ~In(n, st[s].l)}} : s \in {m \in N : Is(st, m, {"sot"})}},
  {<<"clear", m>> : m \in {m \in N : Is(st, m, {"task", "sot"})}}, {<<"graph", m>> : m \in {m \in N : st[m].k # ""}},
  {<<"file", d, "g", m, e>> : d \in {"", "./", "sub/", "sub.d/"}, m \in {"", ".v1"}, e \in {"", ".dot"}} >>
Bound(st) == TRUE
(* nothing refers to what does not exist, and references are of one kind *)
Inv(st) == \A n \in N : (st[n].ref # "none" => st[st[n].ref].k = st[n].k) /\ (st[n].k = "" => st[n] = None) /\ \A i \in DOMAIN st[n].l : st[st[n].l[i]].k \in (IF st[n].k = "task" THEN Feat ELSE {"task"})
StepOK(st, o, r) ==
  /\ (r.obs[1] = "exc" => r.st = st)
  /\ (o[1] = "del" => Apply(r.st, <<"feature", o[2]>>).obs[1] = "exc" /\ Apply(r.st, <<"task", o[2]>>).obs[1] = "exc" /\ Apply(r.st, <<"new", "gen", o[2]>>).obs = <<"ok">>)   \* its name is free again
=============================================================================
