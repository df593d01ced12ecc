-------------------------------- MODULE Loader --------------------------------
(* The loader of the controller: which library it uses, the life of the        *)
(* interface, of the entities and of the device, the running of the periods,   *)
(* the commands handed to the interpreter and what they do there.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Profile
Good == {"one", "two", "dev"}                  \* libraries that create an interface; "dev" also owns an entity, robot
InitSt == [obj |-> FALSE, file |-> "", lib |-> "", run |-> FALSE, dev |-> "", ents |-> {}, kept |-> {}, free |-> {}, n |-> 0]
None == [InitSt EXCEPT !.obj = TRUE]
Ok(st) == [st |-> st, obs |-> <<"ok">>]
See(st, x) == [st |-> st, obs |-> <<"ok">> \o x]
(* command line *)
In == [x \in {"--input-file=@one", "--input-file=@two", "--input-file=@dev"} |-> CASE x = "--input-file=@one" -> "one" [] x = "--input-file=@two" -> "two" [] OTHER -> "dev"]
Lib == [x \in {"--sot-dynamic-library=@one", "--sot-dynamic-library=@two"} |-> IF x = "--sot-dynamic-library=@one" THEN "one" ELSE "two"]
At == [x \in {"@one", "@two"} |-> IF x = "@one" THEN "one" ELSE "two"]
P0 == [bad |-> FALSE, help |-> FALSE, in |-> "none", lib |-> "none"]
Give(p, f, v) == IF f = "in" THEN [p EXCEPT !.in = v, !.bad = @ \/ p.in # "none"] ELSE [p EXCEPT !.lib = v, !.bad = @ \/ p.lib # "none"]
RECURSIVE Parse(_, _)
Parse(a, p) == IF a = <<>> THEN p ELSE LET x == a[1] IN
  CASE x = "--help" -> Parse(Tail(a), [p EXCEPT !.help = TRUE])
    [] x \in DOMAIN In -> Parse(Tail(a), Give(p, "in", In[x])) [] x \in DOMAIN Lib -> Parse(Tail(a), Give(p, "lib", Lib[x]))
    [] x \in {"--input-file", "--sot-dynamic-library"} -> IF Len(a) > 1 /\ a[2] \in DOMAIN At THEN Parse(Tail(Tail(a)), Give(p, IF x = "--input-file" THEN "in" ELSE "lib", At[a[2]])) ELSE [p EXCEPT !.bad = TRUE]
    [] OTHER -> [p EXCEPT !.bad = TRUE]
Opts(st, a) == LET p == Parse(a, P0) IN
  IF p.bad THEN [st |-> st, obs |-> <<"exc", "logic_error">>]
  ELSE IF p.help \/ (p.in = "none" /\ p.lib = "none") THEN See(st, <<-1>>)
  ELSE See([st EXCEPT !.file = IF p.lib # "none" THEN p.lib ELSE p.in], <<0>>)
(* lists of names *)
RECURSIVE Sorted(_, _)
Sorted(l, s) == IF l = <<>> THEN <<>> ELSE (IF l[1] \in s THEN <<"~" \o l[1]>> ELSE <<>>) \o Sorted(Tail(l), s)
Names == <<"e1", "e2", "e3">>
Gone(st) == Sorted(Names, st.ents) \o (IF st.lib = "" THEN <<>> ELSE <<"destroy:" \o st.lib>> \o (IF st.lib = "dev" THEN <<"~robot">> ELSE <<>>))
Cleaned(st) == [st EXCEPT !.lib = "", !.dev = "", !.ents = {}, !.kept = {}, !.free = @ \union st.kept, !.n = 0]
Clean(st) == [st |-> Cleaned(st), obs |-> <<"ok", Gone(st), 0>>]
RECURSIVE Fresh(_, _)
Fresh(pp, sp) == IF pp = <<>> THEN <<>> ELSE (IF \E i \in DOMAIN sp : sp[i] = pp[1] THEN <<>> ELSE <<pp[1]>>) \o Fresh(Tail(pp), sp)
Prologue(o) == <<0, Fresh(o[2], o[3]) \o o[3], TRUE, IF o[4] THEN <<"robot">> ELSE <<"sot">>, "none">>
Exc(k) == CASE k = 0 -> <<>> [] k = 1 -> <<"exc", "runtime_error">> [] k = 2 -> <<"exc", "logic_error">> [] k = 3 -> <<"exc", "sot", 700>> [] k = 4 -> <<"exc", "other">> [] k = 5 -> <<"exc", "out_of_range">> [] k = 6 -> <<"exc", "invalid_argument">>
InEv(v) == "in:" \o ToString(v)
Iter(st, v, k) ==
  IF ~st.run THEN See(st, <<<<>>, <<>>, -1, 1>>)
  ELSE IF k % 2 = 1 THEN See(st, <<Exc(k), <<InEv(v)>>, -1, 1>>)
  ELSE See([st EXCEPT !.n = @ + 1], <<Exc(k), <<InEv(v), "out">>, IF k = 0 THEN 10 * v + st.n + 1 ELSE -1, 1>>)
CmdErr(x) == IF x \in {"ERR"} THEN "E(" \o x \o ")" ELSE ""
Apply(st, o) ==
  CASE o[1] = "new" -> See([st EXCEPT !.obj = TRUE, !.file = "", !.run = FALSE, !.dev = ""], <<TRUE>>)
    [] o[1] = "free" -> LET c == Cleaned(st) IN [st |-> [InitSt EXCEPT !.free = c.free], obs |-> Clean(st).obs]
    [] o[1] = "clean" -> Clean(st)
    [] o[1] = "opts" -> Opts(st, o[2])
    [] o[1] = "lib" -> Ok([st EXCEPT !.file = o[2]])
    [] o[1] = "init" -> IF st.file \in Good THEN See([st EXCEPT !.lib = st.file, !.n = 0], <<TRUE, <<"create:" \o st.file>>, Prologue(o)>>) ELSE See(st, <<FALSE, <<>>, TRUE>>)
    [] o[1] = "start" -> Ok([st EXCEPT !.run = TRUE]) [] o[1] = "stop" -> Ok([st EXCEPT !.run = FALSE])
    [] o[1] = "status" -> See(st, <<~st.run>>)
    [] o[1] = "iter" -> Iter(st, o[2], o[3])
    [] o[1] = "entity" -> Ok([st EXCEPT !.ents = @ \union {o[2]}])
    [] o[1] = "keep" -> Ok([st EXCEPT !.kept = @ \union {o[2]}])
    [] o[1] = "drop" -> See([st EXCEPT !.kept = @ \ {o[2]}, !.free = @ \ {o[2]}], <<<<"~" \o o[2]>>>>)       \* by its owner
    [] o[1] = "device" -> See([st EXCEPT !.dev = o[2]], <<<<0, <<"/p">>, FALSE, <<"robot">>, o[2]>>>>)
    [] o[1] = "cmd" -> See(st, <<<<"py:" \o o[2]>>, "R(" \o o[2] \o ")", "O(" \o o[2] \o ")", CmdErr(o[2])>>)
    [] o[1] = "file" -> See(st, <<<<"file:" \o o[2]>>, IF o[3] THEN "" ELSE "?">>)
    [] o[1] = "loaded" -> See(st, <<IF st.lib = "" THEN <<>> ELSE <<st.lib>>>>)
(* what the callers may do *)
CanClean(st) == st.obj /\ st.kept \subseteq {st.dev} /\ (st.lib = "dev" => st.dev = "robot")
CanInit(st) == st.obj /\ st.lib = "" /\ (st.file = "dev" => "robot" \notin st.kept)
CanKeep(st, k) == k \notin st.kept \union st.free /\ ~(k = "robot" /\ st.lib = "dev")
Life == Profile \in {"life", "device", "trace"}
Toks == {"--help", "--input-file=@one", "--sot-dynamic-library=@two", "--bogus", "--input-file", "@one", "--sot-dynamic-library"}
Lists == {<<>>} \union {<<a>> : a \in Toks} \union {<<a, b>> : a, b \in Toks} \union {<<a, b, c>> : a, b, c \in Toks} \union {<<"--input-file", "@one", "--sot-dynamic-library", "@two">>, <<"--sot-dynamic-library", "@two", "--input-file", "@one">>}
Clear(a) == (\A i, j \in DOMAIN a : i # j => a[i] # "--help" \/ a[j] # "--help") /\ (\A i \in DOMAIN a : i < Len(a) /\ a[i] \in {"--input-file", "--sot-dynamic-library"} => a[i + 1] \in DOMAIN At) /\ \A i \in DOMAIN a : a[i] \in DOMAIN At => (i > 1 /\ a[i - 1] \in {"--input-file", "--sot-dynamic-library"})   \* nothing but options and their values
Seqs(s) == {<<>>} \union {<<a>> : a \in s} \union ({<<a, b>> : a, b \in s} \ {<<a, a>> : a \in s})
Ops(st) ==
  IF ~st.obj THEN << {<<"new">>}, {<<"drop", k>> : k \in st.kept \union st.free}, {<<"loaded">>} >>
  ELSE IF Profile = "opts" THEN << {<<"opts", a>> : a \in {l \in Lists : Clear(l)}}, IF CanInit(st) THEN {<<"init", <<"/a">>, <<"/b">>, TRUE>>} ELSE {}, {<<"clean">>, <<"loaded">>} >>
  ELSE IF Profile = "path" THEN << {<<"lib", "one">>, <<"loaded">>, <<"clean">>}, IF CanInit(st) THEN {<<"init", p, s, v>> : p \in Seqs({"/a", "/b", "/c d"}) \ {<<>>}, s \in Seqs({"/a", "/x"}) \union {<<"">>}, v \in BOOLEAN} ELSE {} >>
  ELSE << {<<"lib", x>> : x \in (IF Profile = "life" THEN {"one", "two", "nocreate", "missing"} ELSE {"dev", "one"})}, {<<"loaded">>, <<"start">>, <<"stop">>, <<"status">>},
    IF CanInit(st) THEN {<<"init", <<"/a">>, <<"/b">>, TRUE>>} ELSE {},
    IF CanClean(st) THEN {<<"clean">>, <<"free">>} ELSE {},
    IF st.run => st.lib # "" THEN {<<"iter", v, k>> : v \in {1, 3}, k \in 0..6} ELSE {},
    {<<"entity", e>> : e \in (IF Profile = "life" THEN {"e1", "e2"} ELSE {"e1"}) \ st.ents},
    IF Profile = "device" THEN {<<"keep", k>> : k \in {x \in {"robot", "k"} : CanKeep(st, x)}} \union {<<"drop", k>> : k \in st.kept \union st.free} \union {<<"device", k>> : k \in {"robot", "k"}} ELSE {},
    {<<"opts", <<"--input-file=@one">>>>, <<"opts", <<"--help">>>>},
    {<<"cmd", x>> : x \in {"1+1", "ERR"}}, {<<"file", "a.py", b>> : b \in BOOLEAN} >>
Bound(st) == st.n <= 2
(* an interface only of a loader, periods only counted for an interface *)
Inv(st) == (st.lib # "" => st.obj /\ st.lib \in Good) /\ (st.lib = "" => st.n = 0) /\ st.kept \cap st.free = {}
StepOK(st, o, r) ==
  /\ (r.obs[1] = "exc" => r.st = st)
  /\ (o[1] \in {"clean", "free"} => r.st.lib = "" /\ r.st.ents = {} /\ (o[1] = "clean" => Apply(r.st, o).obs = <<"ok", <<>>, 0>>))      \* nothing is destroyed twice
  /\ (o[1] = "iter" /\ ~st.run => r.st = st)
  /\ (o[1] = "init" => r.st.run = st.run /\ (r.obs[2] <=> r.st.lib # ""))
=============================================================================
