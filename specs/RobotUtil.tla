------------------------------ MODULE RobotUtil -----------------------------
(* The store of robot data shared by name, and the parameter servers.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Profile
Robots == << "arm", "leg", "robot" >>                    \* in alphabetical order
Names == << "a", "b", "lf", "lh", "rf", "rh" >>          \* in alphabetical order
Servers == {1, 2}
None == "-"
Blank == [jid |-> <<>>, lim |-> <<>>, fid |-> <<>>, flim |-> <<>>, spec |-> [n \in {"lf", "lh", "rf", "rh"} |-> -1],
          foot |-> <<"", "">>, hand |-> <<"", "">>, imu |-> "", sole |-> <<>>, map |-> <<>>, urdf |-> "", par |-> <<>>]
InitSt == [rob |-> [r \in {Robots[i] : i \in 1..3} |-> <<>>], ps |-> [s \in Servers |-> None], simple |-> [s \in Servers |-> None]]
Has(st, r) == st.rob[r] # <<>>
R(st, r) == st.rob[r][1]
List(st) == SelectSeq(Robots, LAMBDA r : Has(st, r))
Ok(st) == [st |-> st, obs |-> <<"ok">>]
No(st, obs) == [st |-> st, obs |-> obs]
Err(st) == No(st, <<"exc", "runtime_error">>)
Make(st, r) == IF Has(st, r) THEN st ELSE [st EXCEPT !.rob[r] = <<Blank>>]
(* finite maps as sets of pairs, the later one replaces: sequences of <<key, value>> without order *)
Get(m, k, d) == IF \E i \in DOMAIN m : m[i][1] = k THEN m[CHOOSE i \in DOMAIN m : m[i][1] = k][2] ELSE d
Set(m, k, v) == Append(SelectSeq(m, LAMBDA e : e[1] # k), <<k, v>>)
Idx(n) == CHOOSE i \in DOMAIN Names : Names[i] = n
NameOf(m, id, d) == LET S == {i \in DOMAIN Names : Get(m, Names[i], -1) = id} IN
  IF S = {} THEN d ELSE Names[CHOOSE i \in S : \A k \in S : k <= i]
(* pairs name, id in the order of names; pairs id, name in the order of ids *)
ByName(m) == LET F[i \in 0..Len(Names)] == IF i = 0 THEN <<>> ELSE F[i-1] \o (IF Get(m, Names[i], -1) = -1 THEN <<>> ELSE << <<Names[i], Get(m, Names[i], -1)>> >>) IN F[Len(Names)]
ById(m) == LET F[i \in -1..20] == IF i = -1 THEN <<>> ELSE F[i-1] \o (IF NameOf(m, i, "") = "" THEN <<>> ELSE << <<NameOf(m, i, ""), i>> >>) IN F[20]
(* --- parameters: a tree of texts *)
Prefix(p, q) == Len(p) <= Len(q) /\ \A i \in 1..Len(p) : p[i] = q[i]
Known(m, p) == \E i \in DOMAIN m : Prefix(p, m[i][1])
IsInt(t) == t \in {"0", "1", "5", "-3", "12"}
IsDbl(t) == IsInt(t) \/ t \in {"0.5", "-2.5"}
IntOf(t) == CASE t = "0" -> 0 [] t = "1" -> 1 [] t = "5" -> 5 [] t = "-3" -> -3 [] t = "12" -> 12
HalfOf(t) == IF IsInt(t) THEN 2 * IntOf(t) ELSE IF t = "0.5" THEN 1 ELSE -5
IsBool(t) == t \in {"0", "1", "true", "false"}
Read(m, p, kind) == LET t == Get(m, p, "") IN
  IF ~Known(m, p) THEN <<"exc", "runtime_error">>
  ELSE IF kind = "str" THEN <<"ok", t>>
  ELSE IF kind = "int" THEN IF IsInt(t) THEN <<"ok", IntOf(t)>> ELSE <<"exc", "runtime_error">>
  ELSE IF kind = "dbl" THEN IF IsDbl(t) THEN <<"ok", HalfOf(t)>> ELSE <<"exc", "runtime_error">>
  ELSE IF IsBool(t) THEN <<"ok", t \in {"1", "true"}>> ELSE <<"exc", "runtime_error">>
(* --- orders of a server to its robot: nothing before it has one *)
Order(r, o) ==                                            \* o = <<"s", server, order, ...>>
  CASE o[3] = "jid" -> [r EXCEPT !.jid = Set(@, o[4], o[5])]
    [] o[3] = "lim" -> [r EXCEPT !.lim = Set(@, o[4], <<o[5], o[6]>>)]
    [] o[3] = "fid" -> [r EXCEPT !.fid = Set(@, o[4], o[5]), !.spec = [n \in DOMAIN @ |-> IF n = o[4] THEN o[5] ELSE @[n]]]
    [] o[3] = "flim" -> [r EXCEPT !.flim = Set(@, o[4], <<o[5], o[6]>>)]
    [] o[3] = "foot" -> [r EXCEPT !.foot = CASE o[4] = "Left" -> <<o[5], @[2]>> [] o[4] = "Right" -> <<@[1], o[5]>> [] OTHER -> @]
    [] o[3] = "hand" -> [r EXCEPT !.hand = CASE o[4] = "Left" -> <<o[5], @[2]>> [] o[4] = "Right" -> <<@[1], o[5]>> [] OTHER -> @]
    [] o[3] = "imu" -> [r EXCEPT !.imu = o[4]]
    [] o[3] = "sole" -> [r EXCEPT !.sole = o[4]]
    [] o[3] = "map" -> [r EXCEPT !.map = o[4]]
    [] o[3] = "par" -> [r EXCEPT !.par = Set(@, o[4], o[6])]     \* o[5]: the type, o[6]: the text of the value
(* --- questions about a robot *)
Ask(r, o) ==                                              \* o = <<"q", robot, question, ...>>
  CASE o[3] = "jid" -> <<"ok", Get(r.jid, o[4], -1)>>
    [] o[3] = "jname" -> <<"ok", NameOf(r.jid, o[4], "Joint name not found")>>
    [] o[3] = "lim" -> <<"ok", Get(r.lim, o[4], <<0, 0>>)>>
    [] o[3] = "fid" -> <<"ok", Get(r.fid, o[4], -1)>>
    [] o[3] = "fname" -> <<"ok", NameOf(r.fid, o[4], "Force name not found")>>
    [] o[3] = "flim" -> <<"ok", Get(r.flim, o[4], << <<0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0>> >>)>>
    [] o[3] = "spec" -> <<"ok", r.spec["lf"], r.spec["lh"], r.spec["rf"], r.spec["rh"]>>
    [] o[3] = "txt" -> <<"ok", r.foot, r.hand, r.imu, r.urdf, r.sole>>
    [] o[3] = "map" -> <<"ok", Len(r.map), r.map>>
Shown(r) == <<"ok", Len(r.map), r.map, ByName(r.jid), ById(r.jid), ByName(r.fid), ById(r.fid), r.spec["lh"], r.spec["rh"], r.spec["lf"], r.spec["rf"], r.urdf>>
Apply(st, o) ==
  CASE o[1] = "create" -> IF Has(st, o[2]) THEN No(st, <<"ok", FALSE>>) ELSE No(Make(st, o[2]), <<"ok", TRUE>>)
    [] o[1] = "exists" -> No(st, <<"ok", Has(st, o[2]), Has(st, o[2])>>)
    [] o[1] = "list" -> No(st, <<"ok", List(st)>>)
    [] o[1] = "init" -> IF o[3] <= 0 THEN Ok(st) ELSE Ok([Make(st, o[4]) EXCEPT !.ps[o[2]] = o[4], !.rob[o[4]][1].urdf = o[5]])
    [] o[1] = "simple" -> IF o[3] <= 0 THEN Ok(st) ELSE IF Len(List(st)) # 1 THEN No(st, <<"exc", "sot", 703>>)
                          ELSE Ok([st EXCEPT !.ps[o[2]] = List(st)[1], !.simple[o[2]] = List(st)[1]])
    [] o[1] = "s" -> IF st.ps[o[2]] = None THEN Ok(st) ELSE Ok([st EXCEPT !.rob[st.ps[o[2]]][1] = Order(@, o)])
    [] o[1] = "get" -> IF st.ps[o[2]] = None THEN Err(st) ELSE No(st, Read(R(st, st.ps[o[2]]).par, o[3], o[4]))
    [] o[1] = "getmap" -> IF st.simple[o[2]] = None THEN No(st, <<"exc", "dg">>) ELSE No(st, <<"ok", R(st, st.simple[o[2]]).map>>)
    [] o[1] = "show" -> IF st.ps[o[2]] = None THEN Ok(st) ELSE No(st, Shown(R(st, st.ps[o[2]])))
    [] o[1] = "q" -> IF ~Has(st, o[2]) THEN No(st, <<"none">>) ELSE No(st, Ask(R(st, o[2]), o))
    [] o[1] = "convert" -> IF st.ps[o[2]] = None THEN No(st, <<"none">>) ELSE LET id == Get(R(st, st.ps[o[2]]).jid, o[3], -1) IN No(st, <<"ok", id # -1, id>>)
    [] o[1] = "inrange" -> IF st.ps[o[2]] = None THEN No(st, <<"none">>) ELSE LET l == Get(R(st, st.ps[o[2]]).lim, o[3], <<0, 0>>) IN No(st, <<"ok", l[1] <= o[4] /\ o[4] <= l[2]>>)
    [] o[1] = "mimics" ->                                \* joints: <<name, follows another?>>, around and within other elements
         No(st, <<"ok", [i \in 1..Len(SelectSeq(o[2], LAMBDA j : j[2])) |-> SelectSeq(o[2], LAMBDA j : j[2])[i][1]]>>)
    [] o[1] = "badxml" -> Err(st)
(* --- the bounded histories explored *)
P(x) == Profile = x
V(n) == [i \in 1..6 |-> n]
Ops(st) ==
  CASE P("registry") -> <<
      {<<"create", r>> : r \in {"arm", "leg"}}, {<<"exists", r>> : r \in {"arm", "leg"}}, {<<"list">>},
      {<<"init", s, 1, r, "u" >> : s \in Servers, r \in {"arm", "leg"}}, {<<"init", 1, 0, "leg", "u">>},
      {<<"simple", s, t>> : s \in {x \in Servers : st.simple[x] = None}, t \in {-1, 1}},
      {<<"s", s, "map", <<1, 0>> >> : s \in Servers},
      {<<"getmap", s>> : s \in Servers}, {<<"show", s>> : s \in Servers}, {<<"q", r, "map">> : r \in {"arm", "leg"}},
      {<<"get", s, <<"k">>, "str">> : s \in Servers}, {<<"convert", 1, "a">>} >>
    [] P("joints") -> IF st.ps[1] = None THEN << {<<"init", 1, 1, "arm", "file">>} >> ELSE <<
      {<<"s", 1, "jid", n, i>> : n \in {"a", "b"}, i \in {0, 2}}, IF Len(R(st, "arm").jid) < 2 THEN {<<"s", 1, "lim", i, -1, 4>> : i \in {0, 2}} \cup {<<"s", 1, "lim", 2, 0, 1>>} ELSE {},
      {<<"q", "arm", "jid", n>> : n \in {"a", "b"}}, {<<"q", "arm", q, i>> : q \in {"jname", "lim"}, i \in 0..2}, {<<"show", 1>>},
      {<<"convert", 1, n>> : n \in {"a", "b"}}, {<<"inrange", 1, i, q>> : i \in {0, 1, 2}, q \in {-2, -1, 0, 1, 2, 4, 5}},
      {<<"s", 1, "map", m>> : m \in {<<>>, <<2, 0, 1>>}}, {<<"q", "arm", "map">>} >>
    [] P("forces") -> IF st.ps[1] = None THEN << {<<"init", 1, 1, "arm", "file">>} >> ELSE <<
      {<<"s", 1, "fid", n, i>> : n \in {"a", "rf"}, i \in {0, 3}}, IF Len(R(st, "arm").fid) < 2 THEN {<<"s", 1, "fid", n, 3>> : n \in {"lf", "lh", "rh"}} ELSE {}, IF Len(R(st, "arm").fid) = 1 THEN {<<"s", 1, "flim", 0, V(-2), V(2)>>, <<"s", 1, "flim", 3, <<1>>, <<2>> >>} ELSE {},
      {<<"q", "arm", "fid", n>> : n \in {"a", "rf"}}, {<<"q", "arm", q, i>> : q \in {"fname", "flim"}, i \in {0, 1, 3}}, {<<"q", "arm", "spec">>, <<"show", 1>>} >>
    [] P("texts") -> IF st.ps[1] = None THEN << {<<"init", 1, 1, "arm", "file">>} >> ELSE <<
      {<<"s", 1, k, x, "fr">> : k \in {"foot", "hand"}, x \in {"Left", "Right", "left"}}, {<<"s", 1, "imu", "waist">>}, {<<"s", 1, "sole", <<1, 2, 3>> >>}, {<<"init", 1, 1, "arm", "other">>},
      {<<"q", "arm", "txt">>}, {<<"mimics", << <<"j1", x>>, <<"j2", y>>, <<"j3", z>> >> >> : x, y, z \in BOOLEAN}, {<<"badxml">>} >>
    [] OTHER -> IF st.ps[1] = None THEN << {<<"init", 1, 1, "arm", "file">>, <<"get", 1, <<"k">>, "str">>} >> ELSE <<
      {<<"s", 1, "par", p, "str", t>> : p \in {<<"k">>, <<"k", "l">>}, t \in {"5", "zz"}}, {<<"s", 1, "par", p, "int", t>> : p \in {<<"k">>, <<"m", "n">>}, t \in {"-3", "1"}},
      {<<"s", 1, "par", <<"k">>, "dbl", t>> : t \in {"0.5", "12"}}, {<<"s", 1, "par", <<"m", "n">>, "bool", t>> : t \in {"true", "false"}},
      {<<"get", 1, p, k>> : p \in {<<"k">>, <<"k", "l">>, <<"m">>, <<"m", "n">>, <<"z">>}, k \in {"str", "int", "dbl", "bool"}} >>
RECURSIVE Sorted(_)
Sorted(m) == \A i, k \in DOMAIN m : m[i][1] = m[k][1] => i = k
Bound(st) == TRUE
Inv(st) == /\ \A s \in Servers : st.ps[s] # None => Has(st, st.ps[s])                       \* a server only talks to a robot of the store
           /\ \A r \in DOMAIN st.rob : Has(st, r) => Sorted(R(st, r).jid) /\ Sorted(R(st, r).fid) /\ Sorted(R(st, r).par)
(* names and ids stay the inverse of each other; nothing changes on a refusal; another robot is untouched *)
StepOK(st, o, r) ==
  /\ (r.obs[1] = "exc" => r.st = st)
  /\ (o[1] \in {"q", "get", "show", "list", "exists", "getmap"} => r.st = st)
  /\ \A x \in DOMAIN st.rob : Has(st, x) => Has(r.st, x)
  /\ (o[1] = "s" => \A x \in DOMAIN st.rob : x # st.ps[o[2]] => r.st.rob[x] = st.rob[x])
=============================================================================
