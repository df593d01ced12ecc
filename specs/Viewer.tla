------------------------------ MODULE Viewer ------------------------------
(* Robots attached to a viewer: what the viewer is sent, and what is logged.
   Everything is in tenths.  Robot i is of class cl[i].                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Big
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
\* view: 0 none, 1 a real one, 2 a fake one; small: number of zeros that complete the state, -1 when the class is not attached
InitSt == [rob |-> <<>>, cls |-> <<-1, -1, -1>>, ping |-> 0]
Shown(n) == IF n \in {"robot", "robot_device"} THEN "hrp" ELSE n
Zeros(n) == [k \in 1..n |-> 0]
(* what one call of the viewer does: sent to it, and logged when there is a log *)
Send(m, name, v) == [m |-> IF m.logging THEN [m EXCEPT !.log = Append(@, <<name, <<10 * m.time>> \o v>>)] ELSE m, out |-> IF m.view = 1 THEN << <<name, v>> >> ELSE <<>>]
Refresh(st, m) == LET r == Send(m, Shown(m.name), m.q \o Zeros(st.cls[m.cl])) IN [m |-> r.m, out |-> r.out \o [k \in DOMAIN m.disp |-> <<"display", <<m.disp[k]>> >>]]
RefreshIf(st, m) == IF m.view = 0 \/ st.cls[m.cl] < 0 THEN [m |-> m, out |-> <<>>] ELSE Refresh(st, m)
Put(st, i, r) == [st |-> [st EXCEPT !.rob[i] = r.m], obs |-> r.out]
RECURSIVE Sum(_, _)
Sum(q, d) == [k \in DOMAIN q |-> q[k] + d]
Names(m) == {m.log[k][1] : k \in DOMAIN m.log}
Rows(m, n) == LET R == SelectSeq(m.log, LAMBDA e : e[1] = n) IN [k \in DOMAIN R |-> R[k][2]]
NoRobot == <<"print", "No robot viewer, sorry.">>
Apply(st, o) ==
  IF o[1] = "new" THEN [st |-> [st EXCEPT !.rob = Append(@, [name |-> o[2], cl |-> o[3], form |-> o[4], q |-> o[5], time |-> 0, view |-> 0, disp |-> <<>>, logging |-> FALSE, log |-> <<>>])], obs |-> <<"ok">>]
  ELSE LET i == o[2]  m == st.rob[i] IN
  CASE o[1] = "connect" -> \* mode small extra dorefresh verbose
         LET small == IF o[4] THEN o[5] ELSE 0
             pr == IF o[7] /\ o[4] /\ o[3] # "nomodule" THEN << <<"print", "using a small robot">> >> ELSE <<>>
             sorry == IF o[7] THEN <<NoRobot>> ELSE <<>>
             ok == o[3] = "ok" \/ (o[3] = "silent" /\ ~o[6])
         IN IF o[3] \in {"nomodule", "refused"} THEN [st |-> [st EXCEPT !.rob[i] = [m EXCEPT !.view = 2, !.disp = <<>>, !.logging = FALSE]], obs |-> pr \o sorry]
            ELSE LET s2 == [st EXCEPT !.cls[m.cl] = small]  m2 == [m EXCEPT !.view = 1, !.disp = <<>>, !.logging = FALSE] IN
              IF ~ok THEN [st |-> [s2 EXCEPT !.rob[i] = [m2 EXCEPT !.view = 2]], obs |-> pr \o sorry]
              ELSE IF o[6] THEN LET r == Refresh(s2, m2) IN [st |-> [s2 EXCEPT !.rob[i] = r.m], obs |-> pr \o r.out] ELSE [st |-> [s2 EXCEPT !.rob[i] = m2], obs |-> pr]
    [] o[1] = "set" -> Put(st, i, RefreshIf(st, [m EXCEPT !.q = o[3]]))
    [] o[1] = "increment" -> Put(st, i, RefreshIf(st, [m EXCEPT !.q = Sum(@, o[3]), !.time = @ + 1]))
    [] o[1] = "refresh" -> Put(st, i, Refresh(st, m))
    [] o[1] = "display" -> [st |-> [st EXCEPT !.rob[i].disp = Append(@, o[3])], obs |-> <<"ok">>]
    [] o[1] = "state" -> [st |-> st, obs |-> <<m.q, m.time>>]
    [] o[1] = "com" -> IF o[3] > 0 THEN Put(st, i, Send(m, o[4], <<o[5][1], o[5][2], 0, 0, 0, 0>>)) ELSE [st |-> st, obs |-> <<>>]
    [] o[1] = "pinger" -> LET r == Send(m, "pong", <<0, 9, 1, 0, 0, 0>>) IN [st |-> [st EXCEPT !.rob[i] = r.m, !.ping = 1], obs |-> r.out]
    [] o[1] = "ping" -> LET r == Send(m, "pong", <<0, 9, st.ping + 1, 0, 0, 0>>) IN [st |-> [st EXCEPT !.rob[i] = r.m, !.ping = @ + 1], obs |-> r.out]
    [] o[1] = "log" -> [st |-> [st EXCEPT !.rob[i] = [m EXCEPT !.logging = TRUE, !.log = <<>>]], obs |-> <<"ok">>]
    \* o[3]: the names, sorted
    [] o[1] = "file" -> [st |-> st, obs |-> IF o[3] \notin Names(m) THEN <<"absent">> ELSE <<Rows(m, o[3])>>]
Attached(m) == m.view # 0
N(st) == Len(st.rob)
Ops(st) == << IF N(st) = 0 THEN {<<"new", n, 1, f, <<10, -5>> >> : n \in {"robot", "robot_device", "foo"}, f \in {"tuple", "array"}} ELSE {} >> \o
  IF N(st) = 0 THEN <<>> ELSE LET m == st.rob[1] IN <<
    IF m.view # 0 /\ m.time = 0 /\ ~m.logging /\ m.disp = <<>> THEN {<<"connect", 1, md, s, 2, TRUE, FALSE>> : md \in {"ok", "silent"}, s \in BOOLEAN} ELSE IF m.view = 0 THEN {<<"connect", 1, md, s, 2, d, v>> : md \in {"ok", "nomodule", "refused", "silent"}, s \in BOOLEAN, d \in BOOLEAN, v \in BOOLEAN} ELSE {},
    {<<"set", 1, <<5, 15>> >>, <<"state", 1>>}, IF m.time < Big THEN {<<"increment", 1, 5>>} ELSE {}, IF st.cls[1] >= 0 THEN {<<"refresh", 1>>} \cup (IF Len(m.disp) < 1 THEN {<<"display", 1, 7>>} ELSE {}) ELSE {},
    IF Attached(m) THEN {<<"com", 1, t, "com", <<10, 20, 30>> >> : t \in {0, 1}} \cup (IF st.ping = 0 THEN {<<"pinger", 1>>} ELSE IF st.ping < 3 THEN {<<"ping", 1>>} ELSE {}) \cup (IF ~m.logging /\ m.time = 0 THEN {<<"log", 1>>} ELSE {<<"file", 1, n>> : n \in {"hrp", "foo", "com", "pong"}}) ELSE {} >>
Bound(st) == (\A j \in DOMAIN st.rob : st.rob[j].logging => st.ping < 2) /\ \A i \in DOMAIN st.rob : Len(st.rob[i].log) <= Big
Inv(st) == TRUE
StepOK(st, o, r) == (o[1] \in {"state", "file"} => r.st = st) /\ (o[1] # "new" => \A i \in DOMAIN st.rob : i # o[2] => r.st.rob[i] = st.rob[i])
=============================================================================
