-------------------------------- MODULE Logic -------------------------------
(* Small decision entities: event detector, latch, switch, sign, clocks.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Profile
None == -99
InitSt == [last |-> 2, since |-> 0, rep |-> 0, cond |-> None, trig |-> <<>>, bad |-> {},
           latch |-> FALSE, ins |-> <<>>, sel |-> None, bsel |-> None,
           sec |-> 10, us |-> 0, dt |-> 0, work |-> 0, cpu |-> 0, v |-> None, kind |-> "vector"]
Put(st) == [st |-> st, obs |-> <<"ok">>]
No(st, obs) == [st |-> st, obs |-> obs]
Dg(st) == No(st, <<"exc", "dg">>)
(* --- event: tells whether the condition changed, and triggers when it rises *)
RECURSIVE Until(_, _)
Until(s, bad) == IF s = <<>> THEN <<>> ELSE IF s[1] \in bad THEN << s[1] >> ELSE << s[1] >> \o Until(Tail(s), bad)
Check(st) ==
  LET changed == st.cond # st.last
      up == st.last = 0 /\ st.cond = 1
      since == IF up THEN 0 ELSE IF st.cond = 1 THEN st.since + 1 ELSE st.since
      fires == up \/ (st.cond = 1 /\ st.rep > 0 /\ since >= st.rep)
      fails == fires /\ \E i \in DOMAIN st.trig : st.trig[i] \in st.bad
  IN [st |-> [st EXCEPT !.last = st.cond, !.since = IF fires /\ ~fails THEN 0 ELSE since],
      obs |-> IF fails THEN <<"exc", Until(st.trig, st.bad)>> ELSE <<"ok", changed, IF fires THEN st.trig ELSE <<>> >>]
(* --- switch: the input of the given index, the integer selection first      *)
Sel(st) == IF st.sel # None THEN st.sel ELSE st.bsel
Out(st) == IF Sel(st) = None THEN <<"exc", "dg">>
  ELSE IF Sel(st) < 0 \/ Sel(st) >= Len(st.ins) THEN <<"exc", "runtime_error">>
  ELSE IF st.ins[Sel(st) + 1] = None THEN <<"exc", "dg">> ELSE <<"ok", st.ins[Sel(st) + 1]>>
Resize(st, n) == [st EXCEPT !.ins = [i \in 1..n |-> IF i <= Len(@) THEN @[i] ELSE None]]
(* --- clocks *)
Later(st, d) == [st EXCEPT !.sec = @ + (st.us + d) \div 1000000, !.us = (st.us + d) % 1000000]
Apply(st, o) ==
  CASE o[1] = "kind" -> Put([InitSt EXCEPT !.kind = o[2]])            \* fresh entities for another type of values
    [] o[1] = "cond" -> Put([st EXCEPT !.cond = o[2]])
    [] o[1] = "repeat" -> Put([st EXCEPT !.rep = o[2]])
    [] o[1] = "trig" -> Put([st EXCEPT !.trig = Append(@, o[2])])
    [] o[1] = "notrig" -> Dg(st)
    [] o[1] = "bad" -> Put([st EXCEPT !.bad = IF o[3] THEN @ \cup {o[2]} ELSE @ \ {o[2]}])
    [] o[1] = "list" -> No(st, <<"ok", st.trig>>)
    [] o[1] = "check" -> IF st.cond = None THEN Dg(st) ELSE Check(st)
    [] o[1] = "latch" -> IF o[2] \in {"turnOn", "turnOnSout"} THEN [st |-> [st EXCEPT !.latch = TRUE], obs |-> <<"ok", TRUE>>]
                         ELSE IF o[2] \in {"turnOff", "turnOffSout"} THEN [st |-> [st EXCEPT !.latch = FALSE], obs |-> <<"ok", FALSE>>]
                         ELSE No(st, <<"ok", st.latch>>)
    [] o[1] = "number" -> Put(Resize(st, o[2]))
    [] o[1] = "count" -> No(st, <<"ok", Len(st.ins)>>)
    [] o[1] = "in" -> IF o[2] >= Len(st.ins) THEN Dg(st) ELSE Put([st EXCEPT !.ins[o[2] + 1] = o[3]])
    [] o[1] = "sel" -> Put([st EXCEPT !.sel = o[2]])
    [] o[1] = "bsel" -> Put([st EXCEPT !.bsel = o[2]])
    [] o[1] = "out" -> No(st, Out(st))
    [] o[1] = "sign" -> No(st, <<"ok", IF o[2] < 0 THEN 0 ELSE 1>>)
    [] o[1] = "clock" -> Put([st EXCEPT !.sec = o[2], !.us = o[3]])
    [] o[1] = "stamp" -> No(st, CASE o[2] = "time" -> <<"ok", st.sec, st.us>>
                                 [] o[2] = "timeDouble" -> <<"ok", st.sec * 1000000 + st.us>>     \* in thousandths of a millisecond
                                 [] o[2] = "display" -> <<"ok", st.sec, st.us>>)
    [] o[1] = "work" -> Put([st EXCEPT !.v = o[2], !.work = o[3], !.cpu = o[4]])
    [] o[1] = "timer" -> IF st.v = None THEN Dg(st)
                         ELSE LET d == IF o[2] = "sout" THEN st.work ELSE st.cpu IN [st |-> [Later(st, st.work) EXCEPT !.dt = d], obs |-> <<"ok", st.v>>]
    [] o[1] = "again" -> IF st.v = None THEN Dg(st) ELSE LET d == st.work IN [st |-> [Later(st, st.work) EXCEPT !.dt = d], obs |-> <<"ok", st.v, st.v>>]   \* twice in a period: measured once
    [] o[1] = "dt" -> No(st, <<"ok", st.dt>>)
P(x) == Profile = x
Ops(st) ==
  CASE P("event") -> << {<<"cond", b>> : b \in {0, 1, None}}, {<<"repeat", n>> : n \in {0, 1, 2}}, IF Len(st.trig) < 2 THEN {<<"trig", 1>>, <<"trig", 2>>} ELSE {}, {<<"bad", 1, b>> : b \in BOOLEAN}, {<<"check">>}, {<<"list">>, <<"notrig">>} >>
    [] P("latch") -> << {<<"latch", x>> : x \in {"turnOn", "turnOff", "turnOnSout", "turnOffSout", "out"}}, {<<"sign", x>> : x \in {-5, -1, 0, 1, 7}} >>
    [] P("clock") -> << IF st = InitSt THEN {<<"kind", "double">>} ELSE {}, {<<"clock", 9, 750000>>, <<"clock", 10, 0>>}, {<<"stamp", x>> : x \in {"time", "timeDouble", "display"}}, {<<"work", 5, 250000, 1000>>, <<"work", -3, 1500000, 0>>}, {<<"timer", "sout">>, <<"timer", "clockSout">>, <<"again">>}, {<<"dt">>} >>
    [] OTHER -> << IF st = InitSt THEN {<<"kind", "bool">>, <<"kind", "pose">>} ELSE {}, {<<"number", n>> : n \in 0..3}, {<<"in", i, x>> : i \in 0..2, x \in {1, 2}}, {<<"sel", s>> : s \in {None, -1, 0, 2}}, {<<"bsel", s>> : s \in {None, 0, 1}}, {<<"out">>, <<"count">>} >>
Bound(st) == st.since <= 4 /\ st.sec <= 11
Inv(st) == st.us \in 0..999999 /\ st.dt >= 0
StepOK(st, o, r) == (o[1] = "check" /\ r.obs[1] = "ok" /\ st.cond = 0) => r.obs[3] = <<>>
=============================================================================
