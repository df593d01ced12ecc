------------------------------ MODULE Calendar ------------------------------
(* Actions registered at a time of the execution, or at every time ("always",
   until stopped).  At every time: the periodic actions in order, then, if
   something is registered at this time, the pings and the actions in order,
   each announced by its documentation.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ids, Times, MaxEv
A == 100   \* the key of "always"
S == 101   \* the key of what was stopped
Keys == 0..12 \cup {A, S}
None == <<"none">>
InitSt == [ev |-> [t \in Keys |-> None], ping |-> <<>>, deco |-> <<>>]
Doc(k) == CASE k = 1 -> <<"one">> [] k = 2 -> <<>> [] k = 3 -> <<"">> [] k = 4 -> <<"four">> [] k = 5 -> <<>>
Key(t) == IF t = -1 THEN A ELSE t
Evs(st, t) == IF st.ev[t] = None THEN <<>> ELSE st.ev[t][2]
E(k, doc) == [f |-> k, doc |-> doc]
Add(st, t, es) == [st EXCEPT !.ev[t] = <<"some", Evs(st, t) \o es>>]
RECURSIVE Index(_, _)
Index(s, x) == IF s = <<>> THEN 0 ELSE IF Head(s) = x THEN 1 ELSE LET k == Index(Tail(s), x) IN IF k = 0 THEN 0 ELSE k + 1
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
(* stopping a periodic action: [st, err] *)
Stop(st, e) == IF st.ev[A] = None THEN [st |-> st, err |-> "KeyError"]
   ELSE LET k == Index(Evs(st, A), e) IN IF k = 0 THEN [st |-> st, err |-> "ValueError"]
   ELSE [st |-> Add([st EXCEPT !.ev[A] = <<"some", Without(@[2], k)>>], S, <<e>>), err |-> ""]
(* what action k does besides being logged: 4 stops itself, 5 registers 1 at time 7 *)
Effect(st, k) == CASE k = 4 -> Stop(st, E(4, Doc(4))) [] k = 5 -> [st |-> Add(st, 7, <<E(1, Doc(1))>>), err |-> ""] [] OTHER -> [st |-> st, err |-> ""]
Line(t, e) == "At time " \o ToString(t) \o ":  " \o (IF e.doc # <<>> THEN e.doc[1] ELSE IF Doc(e.f) # <<>> THEN Doc(e.f)[1] ELSE "Runing  F" \o ToString(e.f)) \o "\n"
RECURSIVE Do(_, _, _, _, _)        \* the actions es, announced with time t (or not: -1)
Do(st, es, t, args, log) ==
  IF es = <<>> THEN [st |-> st, log |-> log, err |-> ""]
  ELSE LET e == Head(es)  r == Effect(st, e.f)
           l == (IF t < 0 THEN log ELSE log \o <<<<"print", Line(t, e)>>>>) \o <<<<"f", e.f, args>>>>
       IN IF r.err # "" THEN [st |-> r.st, log |-> l \o <<<<"raised", r.err>>>>, err |-> r.err] ELSE Do(r.st, Tail(es), t, args, l)
Run(st, t, args, log) ==
  LET r == Do(st, Evs(st, A), -1, args, log) IN
  IF r.err # "" \/ r.st.ev[t] = None THEN r
  ELSE Do(r.st, Evs(r.st, t), t, args, r.log \o [k \in DOMAIN r.st.ping |-> <<"ping", r.st.ping[k]>>])
RECURSIVE Forward(_, _, _, _)
Forward(st, i, t, log) == IF i > t THEN [st |-> st, log |-> log, err |-> ""] ELSE LET r == Run(st, i, <<>>, log) IN IF r.err # "" THEN r ELSE Forward(r.st, i + 1, t, r.log)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
Shown(e) == (IF e.doc = <<>> THEN "None" ELSE IF e.doc[1] = "" THEN "F" \o ToString(e.f) ELSE e.doc[1]) \o "\n"
Section(st, t, name) == IF st.ev[t] = None THEN "" ELSE name \o ": \n" \o Cat([k \in DOMAIN Evs(st, t) |-> Shown(Evs(st, t)[k])])
Repr(st) == Cat([k \in 1..13 |-> Section(st, k - 1, ToString(k - 1))]) \o Section(st, A, "ALWAYS") \o Section(st, S, "STOP")
Ok(st) == [st |-> st, obs |-> <<"ok">>]
OutOf(r) == [st |-> r.st, obs |-> r.log]
DecoDoc(k) == IF Doc(k) = <<>> THEN "No doc fun" ELSE Doc(k)[1]
Apply(st, o) ==
  CASE o[1] = "reg" -> LET t == Key(o[2])  k == o[4] IN Ok(Add(st, t,
         CASE o[3] \in {"fun", "object"} -> <<E(k, Doc(k))>>
           [] o[3] \in {"pair", "tuple"} -> <<E(k, <<o[5]>>)>>
           [] o[3] = "two" -> <<E(k, Doc(k)), E(o[5], Doc(o[5]))>>
           [] o[3] = "many" -> <<E(k, Doc(k)), E(o[6], <<o[5]>>), E(o[6], Doc(o[6]))>>))
    [] o[1] = "deco" -> LET s2 == [Add(st, o[2], <<E(o[3], <<DecoDoc(o[3])>>)>>) EXCEPT !.deco = <<o[3]>>] IN
         [st |-> s2, obs |-> IF DecoDoc(o[3]) = "" THEN <<"nodoc">> ELSE <<DecoDoc(o[3]) \o " (will be run at time " \o ToString(o[2]) \o ")">>]
    [] o[1] = "calldeco" -> [st |-> st, obs |-> <<<<"f", st.deco[1], o[2]>>>>]
    [] o[1] = "stop" -> LET r == Stop(st, E(o[2], <<o[3]>>)) IN IF r.err = "" THEN Ok(r.st) ELSE [st |-> st, obs |-> <<"exc", r.err>>]
    [] o[1] = "ping" -> Ok([st EXCEPT !.ping = Append(@, o[2])])
    [] o[1] = "run" -> OutOf(Run(st, o[2], o[3], <<>>))
    [] o[1] = "ff" -> OutOf(Forward(st, 0, o[2], <<>>))
    [] o[1] = "repr" -> [st |-> st, obs |-> <<Repr(st)>>]
    [] o[1] = "sigset" -> [st |-> st, obs |-> <<o[2]>>]
RECURSIVE Count(_, _)
Count(st, T) == IF T = {} THEN 0 ELSE LET t == CHOOSE x \in T : TRUE IN Len(Evs(st, t)) + Count(st, T \ {t})
Size(st) == Count(st, Keys)
Ops(st) == << IF Size(st) < MaxEv THEN {<<"reg", t, "fun", k>> : t \in Times, k \in Ids} \cup {<<"reg", t, f, 1, "D">> : t \in Times, f \in {"pair", "tuple"}} \cup {<<"reg", t, "object", 1>> : t \in Times} ELSE {},
    IF Size(st) = 0 THEN {<<"reg", t, "many", 1, "D", 2>> : t \in Times} \cup {<<"reg", t, "two", k, j>> : t \in Times, k \in Ids, j \in {1, 2}} \cup {<<"deco", 2, k>> : k \in {1, 2}} ELSE {},
    IF st.deco # <<>> THEN {<<"calldeco", <<4>> >>} ELSE {}, {<<"stop", 1, "one">>, <<"stop", 1, "D">>}, IF Len(st.ping) < 1 THEN {<<"ping", Len(st.ping) + 1>>} ELSE {},
    {<<"run", t, <<>> >> : t \in (Times \ {-1}) \cup {3}}, {<<"run", 2, <<1, 2>> >>, <<"ff", 3>>, <<"repr">>, <<"sigset", <<1, 2>> >>} >>
Bound(st) == Size(st) <= MaxEv + 1
Inv(st) == TRUE
StepOK(st, o, r) == /\ (o[1] \in {"repr", "calldeco"} => r.st = st)
   \* an action that does not register or stop anything leaves the calendar as it was
   /\ ((o[1] \in {"run", "ff"} /\ \A t \in Keys \ {S} : \A k \in DOMAIN Evs(st, t) : Evs(st, t)[k].f <= 3) => r.st = st)
=============================================================================
