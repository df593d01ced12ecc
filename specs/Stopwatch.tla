----------------------------- MODULE Stopwatch -----------------------------
(* A stopwatch keeps one record per name.  Times are in microseconds; the
   two clocks (wall clock, processor time) are part of the state and move
   only through "adv", so every measure is known exactly.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Names, Steps, MaxT
None == [ex |-> FALSE, start |-> 0, total |-> 0, min |-> 0, max |-> 0, last |-> 0, stops |-> 0]
AllNames == <<"L", "a", "b", "c">>       \* in the order of the report; "L" stands for a very long name
InitSt == [real |-> 1000000000, cpu |-> 500000000, mode |-> "none", active |-> TRUE, r |-> [n \in {AllNames[k] : k \in DOMAIN AllNames} |-> None]]
Now(st) == IF st.mode = "cpu" THEN st.cpu ELSE st.real
Ok(st) == [st |-> st, obs |-> <<"ok">>]
Look(st, obs) == [st |-> st, obs |-> obs]
NoClock(st) == Look(st, <<"exc", "Clock not initialized to a time taking mode!">>)
NoRec(st) == Look(st, <<"exc", "Performance not initialized.">>)
Stop(p, now) == IF p.start = 0 THEN p ELSE LET d == now - p.start IN
   [p EXCEPT !.stops = @ + 1, !.last = d, !.total = @ + d, !.max = IF d > @ THEN d ELSE @, !.min = IF p.stops = 0 \/ d < @ THEN d ELSE @]
Pause(p, now) == IF p.start = 0 THEN p ELSE LET d == now - p.start IN [p EXCEPT !.last = @ + d, !.total = @ + d]
Reset(p) == IF p.ex THEN [None EXCEPT !.ex = TRUE] ELSE p
Line(n, p) == <<n, p.min, IF p.stops = 0 THEN (IF p.total = 0 THEN "nan" ELSE "inf") ELSE p.total, p.max, p.last, p.stops, p.total>>
Value(st, w, p) == CASE w = "total" -> p.total
  [] w = "min" -> p.min [] w = "max" -> p.max [] w = "last" -> p.last
  [] w = "avg" -> IF p.stops = 0 THEN (IF p.total = 0 THEN "nan" ELSE "inf") ELSE p.total    \* the average times the number of samples
  [] w = "sofar" -> Now(st) - p.start
Seen(st) == SelectSeq(AllNames, LAMBDA n : st.r[n].ex)
Apply(st, o) ==
  CASE o[1] = "adv" -> Ok([st EXCEPT !.real = @ + o[2], !.cpu = @ + o[3]])
    [] o[1] = "mode" -> Ok([st EXCEPT !.mode = o[2]])
    [] o[1] = "on" -> Ok([st EXCEPT !.active = TRUE])
    [] o[1] = "off" -> Ok([st EXCEPT !.active = FALSE])
    [] o[1] = "exists" -> Look(st, <<st.r[o[2]].ex>>)
    [] o[1] = "take" -> IF st.mode = "none" THEN NoClock(st) ELSE Look(st, <<Now(st)>>)
    [] o[1] = "start" -> IF ~st.active THEN Ok(st)
         ELSE IF st.mode = "none" THEN [NoClock(st) EXCEPT !.st.r[o[2]].ex = TRUE]
         ELSE Ok([st EXCEPT !.r[o[2]] = [@ EXCEPT !.ex = TRUE, !.start = Now(st)]])
    [] o[1] \in {"stop", "pause"} -> IF ~st.active THEN Ok(st) ELSE IF st.mode = "none" THEN NoClock(st) ELSE IF ~st.r[o[2]].ex THEN NoRec(st)
         ELSE Ok([st EXCEPT !.r[o[2]] = IF o[1] = "stop" THEN Stop(@, Now(st)) ELSE Pause(@, Now(st))])
    [] o[1] = "reset" -> IF ~st.active THEN Ok(st) ELSE IF ~st.r[o[2]].ex THEN NoRec(st) ELSE Ok([st EXCEPT !.r[o[2]] = Reset(@)])
    [] o[1] = "resetall" -> IF ~st.active THEN Ok(st) ELSE Ok([st EXCEPT !.r = [n \in DOMAIN @ |-> Reset(@[n])]])
    [] o[1] = "get" -> IF ~st.r[o[3]].ex THEN NoRec(st) ELSE IF o[2] = "sofar" /\ st.mode = "none" THEN NoClock(st) ELSE Look(st, <<Value(st, o[2], st.r[o[3]])>>)
    [] o[1] = "report" -> IF ~st.active THEN Look(st, << >>) ELSE IF ~st.r[o[2]].ex THEN NoRec(st) ELSE Look(st, <<Line(o[2], st.r[o[2]])>>)
    [] o[1] = "reportall" -> IF ~st.active THEN Look(st, << >>) ELSE Look(st, <<"header">> \o [k \in DOMAIN Seen(st) |-> Line(Seen(st)[k], st.r[Seen(st)[k]])])
    [] o[1] = "profiler" -> Look(st, <<TRUE, st.real>>)
Ops(st) == << IF st.mode = "none" THEN {<<"mode", "real">>, <<"mode", "cpu">>} ELSE {},
    {<<"adv", d, 2 * d>> : d \in {d \in Steps : st.real + d - 1000000000 <= MaxT}}, {<<"start", n>> : n \in Names}, {<<"stop", n>> : n \in Names}, {<<"pause", n>> : n \in Names},
    {<<"reset", n>> : n \in Names}, {<<"exists", n>> : n \in Names}, {<<"off">>, <<"on">>, <<"resetall">>, <<"take">>, <<"reportall">>},
    {<<"get", w, n>> : w \in {"total", "min", "max", "last", "avg", "sofar"}, n \in Names}, {<<"report", n>> : n \in Names} >>
Bound(st) == \A n \in Names : st.r[n].stops <= 2 /\ st.r[n].total <= 2 * MaxT /\ st.r[n].last <= 2 * MaxT
Inv(st) == \A n \in DOMAIN st.r : LET p == st.r[n] IN
   /\ p.min <= p.max /\ p.min >= 0
   /\ p.stops > 0 => p.stops * p.min <= p.total
   /\ ~p.ex => p = None
StepOK(st, o, r) ==
   /\ o[1] \in {"get", "report", "reportall", "exists", "take", "profiler"} => r.st = st
   /\ ~st.active /\ o[1] \notin {"adv", "mode", "on"} => r.st = st                       \* nothing is recorded when turned off
   /\ o[1] \in {"start", "stop", "pause", "reset"} => \A n \in DOMAIN st.r : n # o[2] => r.st.r[n] = st.r[n]
   /\ \A n \in DOMAIN st.r : r.st.r[n].stops > st.r[n].stops => o[1] = "stop"
=============================================================================
