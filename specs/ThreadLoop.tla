---------------------------- MODULE ThreadLoop ----------------------------
(* A function repeated by a thread of its own, commanded by the script.  The
   thread is stopped at three places: when it begins (before anything of the
   loop is done), in the body of the function, and in its pause; commands fall
   at any of them.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxIter
InitSt == [pc |-> "none", quit |-> FALSE, play |-> FALSE, once |-> FALSE, iter |-> 0, bodies |-> 0, fails |-> FALSE]
Look(st) == <<st.pc, st.iter, st.bodies, st.pc \in {"body", "sleep"}>>
R(st) == [st |-> st, obs |-> Look(st)]
Err(st) == [st |-> st, obs |-> <<"exc", "RuntimeError">>]
Alive(st) == st.pc \in {"begin", "body", "sleep"}
(* the top of the loop *)
Top(st) == IF st.quit THEN [st EXCEPT !.pc = "ended"] ELSE IF st.play THEN [st EXCEPT !.pc = "body", !.bodies = @ + 1] ELSE [st EXCEPT !.pc = "sleep"]
Step(st) == CASE st.pc \in {"begin", "sleep"} -> Top(st)
   [] st.pc = "body" -> IF st.fails THEN [st EXCEPT !.pc = "ended", !.fails = FALSE] ELSE [st EXCEPT !.iter = @ + 1, !.play = IF st.once THEN FALSE ELSE @, !.pc = "sleep"]
(* one period of the loop, from its pause to its pause *)
Period(st) == LET u == Step(st) IN IF u.pc = "body" THEN Step(u) ELSE u
Once(st) == [st EXCEPT !.once = TRUE, !.play = TRUE]
Play(st) == [st EXCEPT !.once = FALSE, !.play = TRUE]
Do(st, c) == CASE c = "once" -> Once(st) [] c = "play" -> Play(st) [] c = "pause" -> [st EXCEPT !.play = FALSE] [] c = "quit" -> [st EXCEPT !.quit = TRUE]
Begin(st) == [st EXCEPT !.pc = "begin", !.play = TRUE, !.quit = FALSE]
Apply(st, o) ==
  CASE o[1] \in {"play", "go"} -> IF st.pc = "ended" THEN [st |-> [st EXCEPT !.play = TRUE, !.quit = FALSE], obs |-> <<"exc", "RuntimeError">>]
                                  ELSE R([(IF Alive(st) THEN st ELSE Begin(st)) EXCEPT !.once = FALSE, !.play = TRUE])
    [] o[1] \in {"pause", "stop"} -> R([st EXCEPT !.play = FALSE])
    [] o[1] = "once" -> R([st EXCEPT !.once = TRUE, !.play = TRUE])
    [] o[1] = "quit" -> R([st EXCEPT !.quit = TRUE])
    [] o[1] = "start" -> R(Begin(st))
    \* after its end, the loop can be started again
    [] o[1] = "restart" -> IF st.pc = "none" THEN Err(st) ELSE R([Begin(st) EXCEPT !.once = FALSE])
    [] o[1] = "fail" -> R([st EXCEPT !.fails = TRUE])
    [] o[1] = "step" -> R(Step(st))
    \* a command is not cut in two by a period of the loop, nor the end of a period by a command
    [] o[1] = "mid" -> R(Period(Period(CASE o[2] = "once" -> Once(Period(st)) [] o[2] = "play" -> Play(Period(st)) [] o[2] = "start" -> Period(Begin(st)) [] o[2] = "restart" -> Period([Begin(st) EXCEPT !.once = FALSE]))))
    [] o[1] = "late" -> R(Step(Do(st, o[2])))
    [] o[1] = "next" -> R([st EXCEPT !.bodies = @ + 1])          \* by hand
    [] o[1] = "inc" -> R([st EXCEPT !.bodies = @ + o[2]])
Ops(st) == << {<<"play">>, <<"pause">>, <<"once">>, <<"quit">>, <<"go">>, <<"stop">>}, IF st.pc = "none" THEN {<<"start">>} ELSE {}, IF Alive(st) THEN {<<"step">>} ELSE {<<"restart">>},
    IF st.bodies < MaxIter THEN {<<"next">>, <<"inc", 2>>} ELSE {}, IF st.pc = "body" THEN {<<"fail">>} ELSE {},
    IF ~st.quit /\ st.pc = "sleep" /\ st.iter + 3 <= MaxIter /\ st.bodies + 3 <= MaxIter /\ ~st.fails THEN {<<"mid", IF st.play THEN "play" ELSE "once", n>> : n \in 0..4} ELSE {},
    IF st.pc = "none" THEN {<<"mid", "start", n>> : n \in 0..4} ELSE {},
    IF st.pc = "ended" /\ st.iter + 3 <= MaxIter /\ st.bodies + 3 <= MaxIter /\ ~st.fails THEN {<<"mid", "restart", n>> : n \in 0..9} ELSE {},
    IF st.pc = "body" /\ ~st.fails THEN {<<"late", c, n>> : c \in {"play", "pause", "quit"}, n \in 0..6} ELSE {} >>
Bound(st) == st.bodies <= MaxIter /\ st.iter <= MaxIter
Inv(st) == st.iter <= st.bodies
StepOK(st, o, r) == /\ (o[1] \notin {"step", "mid", "late"} /\ o[1] \notin {"play", "go", "start", "restart"} => r.st.pc = st.pc)     \* only the thread moves the thread
   /\ (o[1] = "mid" => r.st.bodies = st.bodies + (IF r.st.once THEN 1 ELSE 3))                                 \* asked once: run once
   /\ ((o[1] = "late" /\ o[2] = "play") => r.st.play)
   /\ ((o[1] = "step" /\ st.quit /\ st.pc # "body") => r.st.pc = "ended")
   /\ ((o[1] = "step" /\ ~st.play) => r.st.bodies = st.bodies)                                                    \* paused: nothing is run
   /\ ((o[1] = "step" /\ st.pc = "body" /\ st.once /\ ~st.fails) => ~r.st.play)
=============================================================================
