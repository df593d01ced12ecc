------------------------------- MODULE Debug -------------------------------
(* Traces and errors.
   D: a trace flow with two levels and a pending prefix (tmp); its output is
   what has been written since the last observation.
   The common trace flow writes to a file that can be opened and closed.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Levels, Files, MaxLen
InitSt == [lv |-> 0, tlv |-> 0, tmp |-> "", open |-> 0, good |-> FALSE, f |-> [k \in 1..3 |-> <<"none">>], flv |-> 0]
MacroLevel == 15          \* the level the traces of the harness are compiled with
TemplateLevel == 8
Ok(st) == [st |-> st, obs |-> <<"ok">>]
Look(st, obs) == [st |-> st, obs |-> obs]
Said(st, text) == [st |-> [st EXCEPT !.tmp = ""], obs |-> <<text>>]
RECURSIVE Rep(_, _)
Rep(c, n) == IF n = 0 THEN "" ELSE c \o Rep(c, n - 1)
Min(a, b) == IF a < b THEN a ELSE b
Fmt(s, n) == "<" \o s \o "|" \o ToString(n) \o ">"
Put(st, text) == IF ~st.good THEN st ELSE [st EXCEPT !.f[st.open] = <<@[1], @[2] \o text>>]
Pre == "[pre]"
PreE == "\t!! [pre]"
-----------------------------------------------------------------------------
(* Errors: class, enumerator -> code *)
Base(c) == CASE c = "Abstract" -> 0 [] c = "Signal" -> 100 [] c = "Task" -> 200 [] c = "Feature" -> 300 [] c = "Factory" -> 400 [] c = "Dynamic" -> 500 [] c = "Tools" -> 700
Codes(c) == CASE c = "Signal" -> <<"GENERIC", "READWRITE_LOCK", "COPY_NOT_INITIALIZED", "NOT_INITIALIZED", "PLUG_IMPOSSIBLE", "SET_IMPOSSIBLE", "BAD_CAST">>
   [] c = "Task" -> <<"GENERIC", "EMPTY_LIST", "NON_ADEQUATE_FEATURES", "MATRIX_SIZE", "BOUND_TYPE", "PARSER_MULTI_BOUND">>
   [] c = "Feature" -> <<"GENERIC", "BAD_INIT", "UNCOMPATIBLE_SIZE">>
   [] c = "Factory" -> <<"GENERIC", "UNREFERED_OBJECT", "UNREFERED_SIGNAL", "UNREFERED_FUNCTION", "DYNAMIC_LOADING", "SIGNAL_CONFLICT", "FUNCTION_CONFLICT", "OBJECT_CONFLICT", "SYNTAX_ERROR", "READ_FILE">>
   [] c = "Dynamic" -> <<"GENERIC", "CANT_DESTROY_SIGNAL", "JOINT_RANK", "DYNAMIC_JRL", "JOINT_SIZE", "INTEGRATION">>
   [] c = "Tools" -> <<"GENERIC", "CORBA", "KALMAN_SIZE", "PARAMETER_SERVER">>
   [] c = "Abstract" -> <<"GENERIC">>
Classes == {"Abstract", "Signal", "Task", "Feature", "Factory", "Dynamic", "Tools"}
RECURSIVE Pos(_, _)
Pos(s, x) == IF Head(s) = x THEN 0 ELSE 1 + Pos(Tail(s), x)
Code(c, e) == Base(c) + Pos(Codes(c), e)
Shown(c, e, m) == <<Code(c, e), m, m, m, c, c \o "Error [#" \o ToString(Code(c, e)) \o "]:  " \o m \o "\n", c \o "Error [#" \o ToString(Code(c, e)) \o "]:  " \o m \o "\n">>
Fmts == <<"%d", "%s", "(%s,%d)", "100%%", "%s%s">>
FmtText(k, s, n) == CASE k = 1 -> ToString(n) [] k = 2 -> s [] k = 3 -> "(" \o s \o "," \o ToString(n) \o ")" [] k = 4 -> "100%" [] k = 5 -> s \o s
-----------------------------------------------------------------------------
Apply(st, o) ==
  CASE o[1] = "level" -> Ok([st EXCEPT !.lv = o[2]])
    [] o[1] = "tlevel" -> Ok([st EXCEPT !.tlv = o[2]])
    [] o[1] = "pre" -> Ok([st EXCEPT !.lv = o[2]])
    [] o[1] = "pre0" -> Ok(st)
    [] o[1] = "tmp" -> Ok([st EXCEPT !.tmp = @ \o o[2]])
    [] o[1] = "trace" -> Said(st, IF o[2] <= st.lv THEN st.tmp \o Fmt(o[3], o[4]) \o "\n" ELSE "")
    [] o[1] = "trace0" -> Said(st, st.tmp \o Fmt(o[2], o[3]) \o "\n")
    [] o[1] = "flush" -> Said(st, IF o[2] <= st.lv THEN st.tmp ELSE "")
    [] o[1] = "flush0" -> Said(st, IF -1 <= st.lv THEN st.tmp ELSE "")
    [] o[1] = "ttrace" -> Said(st, IF o[2] <= st.tlv THEN st.tmp \o Fmt(o[3], o[4]) \o "\n" ELSE "")
    [] o[1] = "ttrace0" -> Said(st, st.tmp \o Fmt(o[2], o[3]) \o "\n")
    [] o[1] = "long" -> [st |-> [st EXCEPT !.tmp = ""], obs |-> <<Min(o[2], 511)>>]
    \* the common flow.  File 3 is in a directory that does not exist
    [] o[1] = "open" -> IF o[2] = 3 THEN Ok([st EXCEPT !.open = 0, !.good = FALSE]) ELSE Ok([st EXCEPT !.open = o[2], !.good = TRUE, !.f[o[2]] = <<"text", "">>])
    [] o[1] = "fail" -> Ok([st EXCEPT !.open = 0, !.good = FALSE])      \* a write error on the current file
    [] o[1] = "close" -> Ok([st EXCEPT !.open = 0, !.good = FALSE])
    [] o[1] = "good" -> Look(st, <<st.good>>)
    [] o[1] = "read" -> Look(st, st.f[o[2]])
    [] o[1] = "raw" -> Ok(Put(st, o[2]))
    [] o[1] = "debug" -> Ok(IF o[2] > MacroLevel THEN st ELSE Put(st, Pre \o o[3] \o "\n"))
    [] o[1] = "mute" -> Ok(IF o[2] > MacroLevel THEN st ELSE Put(st, o[3] \o "\n"))
    [] o[1] = "tdebug" -> Ok(IF o[2] > TemplateLevel THEN st ELSE Put(st, Pre \o o[3] \o "\n"))
    [] o[1] = "error" -> Ok(Put(st, PreE \o o[2] \o "\n"))
    [] o[1] = "in" -> Ok(IF o[2] > MacroLevel THEN st ELSE Put(st, Pre \o "# In {\n" \o Pre \o "# Out }\n" \o Pre \o "# In/Out { }\n"))
    [] o[1] = "tin" -> Ok(IF o[2] > TemplateLevel THEN st ELSE Put(st, Pre \o "# In {\n" \o Pre \o "# Out }\n" \o Pre \o "# In/Out { }\n"))
    [] o[1] = "debugf" -> Ok(IF o[2] > MacroLevel THEN st ELSE Put(st, Pre \o Fmt(o[3], o[2]) \o "\n"))
    [] o[1] = "tdebugf" -> Ok(IF o[2] > TemplateLevel THEN st ELSE Put(st, Pre \o Fmt(o[3], o[2]) \o "\n"))
    [] o[1] = "errorf" -> Ok(Put(st, PreE \o Fmt(o[2], 0) \o "\n"))
    [] o[1] = "enable" -> Look(st, <<o[2] <= MacroLevel, o[2] <= TemplateLevel>>)
    [] o[1] = "exc" -> Look(st, Shown(o[2], o[3], o[4]))
    [] o[1] = "excf" -> Look(st, Shown(o[2], o[3], o[4] \o FmtText(o[5], o[6], o[7])))
    [] o[1] = "exclong" -> Look(st, <<Code(o[2], o[3]), o[4] + Min(o[5], 255)>>)
    [] o[1] = "named" -> Look(st, <<o[2], o[3]>>)
Ops(st) == << {<<"level", l>> : l \in Levels}, {<<"tlevel", l>> : l \in Levels}, {<<"pre", 1>>, <<"pre0">>, <<"flush0">>, <<"trace0", "x", 1>>, <<"ttrace0", "x", 1>>}, IF st.tmp = "" THEN {<<"tmp", "t">>} ELSE {},
    {<<"trace", l, "y", 2>> : l \in Levels}, {<<"ttrace", l, "y", 2>> : l \in Levels}, {<<"flush", l>> : l \in Levels}, {<<"long", 600>>},
    {<<"open", k>> : k \in Files}, {<<"close">>, <<"good">>, <<"fail">>}, {<<"read", k>> : k \in Files \ {3}},
    IF st.good /\ Len(st.f[st.open][2]) > 0 THEN {} ELSE {<<"raw", "r">>, <<"error", "e">>, <<"errorf", "e">>} \cup UNION {{<<m, l, "m">> : m \in {"debug", "mute", "tdebug", "debugf", "tdebugf"}} : l \in {8, 9, 15, 16}} >>
Bound(st) == TRUE
Inv(st) == /\ st.good => st.open \in {1, 2} /\ st.f[st.open][1] = "text"
           /\ ~st.good => st.open = 0
StepOK(st, o, r) ==
   /\ o[1] \in {"trace", "trace0", "flush", "flush0", "ttrace", "ttrace0", "long"} => r.st.tmp = ""       \* a prefix is used at most once
   /\ ~st.good /\ o[1] # "open" => r.st.f = st.f                                                          \* nothing is written when closed
   /\ o[1] # "open" => \A k \in 1..2 : k # st.open => r.st.f[k] = st.f[k]
   /\ o[1] = "open" => \A k \in 1..2 : k # o[2] => r.st.f[k] = st.f[k]
   /\ o[1] \in {"exc", "excf"} => r.obs[1] >= Base(o[2]) /\ r.obs[1] < Base(o[2]) + 100
=============================================================================
