-------------------------------- MODULE Tail --------------------------------
(* Reading a file that another program is writing (like tail -f): what was
   there before the first reading is skipped, then every complete line is
   delivered once, in order.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Chars, MaxLen
NL == "\n"
InitSt == [f |-> [k \in 1..2 |-> <<"none">>], file |-> 1, cursor |-> 0, first |-> TRUE, queue |-> <<>>]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
RECURSIVE Lines(_, _)            \* complete lines of s, with the line being read
Lines(s, acc) == IF s = <<>> THEN <<>> ELSE IF Head(s) = NL THEN <<acc>> \o Lines(Tail(s), <<>>) ELSE Lines(Tail(s), Append(acc, Head(s)))
Text(f) == IF f = <<"none">> THEN <<>> ELSE f[2]
RECURSIVE Last(_, _)             \* position after the last end of line
Last(s, k) == IF k = 0 THEN 0 ELSE IF s[k] = NL THEN k ELSE Last(s, k - 1)
Ok(st) == [st |-> st, obs |-> <<"ok">>]
Apply(st, o) ==
  CASE o[1] = "append" -> Ok([st EXCEPT !.f[o[2]] = <<"text", Text(@) \o o[3]>>])
    [] o[1] = "write" -> Ok([st EXCEPT !.f[o[2]] = <<"text", o[3]>>])
    [] o[1] = "delete" -> Ok([st EXCEPT !.f[o[2]] = <<"none">>])
    [] o[1] = "open" -> Ok([st EXCEPT !.file = o[2], !.cursor = 0])
    [] o[1] = "loop" -> LET t == Text(st.f[st.file])  n == Len(t)
                            rest == IF st.cursor >= n THEN <<>> ELSE SubSeq(t, st.cursor + 1, n)
                            ls == Lines(rest, <<>>)  cut == Last(rest, Len(rest)) IN
        [st |-> [st EXCEPT !.first = FALSE, !.cursor = @ + cut, !.queue = IF st.first THEN @ ELSE @ \o [k \in DOMAIN ls |-> Cat(ls[k])]], obs |-> <<cut > 0>>]
    [] o[1] = "ready" -> [st |-> st, obs |-> <<st.queue # <<>> >>]
    [] o[1] = "next" -> [st |-> [st EXCEPT !.queue = SubSeq(@, 2, Len(@))], obs |-> <<st.queue[1]>>]
Ops(st) == << IF Len(Text(st.f[st.file])) < MaxLen THEN {<<"append", st.file, <<c>> >> : c \in Chars \cup {NL}} ELSE {}, {<<"write", st.file, <<>> >>, <<"delete", st.file>>},
   {<<"open", 1>>, <<"open", 2>>}, {<<"loop">>}, {<<"ready">>}, IF st.queue # <<>> THEN {<<"next">>} ELSE {} >>
Bound(st) == Len(st.queue) <= 2 /\ Len(Text(st.f[3 - st.file])) <= 1
Inv(st) == st.cursor >= 0
StepOK(st, o, r) ==
   /\ o[1] = "loop" => SubSeq(r.st.queue, 1, Len(st.queue)) = st.queue        \* nothing that was read is lost or reordered
   /\ o[1] = "loop" /\ st.first => r.st.queue = st.queue
   /\ o[1] = "loop" => r.st.f = st.f /\ r.st.cursor >= st.cursor
   /\ o[1] = "next" => st.queue = <<r.obs[1]>> \o r.st.queue
=============================================================================
