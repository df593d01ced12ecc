-------------------------------- MODULE Reader --------------------------------
(* Replays the rows of the files that were loaded, one row per period, keeping *)
(* the selected columns; the last row is held.  Values in quarters.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
InitSt == [rows |-> <<>>, pos |-> 0, new |-> TRUE, val |-> <<>>, newm |-> TRUE, mat |-> <<>>, sel |-> <<>>, def |-> TRUE, dim |-> <<0, 0>>]
(* a line of a file: a kind of line and its numbers *)
RECURSIVE Lines(_)
Lines(f) == IF f = <<>> THEN <<>> ELSE (IF Head(f)[1] \in {"blank", "word"} \/ Head(f)[2] = <<>> THEN <<>> ELSE <<Head(f)[2]>>) \o Lines(Tail(f))
Selected(st, i) == IF i <= Len(st.sel) THEN st.sel[i] ELSE st.def
RECURSIVE Pick(_, _, _)
Pick(st, r, i) == IF i > Len(r) THEN <<>> ELSE (IF Selected(st, i) THEN <<r[i]>> ELSE <<>>) \o Pick(st, r, i + 1)
Step(st) == IF ~st.new THEN st ELSE
  IF st.rows = <<>> THEN [st EXCEPT !.new = FALSE, !.val = <<>>]
  ELSE LET p == IF st.pos < Len(st.rows) THEN st.pos + 1 ELSE st.pos IN [st EXCEPT !.new = FALSE, !.pos = p, !.val = Pick(st, st.rows[p], 1)]
Shape(d, v) == [i \in 1..d[1] |-> [j \in 1..d[2] |-> v[(i - 1) * d[2] + j]]]
StepM(st) == IF ~st.newm THEN st ELSE LET s == Step(st) IN [s EXCEPT !.newm = FALSE, !.mat = Shape(s.dim, s.val)]
FineM(st) == st.newm => LET s == Step(st) IN Len(s.val) >= s.dim[1] * s.dim[2]
Ok(st) == [st |-> st, obs |-> <<"ok">>]
Apply(st, o) ==
  CASE o[1] = "load" -> Ok([st EXCEPT !.rows = st.rows \o Lines(o[2])])
    [] o[1] = "missing" -> Ok(st)                                                                        \* a file that does not exist brings nothing
    [] o[1] = "clear" -> Ok([st EXCEPT !.rows = <<>>, !.pos = 0])
    [] o[1] = "rewind" -> Ok([st EXCEPT !.pos = 0])
    [] o[1] = "selec" -> Ok([st EXCEPT !.sel = o[2], !.def = o[3]])
    [] o[1] = "resize" -> Ok([st EXCEPT !.dim = <<o[2], o[3]>>])
    [] o[1] = "next" -> Ok([st EXCEPT !.new = TRUE, !.newm = TRUE])
    [] o[1] = "vector" -> LET s == Step(st) IN [st |-> s, obs |-> <<"ok", s.val>>]
    [] o[1] = "matrix" -> LET s == StepM(st) IN [st |-> s, obs |-> <<"ok", s.mat>>]
F1 == << <<"row", <<1, 2, 3, 4>> >>, <<"blank", <<>> >>, <<"row", <<5, -6, 7, 8>> >> >>
F2 == << <<"word", <<>> >>, <<"tail", <<9, 10, 11, 12>> >>, <<"long", <<13, 14, 15, 16>> >>, <<"row", <<-1, -2, -3, -4>> >>, <<"last", <<0, 1, 0, 2>> >> >>
Ops(st) == << IF Len(st.rows) = 0 THEN {<<"load", F1>>, <<"load", F2>>} ELSE IF Len(st.rows) = 4 THEN {<<"load", SubSeq(F1, 1, 1)>>} ELSE {}, {<<"missing">>, <<"clear">>, <<"rewind">>, <<"next">>, <<"vector">>},
  IF st.sel = <<>> THEN {<<"selec", <<TRUE, FALSE>>, TRUE>>} ELSE {}, IF st.dim = <<0, 0>> THEN {<<"resize", 2, 1>>} ELSE {}, IF FineM(st) THEN {<<"matrix">>} ELSE {} >>
Bound(st) == TRUE
Inv(st) == st.pos <= Len(st.rows) /\ (~st.newm => ~st.new)
StepOK(st, o, r) ==
  /\ (o[1] = "load" => r.st.pos = st.pos /\ Len(r.st.rows) >= Len(st.rows) /\ SubSeq(r.st.rows, 1, Len(st.rows)) = st.rows)
  /\ (o[1] \in {"vector", "matrix"} => r.st.rows = st.rows /\ r.st.pos - st.pos \in {0, 1} /\ (st.pos < Len(st.rows) /\ st.new => r.st.pos = st.pos + 1))
=============================================================================
