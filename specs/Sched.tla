-------------------------------- MODULE Sched -------------------------------
(* Things done at given periods: signals recomputed every n periods (periodic
   calls) and events run n periods after the start (sequencer).               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Profile
NN == 5                       \* names, in alphabetical order; 3 and 4 are the paths of the signals 1 and 2
InitSt == [m |-> [k \in 1..NN |-> <<0, 0>>], bad |-> {}, q |-> <<>>, t0 |-> -1, play |-> FALSE, sot |-> 0]
RECURSIVE Calls(_, _, _)
\* signals recomputed at time t, in order, until one fails
Calls(st, k, t) ==
  IF k > NN THEN <<>>
  ELSE IF st.m[k][1] = 0 \/ t % st.m[k][2] # 0 THEN Calls(st, k + 1, t)
  ELSE IF st.m[k][1] \in st.bad THEN << st.m[k][1] >>
  ELSE << st.m[k][1] >> \o Calls(st, k + 1, t)
Fails(st, c) == c # <<>> /\ c[Len(c)] \in st.bad
Run(st, t, once) == LET c == Calls(st, 1, t) IN
  [st |-> IF once /\ ~Fails(st, c) THEN [st EXCEPT !.m = InitSt.m] ELSE st, obs |-> <<IF Fails(st, c) THEN "exc" ELSE "ok", c, t>>]
Put(st) == [st |-> st, obs |-> <<"ok">>]
No(st, obs) == [st |-> st, obs |-> obs]
Add(st, k, s, f) == Put([st EXCEPT !.m[k] = <<s, f>>])
\* sequencer: events <<time, type, name, fails>> in order of insertion
At(st, k) == SelectSeq(st.q, LAMBDA e : e[1] = k)
RECURSIVE Until(_)
Until(s) == IF s = <<>> THEN <<>> ELSE IF s[1][4] THEN << s[1][3] >> ELSE << s[1][3] >> \o Until(Tail(s))
Trig(st, t) ==
  IF ~st.play THEN No(st, <<"ok", <<>>, 0>>)
  ELSE LET t0 == IF st.t0 = -1 THEN t ELSE st.t0
           es == At(st, t - t0)
       IN [st |-> [st EXCEPT !.t0 = t0], obs |-> <<IF \E i \in DOMAIN es : es[i][4] THEN "exc" ELSE "ok", Until(es), IF es = <<>> THEN 0 ELSE st.sot>>]
Rm(st, k, ty, n) ==
  LET is == {i \in DOMAIN st.q : st.q[i][1] = k /\ st.q[i][2] = ty /\ st.q[i][3] = n}
      i == CHOOSE x \in is : \A y \in is : x <= y
  IN IF is = {} THEN Put(st) ELSE Put([st EXCEPT !.q = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))])
Times(st) == {st.q[i][1] : i \in DOMAIN st.q}
RECURSIVE Shown(_, _)
Shown(st, s) == IF s = {} THEN <<>> ELSE LET k == CHOOSE x \in s : \A y \in s : x <= y IN << <<k, [i \in DOMAIN At(st, k) |-> At(st, k)[i][3]]>> >> \o Shown(st, s \ {k})
Apply(st, o) ==
  CASE o[1] = "add" -> Add(st, o[2], o[3], 1)                      \* name, signal
    [] o[1] = "path" -> Add(st, o[2] + 2, o[2], 1)
    [] o[1] = "down" -> IF o[4] = 0 THEN No(st, <<"exc", "sot", 700>>) ELSE Add(st, o[2], o[3], o[4])
    [] o[1] = "downpath" -> IF o[3] = 0 THEN No(st, <<"exc", "sot", 700>>) ELSE Add(st, o[2] + 2, o[2], o[3])
    [] o[1] = "wrong" -> No(st, <<"exc", "dg">>)                   \* path of a missing entity or signal
    [] o[1] = "rm" -> Put([st EXCEPT !.m[o[2]] = <<0, 0>>])
    [] o[1] = "clear" -> Put([st EXCEPT !.m = InitSt.m])
    [] o[1] = "bad" -> Put([st EXCEPT !.bad = IF o[3] THEN @ \cup {o[2]} ELSE @ \ {o[2]}])
    [] o[1] = "run" -> Run(st, o[2], FALSE)
    [] o[1] = "trigger" -> Run(st, o[2], FALSE)
    [] o[1] = "once" -> Run(st, o[2], TRUE)
    [] o[1] = "names" -> No(st, <<"ok", SelectSeq(<<1, 2, 3, 4, 5>>, LAMBDA k : st.m[k][1] # 0)>>)
    [] o[1] = "ev" -> Put([st EXCEPT !.q = Append(@, <<o[2], o[3], o[4], o[5]>>)])
    [] o[1] = "rmev" -> Rm(st, o[2], o[3], o[4])
    [] o[1] = "forget" -> [st |-> [st EXCEPT !.q = <<>>], obs |-> <<"ok", Len(st.q)>>]
    [] o[1] = "play" -> Put([st EXCEPT !.play = o[2]])
    [] o[1] = "sot" -> Put([st EXCEPT !.sot = o[2]])
    [] o[1] = "go" -> Trig(st, o[2])
    [] o[1] = "step" -> Trig(st, o[2])
    [] o[1] = "show" -> No(st, <<"ok", st.t0, st.play, Shown(st, Times(st))>>)
Ops(st) == IF Profile = "calls"
  THEN << {<<"add", k, s>> : k \in {1, 5}, s \in {1, 2}}, {<<"path", 1>>, <<"downpath", 2, 3>>, <<"downpath", 1, 0>>}, {<<"down", 1, 3, f>> : f \in {0, 2, 3}}, {<<"rm", k>> : k \in {1, 3}}, {<<"bad", s, b>> : s \in {1, 3}, b \in BOOLEAN},
          {<<x, t>> : x \in {"run", "once"}, t \in {2, 3, 6}} \cup {<<"trigger", 4>>}, {<<"names">>, <<"clear">>, <<"wrong", "a">>} >>
  ELSE << {<<"ev", k, "add", n, FALSE>> : k \in {0, 2}, n \in {1, 2}}, {<<"ev", 2, "rm", 1, FALSE>>, <<"ev", 2, "add", 1, TRUE>>}, {<<"rmev", 2, "add", 1>>, <<"rmev", 2, "rm", 1>>, <<"rmev", 0, "add", 2>>}, {<<"forget">>, <<"show">>}, {<<"play", b>> : b \in BOOLEAN}, {<<"go", t>> : t \in 3..5}, {<<"sot", 1>>} >>
Bound(st) == Len(st.q) <= (IF Profile = "seq" THEN 2 ELSE 3)
Inv(st) == \A k \in 1..NN : st.m[k][1] # 0 => st.m[k][2] >= 1
StepOK(st, o, r) == (o[1] \in {"run", "trigger", "once"} /\ r.obs[1] = "ok") => \A k \in 1..NN : (st.m[k][1] # 0 /\ st.m[k][2] = 1) => \E i \in DOMAIN r.obs[2] : r.obs[2][i] = st.m[k][1]
=============================================================================
