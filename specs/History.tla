------------------------------ MODULE History ------------------------------
(* Recording of the motion of the robot at one time out of freq, and its
   restitution.  Angles are in degrees; the waist is a rotation of k quarter
   turns about the vertical axis and a translation.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Freqs, MaxT
N == 36
InitSt == [freq |-> 0, zmp |-> FALSE, time |-> 0, cur |-> <<>>, rec |-> <<>>]
Turn(k, v) == CASE k = 0 -> v [] k = 1 -> <<-v[2], v[1], v[3]>> [] k = 2 -> <<-v[1], -v[2], v[3]>> [] k = 3 -> <<v[2], -v[1], v[3]>>
InWaist(w, z) == Turn((4 - w[1]) % 4, <<z[1] - w[2][1], z[2] - w[2][2], z[3] - w[2][3]>>)
Apply(st, o) ==
  CASE o[1] = "new" -> [st |-> [InitSt EXCEPT !.freq = IF o[2] = 0 THEN 100 ELSE o[2], !.zmp = o[3] /\ o[4]], obs |-> <<"ok">>]
    [] o[1] = "at" -> [st |-> [st EXCEPT !.time = o[2], !.cur = <<o[3], o[4], IF st.zmp THEN InWaist(o[6], o[5]) ELSE <<>> >>], obs |-> <<"ok">>]
    [] o[1] = "record" -> LET s2 == IF st.time % st.freq = 0 THEN [st EXCEPT !.rec = Append(@, st.cur)] ELSE st IN [st |-> s2, obs |-> <<Len(s2.rec)>>]
    \* the sample recorded during the period of o[2], when the recording started at time 0
    [] o[1] = "restore" -> LET k == o[2] \div st.freq IN
         [st |-> st, obs |-> IF k >= Len(st.rec) THEN <<"exc", "IndexError">> ELSE <<st.rec[k + 1][1], st.rec[k + 1][2], k * st.freq>>]
    [] o[1] = "dump" -> LET R == st.rec  q(k) == R[k][1]  t(k) == 5 * (k - 1) IN
         [st |-> st, obs |-> << [k \in DOMAIN R |-> <<t(k), SubSeq(q(k), 7, N), [j \in 1..10 |-> 0]>>], [k \in DOMAIN R |-> <<t(k), q(k)[4], q(k)[5], q(k)[6]>>], [k \in DOMAIN R |-> <<t(k)>> \o SubSeq(q(k), 1, 6)],
            IF st.zmp THEN <<[k \in DOMAIN R |-> <<t(k)>> \o R[k][3]]>> ELSE <<>>, SubSeq(q(1), 7, N) \o [j \in 1..10 |-> 0]>>]
Q(t) == [j \in 1..N |-> ((j * t + j) % 7) - 3]
V(t) == [j \in 1..3 |-> t - j]
Ops(st) == << IF st.freq = 0 THEN {<<"new", f, z, w, a>> : f \in Freqs, z \in BOOLEAN, w \in BOOLEAN, a \in BOOLEAN} ELSE {},
    IF st.freq > 0 /\ st.time < MaxT THEN {<<"at", st.time + 1, Q(st.time + 1), V(st.time), <<1, 2, 3>>, <<st.time % 4, <<5, -1, 0>> >> >>} ELSE {},
    IF st.cur # <<>> /\ Len(st.rec) < 2 THEN {<<"record">>} ELSE {}, IF st.freq > 0 THEN {<<"restore", t>> : t \in {0, MaxT}} ELSE {}, IF st.rec # <<>> THEN {<<"dump">>} ELSE {} >>
Bound(st) == TRUE
Inv(st) == TRUE
StepOK(st, o, r) == (o[1] \in {"restore", "dump", "at"} => r.st.rec = st.rec) /\ (o[1] = "record" => (r.st.rec # st.rec) = (st.time % st.freq = 0))
=============================================================================
