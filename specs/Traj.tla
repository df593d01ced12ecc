-------------------------------- MODULE Traj --------------------------------
(* Trajectories read from a text, and their player.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Profile
(* a trajectory: <<seq, sec, nsec, frame, names, points>>, a point: <<positions, velocities, accelerations, efforts>> *)
Seq_(t) == t[1]
Stamp(t) == <<t[2], t[3]>>
Points(t) == t[6]
Fresh == <<0, 0, 0, "initial_trajectory", <<>>, <<>> >>
InitSt == [t |-> Fresh, in |-> <<>>, q |-> <<>>, i |-> 0, p |-> <<>>, seq |-> 0]
Ok(st) == [st |-> st, obs |-> <<"ok">>]
No(st, obs) == [st |-> st, obs |-> obs]
(* --- the player: one point per period; trajectories wait in a queue; a
   trajectory is known by its date (none: date zero); the last point is held   *)
Front(st) == st.q[1]
Take(st, t) ==                       \* a step of the player that is offered trajectory t
  LET s1 == IF st.q = <<>> THEN [st EXCEPT !.q = <<t>>, !.i = 0]
            ELSE [st EXCEPT !.i = @ + 1, !.q = IF Stamp(t) = <<0, 0>> \/ Stamp(t) = Stamp(@[Len(@)]) THEN @ ELSE Append(@, t)]
      over == s1.i >= Len(Points(Front(s1)))
      s2 == IF over /\ Len(s1.q) > 1 THEN [s1 EXCEPT !.q = Tail(@), !.i = 0] ELSE s1
      s3 == IF over /\ Points(Front(s2)) = <<>> THEN [s2 EXCEPT !.i = 0]
            ELSE IF over /\ s2.i # 0 THEN [s2 EXCEPT !.i = Len(Points(Front(s2))) - 1] ELSE s2
      pt == Points(Front(s3))
  IN IF pt = <<>> THEN s3
     ELSE [s3 EXCEPT !.seq = Seq_(Front(s3)), !.p = IF Len(pt[s3.i + 1][1]) < 5 THEN @ ELSE pt[s3.i + 1][1]]
(* values are in quarters; the heading of the waist (third value after the joints) is a number of eighths of pi *)
NJ(st) == Len(st.p) - 5
Part(st, k) ==
  IF st.p = <<>> THEN (CASE k = "seqid" -> st.seq [] k = "waist" -> << 0, 0, 0, 0>> [] OTHER -> <<>>)
  ELSE CASE k = "position" -> SubSeq(st.p, 1, NJ(st))
         [] k = "com" -> SubSeq(st.p, NJ(st) + 1, NJ(st) + 3)
         [] k = "zmp" -> << 250 * st.p[NJ(st) + 4], 250 * st.p[NJ(st) + 5], -55 >>          \* in millimetres
         [] k = "waist" -> << 250 * st.p[NJ(st) + 1], 250 * st.p[NJ(st) + 2], 650, 250 * st.p[NJ(st) + 3] >>
         [] k = "seqid" -> st.seq
Outs == << "position", "com", "zmp", "waist", "seqid" >>
Apply(st, o) ==
  CASE o[1] = "parse" -> Ok([st EXCEPT !.t = o[2]])                                          \* o[3]: the way numbers are written
    [] o[1] = "cutnames" -> Ok([st EXCEPT !.t = [[o[2] EXCEPT ![5] = SubSeq(@, 1, o[3])] EXCEPT ![6] = <<>>]])     \* the text stops after some names
    [] o[1] = "cutpoints" -> Ok([st EXCEPT !.t = [o[2] EXCEPT ![6] = SubSeq(@, 1, o[3])]])   \* the text stops within point o[3] + 1, after o[4] of its parts
    [] o[1] = "read" -> No(st, <<"ok", st.t>>)
    [] o[1] = "show" -> No(st, <<"ok", st.t[5], Len(Points(st.t)), Points(st.t)>>)
    [] o[1] = "copy" -> No(st, <<"ok", st.t>>)                                               \* o[2]: by construction or assignment
    [] o[1] = "in" -> Ok([st EXCEPT !.in = <<o[2]>>])
    [] o[1] = "init" -> Ok(Take(st, o[2]))
    [] o[1] = "eval" -> IF st.in = <<>> THEN No(st, <<"exc", "dg">>)
                        ELSE LET s == Take(st, st.in[1]) IN [st |-> s, obs |-> <<"ok", [n \in DOMAIN o[2] |-> Part(s, o[2][n])]>>]
P(x) == Profile = x
Pt(a, j) == << [n \in 1..(j + 5) |-> a + n], <<>>, <<a>>, <<-a, 0>> >>
Tr1 == <<7, 3, 5, "f_1", <<"a", "b2">>, << Pt(1, 1), Pt(10, 1) >> >>
Tr2 == <<8, 3, 6, "", <<"c">>, << Pt(20, 0) >> >>
Tr3 == <<9, 4, 5, "g", <<"a">>, <<>> >>
Tr4 == <<2, 0, 0, "h", <<"a">>, << Pt(40, 2), << <<1>>, <<>>, <<>>, <<>> >> >> >>
Tr5 == <<4294967, 12, 0, "Z", <<"x_1", "LLEG", "3">>, << << <<>>, <<1, -2>>, <<>>, <<3>> >>, Pt(-30, 3), Pt(4, 0) >> >>
All == {Tr1, Tr2, Tr3, Tr4, Tr5}
Ops(st) ==
  CASE P("text") -> << {<<"parse", t, f>> : t \in All, f \in 0..2}, {<<"cutnames", t, n>> : t \in {Tr1, Tr5}, n \in 0..1}, {<<"cutpoints", t, n, m>> : t \in {Tr1}, n \in 0..1, m \in 0..4}, {<<"read">>, <<"show">>, <<"copy", "construct">>, <<"copy", "assign">>} >>
    [] OTHER -> << IF Len(st.q) < 3 THEN {<<"in", t>> : t \in {Tr1, Tr2, Tr3, Tr4}} ELSE {}, IF Len(st.q) < 3 THEN {<<"init", t>> : t \in {Tr1, Tr2, Tr4}} ELSE {},
                   {<<"eval", Outs>>, <<"eval", <<"seqid", "waist">> >>, <<"eval", <<"position">> >>} >>
Bound(st) == Len(st.q) <= 4
Inv(st) == /\ (st.q # <<>> => (st.i < Len(Points(Front(st))) \/ (Points(Front(st)) = <<>> /\ st.i = 0)))     \* never out of the trajectory that is played
           /\ \A k \in 1..(Len(st.q) - 1) : Stamp(st.q[k]) # Stamp(st.q[k + 1])
(* a step plays the next point, holds the last, or begins the next trajectory *)
StepOK(st, o, r) ==
  (o[1] \in {"eval", "init"} /\ st.q # <<>> /\ r.st # st) =>
     \/ Front(r.st) = Front(st) /\ r.st.i \in {st.i, st.i + 1} /\ (r.st.i = st.i => st.i + 1 >= Len(Points(Front(st))))
     \/ r.st.i = 0
=============================================================================
