------------------------------ MODULE FiltDiff ------------------------------
(* The entity around the causal filter: one step of the filter per period,
   whatever the outputs asked for.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Profile
C == INSTANCE Causal
InitSt == [c |-> C!InitSt, on |-> FALSE, x |-> <<>>, out |-> <<>>]
No(st, obs) == [st |-> st, obs |-> obs]
Dg(st) == No(st, <<"exc", "dg">>)
Ok(st) == No(st, <<"ok">>)
Show(out, w) == <<"ok", [i \in DOMAIN w |-> CASE w[i] = "x_filtered" -> out[1] [] w[i] = "dx" -> out[2] [] w[i] = "ddx" -> out[3]]>>
Apply(st, o) ==
  CASE o[1] = "init" -> Ok([st EXCEPT !.on = TRUE, !.out = <<>>, !.x = <<>>, !.c = C!Apply(st.c, o).st])
    [] o[1] = "switch" -> IF ~st.on THEN Dg(st) ELSE Ok([st EXCEPT !.c = C!Apply(st.c, o).st])
    [] o[1] = "unit" -> Ok(st)
    [] o[1] = "x" -> Ok([st EXCEPT !.x = o[2]])
    [] o[1] = "eval" -> IF ~st.on \/ st.x = <<>> THEN Dg(st)
                        ELSE LET r == C!Step(st.c, st.x) IN [st |-> [st EXCEPT !.c = r.st, !.out = r.obs], obs |-> Show(r.obs, o[2])]
    [] o[1] = "again" -> IF st.out = <<>> THEN No(st, <<"none">>) ELSE No(st, Show(st.out, o[2]))      \* in the same period
    [] o[1] = "get" -> No(st, <<"ok", st.c.n, IF st.on THEN st.c.rate ELSE 0>>)
W == << <<"x_filtered", "dx", "ddx">>, <<"ddx">>, <<"dx", "x_filtered">> >>
Ops(st) == << IF ~st.on THEN {<<"init", 1, 2, f[1], f[2]>> : f \in C!Filters} ELSE {}, IF st.c.ys # <<>> /\ st.c.ys[1] = <<0>> THEN {<<"init", 2, 4, <<1, 1>>, <<1>> >>} ELSE {},
   IF st.on /\ st.c.n = 2 THEN {<<"x", <<1, -2>> >>} ELSE {<<"x", <<v>> >> : v \in {-1, 2}}, {<<"eval", W[i]>> : i \in 1..3}, {<<"again", W[i]>> : i \in 1..2}, {<<"get">>},
   IF ~st.on THEN {<<"switch", <<1>>, <<1>> >>} ELSE IF st.c.fresh THEN {} ELSE {<<"switch", f[1], f[2]>> : f \in {<< <<2, -1, 1>>, <<1>> >>, << <<1, 1>>, <<1, 1>> >>}} >>
Bound(st) == C!Small(st.c.ys)
Inv(st) == st.on => C!Inv(st.c)
StepOK(st, o, r) == (o[1] = "again" \/ r.obs[1] = "exc") => r.st = st
=============================================================================
