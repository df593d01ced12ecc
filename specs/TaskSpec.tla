------------------------------ MODULE TaskSpec ------------------------------
(* Tasks assembled from features: 1 a proportional task, 2 a proportional
   derivative one, 3 a unilateral one, 4 a continuous one.  Gains are in
   halves; the requested velocities are in quarters.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Profile
Unset == [on |-> FALSE, v |-> 0]
On(v) == [on |-> TRUE, v |-> v]
Fe0 == [e |-> <<0>>, d |-> <<0>>, n |-> 1, j |-> << <<0>> >>, bad |-> FALSE]
T0 == [fs |-> <<>>, g |-> Unset, wd |-> FALSE, beta |-> 2, prev |-> Unset, memo |-> <<>>, fresh |-> TRUE, din |-> Unset,
       pos |-> Unset, inf |-> Unset, sup |-> Unset, dt |-> Unset, ref |-> -1]
InitSt == [f |-> [i \in 1..3 |-> Fe0], t |-> [k \in 1..4 |-> T0]]
Empty == <<"exc", "Task", 201>>
Broken == <<"exc", "Feature", 302>>
Bad == <<"exc", "Task", 202>>
Signal == <<"exc", "dg", 0>>
FName(i) == "f" \o ToString(i)
TName(k) == "t" \o ToString(k)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
RECURSIVE Txt(_)
Txt(s) == IF s = <<>> THEN "" ELSE Head(s) \o Txt(Tail(s))
Error(st, k) == LET fs == st.t[k].fs IN
  IF fs = <<>> THEN Empty ELSE IF \E n \in DOMAIN fs : st.f[fs[n]].bad THEN Broken
  ELSE <<"ok", Cat([n \in DOMAIN fs |-> st.f[fs[n]].e])>>
ErrDot(st, k) == IF Error(st, k)[1] # "ok" THEN Error(st, k) ELSE <<"ok", Cat([n \in DOMAIN st.t[k].fs |-> st.f[st.t[k].fs[n]].d])>>
RECURSIVE Stack(_, _, _, _)
Stack(st, fs, n, acc) == IF fs = <<>> THEN <<"ok", acc>>
  ELSE LET f == st.f[Head(fs)] IN
       IF f.bad THEN Broken ELSE IF n # 0 /\ f.n # n THEN Bad ELSE Stack(st, Tail(fs), f.n, acc \o f.j)
Jacobian(st, k) == IF st.t[k].fs = <<>> THEN Empty ELSE Stack(st, st.t[k].fs, 0, <<>>)
\* the error follows de/dt = -gain e, compensated for the motion of the reference on request
Prop(t, e, d) == [n \in DOMAIN e |-> -2 * t.g.v * e[n] - (IF t.wd THEN 4 * d[n] ELSE 0)]
Bump(st) == [st EXCEPT !.t = [k \in 1..4 |-> [@[k] EXCEPT !.fresh = TRUE]]]
Fail(st, e) == [st |-> Bump(st), obs |-> e]
Zeros(e) == [n \in DOMAIN e |-> 0]
\* the derivative used by the second task: difference with the error of the previous evaluation
Diff(t, e) == IF ~t.fresh THEN t.memo ELSE IF t.prev.on /\ Len(t.prev.v) = Len(e) THEN [n \in DOMAIN e |-> e[n] - t.prev.v[n]] ELSE Zeros(e)
Seen(st, k, e) == [st EXCEPT !.t[k].memo = Diff(st.t[k], e), !.t[k].prev = On(e), !.t[k].fresh = FALSE]
Plain(st, k) == LET E == Error(st, k)  t == st.t[k] IN
  IF E[1] # "ok" THEN E ELSE IF ~t.g.on THEN Signal ELSE <<"ok", Prop(t, E[2], ErrDot(st, k)[2])>>
Task(st, k) == LET t == st.t[k]  E == Error(st, k)  P == Plain(st, k) IN
  CASE k = 1 -> IF P[1] = "ok" THEN [st |-> st, obs |-> P] ELSE Fail(st, P)
    [] k = 2 -> IF E[1] # "ok" THEN Fail(st, E)
                ELSE LET s2 == IF t.din.on THEN st ELSE Seen(st, k, E[2])
                         d == IF t.din.on THEN t.din.v ELSE s2.t[k].memo
                     IN IF P[1] # "ok" THEN Fail(s2, P) ELSE [st |-> s2, obs |-> <<"ok", [n \in DOMAIN E[2] |-> P[2][n] - 2 * t.beta * d[n]]>>]
    [] k = 3 -> IF ~(t.pos.on /\ t.inf.on /\ t.sup.on /\ t.dt.on) THEN Fail(st, Signal)
                ELSE [st |-> st, obs |-> <<"ok", [n \in DOMAIN t.pos.v |-> <<4 * t.dt.v * (t.inf.v[n] - t.pos.v[n]), 4 * t.dt.v * (t.sup.v[n] - t.pos.v[n])>>]>>]
    [] k = 4 -> IF E[1] # "ok" THEN Fail(st, E) ELSE IF ~t.g.on THEN Fail(st, Signal)
                ELSE LET J == Jacobian(st, k) IN
                     [st |-> st, obs |-> <<"ok", IF J[1] = "ok" /\ st.f[t.fs[1]].n = 6 /\ t.ref >= 0 THEN Zeros(E[2]) ELSE [n \in DOMAIN E[2] |-> -2 * t.g.v * E[2][n]]>>]
Same(st, obs) == [st |-> st, obs |-> obs]
Put(st) == [st |-> Bump(st), obs |-> <<"ok">>]
Show(st, k) == LET fs == st.t[k].fs  L == Txt([n \in DOMAIN fs |-> "-> " \o FName(fs[n]) \o "\n"]) IN
  CASE k = 3 -> "TaskUnilateral t3: \n"
    [] k = 4 -> "TaskConti t4 [t=" \o (IF st.t[4].ref < 0 THEN "-1" ELSE ToString(st.t[4].ref)) \o "] : \n--- LIST ---  \n" \o L
    [] OTHER -> "Task " \o TName(k) \o ": \n--- LIST ---  \n" \o L
Apply(st, o) == LET k == o[2] IN
  CASE o[1] = "feat" -> Put([st EXCEPT !.f[k] = [e |-> o[3], d |-> o[4], n |-> o[5], j |-> o[6], bad |-> FALSE]])
    [] o[1] = "err" -> Put([st EXCEPT !.f[k].e = o[3]])
    [] o[1] = "dot" -> Put([st EXCEPT !.f[k].d = o[3]])
    [] o[1] = "fjac" -> Put([st EXCEPT !.f[k].j = o[3]])
    [] o[1] = "break" -> Put([st EXCEPT !.f[k].bad = TRUE])
    [] o[1] = "add" -> IF o[3] = 0 THEN Same(st, <<"exc", "Factory", 401>>) ELSE Put([st EXCEPT !.t[k].fs = Append(@, o[3])])
    [] o[1] = "clear" -> Put([st EXCEPT !.t[k].fs = <<>>])
    [] o[1] = "gain" -> Put([st EXCEPT !.t[k].g = On(o[3])])
    [] o[1] = "wd" -> Put([st EXCEPT !.t[k].wd = o[3]])
    [] o[1] = "getwd" -> Same(st, <<st.t[k].wd>>)
    [] o[1] = "beta" -> Put([st EXCEPT !.t[2].beta = o[3]])
    [] o[1] = "din" -> Put([st EXCEPT !.t[2].din = On(o[3])])
    [] o[1] = "dplug" -> Put([st EXCEPT !.t[2].din = Unset])
    [] o[1] = "pos" -> Put([st EXCEPT !.t[3].pos = On(o[3])])
    [] o[1] = "inf" -> Put([st EXCEPT !.t[3].inf = On(o[3])])
    [] o[1] = "sup" -> Put([st EXCEPT !.t[3].sup = On(o[3])])
    [] o[1] = "dt" -> Put([st EXCEPT !.t[3].dt = On(o[3])])
    [] o[1] = "reft" -> Put([st EXCEPT !.t[4].ref = o[3]])
    [] o[1] \in {"tick", "unit"} -> Put(st)   \* "unit": all values in another unit
    [] o[1] = "list" -> Same(st, <<"[" \o Txt([n \in DOMAIN st.t[k].fs |-> "'" \o FName(st.t[k].fs[n]) \o "',"]) \o "]">>)
    [] o[1] = "show" -> Same(st, <<Show(st, k)>>)
    [] o[1] = "graph" -> Same(st, <<Txt([n \in DOMAIN st.t[k].fs |-> "\t\"" \o FName(st.t[k].fs[n]) \o "\" -> \"" \o TName(k) \o "\"\n"])>>)
    [] o[1] = "error" -> LET E == Error(st, k) IN IF E[1] = "ok" THEN Same(st, E) ELSE Fail(st, E)
    [] o[1] = "errdot" -> LET E == ErrDot(st, k) IN IF E[1] = "ok" THEN Same(st, E) ELSE Fail(st, E)
    [] o[1] = "jac" -> LET E == Jacobian(st, k) IN IF E[1] = "ok" THEN Same(st, E) ELSE Fail(st, E)
    [] o[1] = "task" -> Task(st, k)
Pr(x) == Profile = x
F1 == <<"feat", 1, <<1, 2>>, <<3, 4>>, 2, << <<1, 0>>, <<0, 1>> >> >>
F1b == <<"feat", 1, <<5>>, <<-1>>, 2, << <<7, 8>> >> >>
F2 == <<"feat", 2, <<3, -1, 2>>, <<0, 1, 0>>, 2, << <<2, 0>>, <<0, 2>>, <<1, 1>> >> >>
F2b == <<"feat", 2, <<4>>, <<2>>, 3, << <<1, 2, 3>> >> >>
F6 == <<"feat", 1, <<4>>, <<2>>, 6, << <<1, 2, 3, 4, 5, 6>> >> >>
Z2 == <<"feat", 2, <<>>, <<>>, 2, <<>> >>
Gets(k) == {<<g, k>> : g \in {"error", "errdot", "jac", "task", "list", "show", "graph", "getwd"}}
Edit(k) == {<<"add", k, i>> : i \in 0..2} \cup {<<"clear", k>>, <<"gain", k, -3>>, <<"wd", k, TRUE>>}
\* one quantity of a feature changes, the others do not
One(st) == UNION {LET e == st.f[i].e IN IF Len(e) # 2 THEN {} ELSE {<<"err", i, <<x, 1>> >> : x \in {0, 6}} \cup {<<"dot", i, <<y, 5>> >> : y \in {2, 8}} \cup {<<"fjac", i, << <<z, 0>>, <<1, 1>> >> >> : z \in {0, 9}} : i \in {1}}
Ops(st) ==
  CASE Pr("one") -> << {F1}, One(st), {<<"add", 1, 1>>, <<"clear", 1>>, <<"gain", 1, -3>>, <<"wd", 1, TRUE>>}, {<<g, 1>> : g \in {"error", "errdot", "jac", "task"}} >>
    [] Pr("plain") -> << {F1, F2, F2b, Z2, <<"break", 1>>}, Edit(1), Gets(1) >>
    [] Pr("pd") -> << {F1, F1b, <<"feat", 1, <<4, 4>>, <<0, 0>>, 2, << <<1, 0>>, <<0, 1>> >> >>, <<"break", 1>>}, {<<"add", 2, 1>>, <<"clear", 2>>, <<"gain", 2, 1>>, <<"beta", 2, 3>>, <<"tick", 2>>}, {<<"error", 2>>, <<"task", 2>>} >>
    [] Pr("pdin") -> << {<<"add", 2, 1>>, <<"clear", 2>>}, {F1, <<"feat", 1, <<4, 4>>, <<0, 0>>, 2, << <<1, 0>>, <<0, 1>> >> >>}, {<<"gain", 2, 1>>}, {<<"din", 2, <<1, 3>> >>, <<"din", 2, <<-2, 0>> >>, <<"dplug", 2>>}, {<<"beta", 2, 3>>, <<"wd", 2, TRUE>>}, {<<"error", 2>>, <<"task", 2>>} >>
    [] Pr("uni") -> << {<<"pos", 3, v>> : v \in {<<1, 2>>, <<0>>}}, {<<w, 3, v>> : w \in {"inf"}, v \in {<<-3, 0>>}}, {<<w, 3, v>> : w \in {"sup"}, v \in {<<3, 5>>}}, {<<"dt", 3, 1>>, <<"dt", 3, 4>>}, {F1}, {<<"add", 3, 1>>}, Gets(3) >>
    [] OTHER -> << {F1, F6, F2, <<"break", 1>>}, {<<"add", 4, 1>>, <<"add", 4, 2>>, <<"clear", 4>>, <<"gain", 4, 3>>, <<"reft", 4, 7>>}, Gets(4) >>
Bound(st) == \A k \in 1..4 : Len(st.t[k].fs) <= (IF Pr("pdin") THEN 1 ELSE 2)
Inv(st) == \A k \in 1..4 :
   /\ (Error(st, k)[1] = "ok" /\ Jacobian(st, k)[1] = "ok") => Len(Error(st, k)[2]) = Len(Jacobian(st, k)[2])
   /\ (Plain(st, k)[1] = "ok" /\ ~st.t[k].wd) => (\A n \in DOMAIN Error(st, k)[2] : Plain(st, k)[2][n] + 2 * st.t[k].g.v * Error(st, k)[2][n] = 0)
StepOK(st, o, r) == (o[1] \in {"error", "errdot", "jac", "list", "show", "graph"} /\ r.obs[1] # "exc") => r.st = st
=============================================================================
