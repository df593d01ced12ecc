------------------------------- MODULE Causal -------------------------------
(* The causal (IIR/FIR) filter: the difference equation
     a[0] y[N] = sum b[k] x[N-k] - sum_{k>0} a[k] y[N-k]
   started in steady state, with the finite differences of the output.
   The history is kept explicitly (latest first).  Outputs are in units of
   1/Scale; the time step is 1/rate.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Profile
Scale == 4096
InitSt == [n |-> 0, rate |-> 1, b |-> <<1>>, a |-> <<1>>, xs |-> <<>>, ys |-> <<>>, fresh |-> TRUE]
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
SumOf(s) == Sum(s, Len(s))
Div(p, q) == IF q < 0 THEN (-p) \div (-q) ELSE p \div q
Abs(q) == IF q < 0 THEN -q ELSE q
Steady(b, a, x) == [i \in DOMAIN x |-> Div(Scale * x[i] * SumOf(b), SumOf(a))]
Const(v, k) == [i \in 1..k |-> v]
MaxI(p, q) == IF p > q THEN p ELSE q
Past(a) == MaxI(Len(a), 3) - 1
Zero(n) == [i \in 1..n |-> 0]
Begin(st, b, a, x) == [st EXCEPT !.b = b, !.a = a, !.xs = Const(x, Len(b)), !.ys = Const(Steady(b, a, x), Past(a))]
Out(st) ==   \* the value of the next output, the newest input being xs[1]
  [i \in 1..st.n |-> Div(Sum([k \in DOMAIN st.b |-> Scale * st.b[k] * st.xs[k][i]], Len(st.b)) - Sum([k \in 1..(Len(st.a) - 1) |-> st.a[k + 1] * st.ys[k][i]], Len(st.a) - 1), st.a[1])]
Exact(st) == \A i \in 1..st.n : (Sum([k \in DOMAIN st.b |-> Scale * st.b[k] * st.xs[k][i]], Len(st.b)) - Sum([k \in 1..(Len(st.a) - 1) |-> st.a[k + 1] * st.ys[k][i]], Len(st.a) - 1)) % Abs(st.a[1]) = 0
Step(st, x) ==
  LET s0 == IF st.fresh THEN Begin(st, st.b, st.a, x) ELSE [st EXCEPT !.xs = <<x>> \o SubSeq(@, 1, Len(@) - 1)]
      y == Out(s0)
      dx == [i \in 1..st.n |-> st.rate * (y[i] - s0.ys[1][i])]
      ddx == [i \in 1..st.n |-> st.rate * st.rate * (y[i] - 2 * s0.ys[1][i] + s0.ys[2][i])]
  IN [st |-> [s0 EXCEPT !.fresh = FALSE, !.ys = <<y>> \o SubSeq(@, 1, Len(@) - 1)], obs |-> <<y, dx, ddx, TRUE>>]
Apply(st, o) ==
  CASE o[1] = "init" -> [st |-> [n |-> o[2], rate |-> o[3], b |-> o[4], a |-> o[5], xs |-> Const(Zero(o[2]), Len(o[4])), ys |-> Const(Zero(o[2]), Past(o[5])), fresh |-> TRUE], obs |-> <<"ok">>]
    [] o[1] = "switch" -> [st |-> Begin(st, o[2], o[3], st.xs[1]), obs |-> <<"ok">>]
    [] o[1] = "x" -> Step(st, o[2])
    [] o[1] = "unit" -> [st |-> st, obs |-> <<"ok">>]          \* the units of values and time: the filter is linear
    [] o[1] = "get" -> [st |-> st, obs |-> <<st.n, st.rate>>]
Filters == {<< <<1>>, <<1>> >>, << <<1, 2>>, <<2, 1, 1>> >>, << <<2, -1, 1>>, <<1>> >>, << <<1, 1>>, <<1, 1>> >>, << <<1, 0, 0, 2>>, <<-1, 0, 0, -1>> >>}
Ops(st) == IF st.n = 0 THEN << {<<"init", 1, 2, f[1], f[2]>> : f \in Filters} >> ELSE
   << {<<"x", <<v>> >> : v \in {-1, 2}}, {<<"switch", f[1], f[2]>> : f \in {f \in Filters : ~st.fresh}} >>
Small(s) == \A k \in DOMAIN s : \A i \in DOMAIN s[k] : s[k][i] \in -20000..20000 /\ s[k][i] % 1024 = 0
Bound(st) == Small(st.ys)
Inv(st) == st.n > 0 => Len(st.xs) = Len(st.b) /\ Len(st.ys) = Past(st.a) /\ \A k \in DOMAIN st.xs : Len(st.xs[k]) = st.n
(* a constant input is passed with the static gain and no derivative *)
StepOK(st, o, r) == (o[1] = "x") =>
   /\ Exact(IF st.fresh THEN Begin(st, st.b, st.a, o[2]) ELSE [st EXCEPT !.xs = <<o[2]>> \o SubSeq(@, 1, Len(@) - 1)])
   /\ (st.fresh => r.obs[1] = Steady(st.b, st.a, o[2]) /\ r.obs[2] = Zero(st.n) /\ r.obs[3] = Zero(st.n))
=============================================================================
