------------------------------- MODULE Linear -------------------------------
(* Linear filters on one input: finite impulse response, derivative, and the
   integrator of  a0 Y + .. + an dnY = b0 X + .. + bm dmX.  Values are vectors,
   coefficients are numbers or matrices; outputs in 1/Scale.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Profile
Scale == 256
None == <<>>
InitSt == [kind |-> "vec", x |-> None, y |-> None, c |-> <<>>, d |-> <<>>, mi |-> <<>>, mo |-> <<>>, rate |-> 200, first |-> TRUE, m |-> <<>>, n |-> 0]
No(st, obs) == [st |-> st, obs |-> obs]
Ok(st) == [st |-> st, obs |-> <<"ok">>]
Dg(st) == No(st, <<"exc", "dg">>)
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
Add(u, v) == [i \in DOMAIN u |-> u[i] + v[i]]
Sub(u, v) == [i \in DOMAIN u |-> u[i] - v[i]]
Times(k, v) == [i \in DOMAIN v |-> k * v[i]]
Over(v, k) == [i \in DOMAIN v |-> v[i] \div k]
Divides(v, k) == \A i \in DOMAIN v : v[i] % k = 0
MatV(m, v) == [i \in DOMAIN m |-> Sum([j \in DOMAIN v |-> m[i][j] * v[j]], Len(v))]
Cf(st, c, v) == IF st.kind = "mat" THEN MatV(c, v) ELSE Times(c, v)
Zero(v) == [i \in DOMAIN v |-> 0]
One(st) == IF st.kind = "mat" THEN << <<1, 0>>, <<0, 1>> >> ELSE 1
RECURSIVE Total(_, _, _)          \* the sum of the first k products of coefficients and values
Total(st, cs, vs) == IF cs = <<>> \/ vs = <<>> THEN <<>> ELSE
  LET p == Cf(st, cs[1], vs[1]) r == Total(st, Tail(cs), Tail(vs)) IN IF r = <<>> THEN p ELSE Add(p, r)
MinI(p, q) == IF p < q THEN p ELSE q
(* --- finite impulse response: the newest value first *)
Fir(st) == IF st.x = None THEN Dg(st) ELSE
  LET h == <<st.x>> \o SubSeq(st.m, 1, MinI(Len(st.m), st.n - 1)) IN
  IF st.n = 0 THEN No(st, <<"ok", Zero(st.x)>>) ELSE No([st EXCEPT !.m = h], <<"ok", Total(st, st.c, h)>>)
SizeTo(st, n) == [st EXCEPT !.n = n, !.m = <<>>, !.c = [i \in 1..n |-> IF i <= Len(@) THEN @[i] ELSE IF st.kind = "mat" THEN <<>> ELSE 0]]
(* --- derivative *)
Der(st) == IF st.x = None THEN Dg(st)
  ELSE [st |-> [st EXCEPT !.m = <<st.x>>, !.first = FALSE], obs |-> <<"ok", IF st.first THEN Zero(st.x) ELSE Times(st.rate, Sub(st.x, st.m[1]))>>]
(* --- integrator: memories in 1/Scale *)
Ready(st) == st.mi # <<>> /\ Len(st.mi) = Len(st.c) /\ Len(st.mo) = Len(st.d)
Derivs(st) ==                     \* the new memory of the input and its derivatives
  LET F[i \in 1..Len(st.mi)] == IF i = 1 THEN Times(Scale, st.x) ELSE Times(st.rate, Sub(F[i-1], st.mi[i-1])) IN [i \in 1..Len(st.mi) |-> F[i]]
Integ(st) ==
  LET mi == Derivs(st) n == Len(st.d)
      y == IF n = 1 THEN Total(st, st.c, mi) ELSE Sub(Total(st, st.c, mi), Total(st, SubSeq(st.d, 1, n - 1), st.mo))
      G[i \in 1..n] == IF i = n THEN y ELSE Add(st.mo[i], Over(G[i + 1], st.rate))
  IN [st EXCEPT !.mi = mi, !.mo = [i \in 1..n |-> G[i]]]
Exact(st) == LET s == Integ(st) IN \A i \in 2..Len(s.mo) : Divides(s.mo[i], st.rate)
IntOut(st, what) ==
  IF what = "derivative" /\ Len(st.mo) < 2 THEN Dg(st)
  ELSE IF ~Ready(st) \/ st.x = None THEN Dg(st)
  ELSE LET s == Integ(st) IN [st |-> s, obs |-> <<"ok", IF what = "sout" THEN s.mo[1] ELSE s.mo[2]>>]
Apply(st, o) ==
  CASE o[1] = "kind" -> Ok([InitSt EXCEPT !.kind = o[2], !.rate = o[3]])        \* new filters for that type of values (rate: of the derivative 1, of the integrator 200)
    [] o[1] = "unit" -> Ok(st)                                                  \* the units of values and time: the filters are linear
    [] o[1] = "x" -> Ok([st EXCEPT !.x = o[2]])
    [] o[1] = "size" -> Ok(SizeTo(st, o[2]))
    [] o[1] = "getsize" -> No(st, <<"ok", st.n>>)
    [] o[1] = "set" -> IF o[2] >= st.n THEN No(st, <<"exc", "out_of_range">>) ELSE Ok([st EXCEPT !.c[o[2] + 1] = o[3]])
    [] o[1] = "getc" -> IF o[2] >= st.n THEN No(st, <<"exc", "out_of_range">>) ELSE No(st, <<"ok", st.c[o[2] + 1]>>)
    [] o[1] = "fir" -> Fir(st)
    [] o[1] = "rate" -> Ok([st EXCEPT !.rate = o[2]])                           \* period 1/rate
    [] o[1] = "der" -> Der(st)
    [] o[1] = "period" -> No(st, <<"ok", st.rate>>)
    [] o[1] = "num" -> Ok([st EXCEPT !.c = Append(@, o[2])])
    [] o[1] = "den" -> Ok([st EXCEPT !.d = Append(@, o[2])])
    [] o[1] = "popnum" -> Ok([st EXCEPT !.c = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)])
    [] o[1] = "popden" -> Ok([st EXCEPT !.d = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)])
    [] o[1] = "init" -> IF st.c = <<>> \/ st.d = <<>> \/ st.x = None THEN Dg(st)
                        ELSE IF st.d[Len(st.d)] # One(st) THEN Dg(st)
                        ELSE Ok([st EXCEPT !.mi = [i \in 1..Len(st.c) |-> Times(Scale, st.x)], !.mo = [i \in 1..Len(st.d) |-> Times(Scale, st.x)]])
    [] o[1] = "int" -> IntOut(st, o[2])
    [] o[1] = "both" -> IF Len(st.mo) < 2 \/ ~Ready(st) \/ st.x = None THEN Dg(st)       \* in the same period: one step
                        ELSE LET s == Integ(st) IN [st |-> s, obs |-> <<"ok", s.mo[1], s.mo[2]>>]
    [] o[1] = "show" -> No(st, IF st.c = <<>> \/ st.d = <<>> THEN <<"ok", "ill-formed">> ELSE IF st.kind = "mat" THEN <<"ok", st.c \o st.d>> ELSE <<"ok", st.c, st.d>>)
P(x) == Profile = x
Kinds == {"double", "mat"}
V(st) == IF st.kind \in {"double"} THEN {<<-1>>, <<3>>} ELSE {<<1, -2>>, <<4, 0>>}
C(st) == IF st.kind = "mat" THEN { << <<2, -1>>, <<1, 0>> >>, << <<1, 0>>, <<0, 1>> >> } ELSE {-2, 1}
Ops(st) ==
  CASE P("fir") -> << IF st = InitSt THEN {<<"kind", k, 1>> : k \in Kinds} ELSE {}, {<<"x", v>> : v \in V(st)}, IF st.kind = "mat" /\ (st.n # 0 \/ st.x = None) THEN {} ELSE {<<"size", n>> : n \in {0, 1, 2}}, {<<"getsize">>},
                      IF st.kind # "mat" THEN {<<"size", 3>>} \cup {<<"set", i, c>> : i \in 0..2, c \in C(st)} ELSE {<<"set", i, c>> : i \in 0..1, c \in C(st)}, {<<"getc", i>> : i \in {j \in 0..3 : j >= st.n \/ st.kind # "mat" \/ st.c[j+1] # <<>>}},
                      IF st.kind = "mat" /\ \E i \in DOMAIN st.c : st.c[i] = <<>> THEN {} ELSE {<<"fir">>} >>
    [] P("deriv") -> << IF st = InitSt THEN {<<"kind", k, 1>> : k \in {"double", "matrix", "quat", "vec"}} ELSE {}, IF st.kind = "quat" THEN {<<"x", <<1, 2, 3, 4>> >>, <<"x", <<0, -1, 0, 2>> >>} ELSE IF st.kind = "matrix" THEN {<<"x", <<1, 2, 3, 4>> >>, <<"x", <<0, -1, 0, 2>> >>} ELSE {<<"x", v>> : v \in V(st)},
                        IF st.rate # 200 THEN {<<"rate", r>> : r \in {1, 2, 5}} \cup {<<"der">>} ELSE {} >>
    [] OTHER -> << IF st = InitSt THEN {<<"kind", k, 200>> : k \in Kinds} ELSE {}, {<<"x", v>> : v \in V(st)}, IF st.rate = 200 THEN {<<"rate", 2>>} ELSE {}, {<<"period">>, <<"show">>, <<"init">>, <<"popnum">>, <<"popden">>},
                   IF Len(st.c) < 2 THEN {<<"num", c>> : c \in C(st)} ELSE {}, IF Len(st.d) < 2 THEN {<<"den", c>> : c \in C(st)} ELSE {},
                   IF st.rate = 200 /\ Ready(st) THEN {} ELSE {<<"int", w>> : w \in {"sout", "derivative"}} \cup {<<"both">>} >>
Small(s) == \A k \in DOMAIN s : \A i \in DOMAIN s[k] : s[k][i] \in -700..700 /\ s[k][i] % 128 = 0
Bound(st) == Small(st.mo) /\ (st.mi = <<>> \/ \A k \in DOMAIN st.mi : \A i \in DOMAIN st.mi[k] : st.mi[k][i] \in -2600..2600)
Inv(st) == (Profile = "fir" => Len(st.m) <= st.n /\ Len(st.c) = st.n)
StepOK(st, o, r) ==
  /\ (o[1] \in {"int", "both"} /\ r.obs[1] = "ok") => Exact(st)
  /\ (o[1] = "der" /\ r.obs[1] = "ok" /\ ~st.first /\ st.x = st.m[1]) => r.obs[2] = Zero(st.x)
  /\ r.obs[1] = "exc" => r.st = st
=============================================================================
