------------------------------- MODULE Gains -------------------------------
(* Gains that adapt to an error, references that evolve with time, averages. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Profile
InitSt == [k |-> "none"]
No(st, obs) == [st |-> st, obs |-> obs]
Ok(st) == No(st, <<"ok">>)
RECURSIVE Sum(_, _), Pow(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Norm(v) == LET n == Sum([i \in DOMAIN v |-> v[i] * v[i]], Len(v)) IN CHOOSE r \in 0..40 : r * r = n        \* vectors have integer norms
(* --- adaptive gain: a 2^(-n norm / d) + c, values in tenths, result in 1/163840 *)
G0 == [k |-> "adaptive", a |-> 0, n |-> 0, d |-> 1, c |-> 1, e |-> <<>>]
AdaptSet(st, v0, vi, n, d) == [st EXCEPT !.a = v0 - vi, !.c = vi, !.n = IF v0 = vi THEN 0 ELSE n, !.d = IF v0 = vi THEN 1 ELSE d]
AdaptVal(st) == IF st.a = 0 THEN st.c * 16384 ELSE LET x == (st.n * Norm(st.e)) \div st.d IN
  st.c * 16384 + (IF x >= 0 THEN st.a * (16384 \div Pow(2, x)) ELSE st.a * 16384 * Pow(2, -x))
(* --- hyperbolic gain: a / (1 + 2^(n (norm - z))) + c, result in 1/15300     *)
H0 == [k |-> "hyperbolic", a |-> 0, n |-> 0, z |-> 0, c |-> 1, e |-> <<>>]
HyperSet(st, v0, vi, n, z) == [st EXCEPT !.a = v0 - vi, !.c = vi, !.n = IF v0 = vi THEN 0 ELSE n, !.z = z]
HyperVal(st) == IF st.a = 0 THEN st.c * 1530 ELSE LET x == st.n * (Norm(st.e) - st.z) IN
  st.c * 1530 + (IF x >= 0 THEN st.a * (1530 \div (1 + Pow(2, x))) ELSE st.a * Pow(2, -x) * (1530 \div (1 + Pow(2, -x))))
(* --- smooth reach: fractions in 1/3060                                      *)
R0 == [k |-> "reach", in |-> <<>>, goal |-> <<>>, len |-> -1, mode |-> 2, q |-> 0, arm |-> TRUE, start |-> <<>>, t |-> 0, t0 |-> -1]
Shape(mode, q, n, len) ==          \* n periods after the start, out of len; thirds only, except for the linear one
  IF n = 0 THEN 0 ELSE IF n >= len THEN 3060
  ELSE IF mode = 0 THEN (3060 * n) \div len
  ELSE IF 2 * n = len THEN 1530
  ELSE IF mode = 1 THEN (IF 3 * n = len THEN 3060 \div (1 + Pow(2, q)) ELSE Pow(2, q) * (3060 \div (1 + Pow(2, q))))
  ELSE LET p == << 3060 \div 4, 3060 \div 6, 3060 \div 3 >>[q] IN IF 3 * n = len THEN p ELSE 3060 - p
ReachVal(st) == LET f == IF st.mode \notin 0..2 THEN 0 ELSE Shape(st.mode, st.q, st.t - st.t0, st.len)
                IN [i \in DOMAIN st.start |-> st.start[i] * (3060 - f) + st.goal[i] * f]
Known(st, n) == st.mode \notin 0..2 \/ n = 0 \/ n >= st.len \/ st.mode = 0 \/ 2 * n = st.len \/ (st.q > 0 /\ (3 * n = st.len \/ 3 * n = 2 * st.len))
(* --- periodic motion: <<type, period, phase, amplitude, offset>>, result in halves *)
P1 == <<"constant", 1, 0, 0, 0>>
M0 == [k |-> "period", p |-> <<>>, t |-> 0]
Cos6 == <<2, 1, -1, -2, -1, 1>>  Cos4 == <<2, 0, -2, 0>>  Sin4 == <<0, 2, 0, -2>>
Wave(p, t) == LET r == (t - p[3]) % p[2] IN
  2 * p[5] + p[4] * (CASE p[1] = "constant" -> 2 [] p[1] = "sin" -> Sin4[((4 * r) \div p[2]) + 1]
                     [] p[1] = "cos" -> IF 4 % p[2] = 0 THEN Cos4[((4 * r) \div p[2]) + 1] ELSE Cos6[((6 * r) \div p[2]) + 1])
(* --- center of mass: follows the reference in motion and for 200 periods    *)
C0 == [k |-> "freezer", last |-> <<0>>, moving |-> FALSE, age |-> -1]
Freeze(st, ref, pg, d) ==
  LET age == IF st.age < 0 THEN -1 ELSE IF st.age + d > 200 THEN 200 ELSE st.age + d
      stop == ~pg /\ st.moving
  IN [st EXCEPT !.moving = pg, !.age = IF stop \/ age < 0 THEN 0 ELSE age,
                !.last = IF pg \/ stop \/ age < 0 \/ age < 200 THEN ref ELSE st.last]
(* --- averages and ascents *)
A0 == [k |-> "average", al |-> 0, v |-> <<>>, n |-> 0]                    \* alpha in quarters, values in 1/4096
D0 == [k |-> "ascent", v |-> <<>>]
Val(st) == No(st, <<"ok", CASE st.k = "adaptive" -> AdaptVal(st) [] st.k = "hyperbolic" -> HyperVal(st) [] st.k = "reach" -> ReachVal(st)
                           [] st.k = "period" -> [i \in DOMAIN st.p |-> Wave(st.p[i], st.t)] [] OTHER -> (IF st.k = "freezer" THEN st.last ELSE st.v)>>)
Apply(st, o) ==
  CASE o[1] = "unit" -> Ok(st)          \* the unit in which the values are expressed
    [] o[1] = "adaptive" -> Ok(IF o[2] = <<>> THEN G0 ELSE IF Len(o[2]) = 1 THEN AdaptSet(G0, o[2][1], o[2][1], 0, 1) ELSE AdaptSet(G0, o[2][1], o[2][2], o[2][3], 1))
    [] o[1] = "hyperbolic" -> Ok(IF o[2] = <<>> THEN H0 ELSE IF Len(o[2]) = 1 THEN HyperSet(H0, o[2][1], o[2][1], 0, 0) ELSE HyperSet(H0, o[2][1], o[2][2], o[2][3], o[2][4]))
    [] o[1] = "setConstant" -> Ok(IF st.k = "adaptive" THEN AdaptSet(st, o[2], o[2], 0, 1) ELSE HyperSet(st, o[2], o[2], 0, 0))
    [] o[1] = "set" -> Ok(IF st.k = "adaptive" THEN AdaptSet(st, o[2], o[3], o[4], 1) ELSE HyperSet(st, o[2], o[3], o[4], o[5]))
    [] o[1] = "point" -> Ok(AdaptSet(st, o[2], o[3], o[5], o[4]))
    [] o[1] = "force" -> Ok([st EXCEPT !.a = 0])
    [] o[1] = "error" -> Val([st EXCEPT !.e = o[2]])
    [] o[1] = "reach" -> Ok(R0)
    [] o[1] = "goal" -> Ok([st EXCEPT !.goal = o[2], !.len = o[3], !.arm = TRUE])
    [] o[1] = "param" -> Ok([st EXCEPT !.mode = o[2], !.q = o[3]])
    [] o[1] = "start" -> Ok([st EXCEPT !.in = o[2]])
    [] o[1] = "reached" -> LET u == IF st.arm THEN [st EXCEPT !.start = st.in, !.t = st.t + o[2], !.t0 = st.t + o[2], !.arm = FALSE] ELSE [st EXCEPT !.t = st.t + o[2]] IN Val(u)
    [] o[1] = "getters" -> No(st, <<"ok", st.goal, st.len, st.t0>>)
    [] o[1] = "period" -> Ok(M0)
    [] o[1] = "resize" -> Ok([st EXCEPT !.p = [i \in 1..o[2] |-> P1]])
    [] o[1] = "motion" -> Ok([st EXCEPT !.p[o[2]] = o[3]])
    [] o[1] = "moved" -> Val([st EXCEPT !.t = o[2]])
    [] o[1] = "freezer" -> Ok(C0)
    [] o[1] = "com" -> Val(Freeze(st, o[2], o[3], o[4]))
    [] o[1] = "average" -> Ok(A0)
    [] o[1] = "alpha" -> Ok([st EXCEPT !.al = o[2]])
    [] o[1] = "update" -> LET v == IF st.v = <<>> THEN [i \in DOMAIN o[2] |-> 0] ELSE st.v IN Val([st EXCEPT !.n = st.n + 1, !.v = [i \in DOMAIN v |-> (st.al * v[i] + (4 - st.al) * 4096 * o[2][i]) \div 4]])
    [] o[1] = "ascent" -> Ok(D0)
    [] o[1] = "gradient" -> Val([st EXCEPT !.v = [i \in DOMAIN o[2] |-> (IF st.v = <<>> THEN 0 ELSE st.v[i]) + o[3] * o[2][i]]])
    [] o[1] = "again" -> Val(st)                                               \* in the same period
    [] o[1] = "sign" -> No(st, <<"ok", IF o[2] < 0 THEN 0 ELSE 1>>)
E3 == {<<>>, <<3, -4>>, <<2>>, <<0, 0, -1>>}
ReachOps(st) == << {<<"start", v>> : v \in {<<0>>, <<-6>>}}, {<<"goal", <<g>>, l>> : g \in {6}, l \in {1, 2, 3}}, {<<"param", m[1], m[2]>> : m \in {<<0, 0>>, <<1, 1>>, <<1, 4>>, <<2, 2>>, <<3, 0>>}},
  {<<"reached", d>> : d \in {d \in 0..3 : st.in # <<>> /\ st.goal # <<>> /\ (st.arm \/ Known(st, st.t + d - st.t0)) /\ st.t + d <= 4 /\ (d > 0 \/ st.t = 0)}}, {<<"getters">>} >>
Ops(st) ==
  CASE Profile = "gain" -> << IF st.k = "none" THEN {<<c, <<>> >> : c \in {"adaptive", "hyperbolic"}} \union {<<c, <<3>> >> : c \in {"adaptive", "hyperbolic"}} \union {<<"adaptive", <<4, 1, 2>> >>, <<"hyperbolic", <<4, 1, 1, 2>> >>} ELSE {},
         IF st.k = "adaptive" THEN {<<"setConstant", 2>>, <<"point", 5, 1, 1, 2>>, <<"point", 2, 5, 5, 3>>, <<"point", 3, 3, 5, 3>>, <<"force">>} \union {<<"set", v, i, n>> : v \in {1, 5}, i \in {1, 3}, n \in {-1, 1, 2}} ELSE {},
         IF st.k = "hyperbolic" THEN {<<"setConstant", 2>>, <<"force">>} \union {<<"set", v, i, n, z>> : v \in {1, 5}, i \in {1, 3}, n \in {-1, 1}, z \in {0, 2}} ELSE {},
         IF st.k = "none" THEN {} ELSE {<<"error", e>> : e \in {e \in E3 : IF st.k = "adaptive" THEN (st.n * Norm(e)) % st.d = 0 ELSE st.n * (Norm(e) - st.z) \in -4..4}} >>
    [] Profile = "reach" -> IF st.k = "none" THEN << {<<"reach">>} >> ELSE ReachOps(st)
    [] Profile = "period" -> IF st.k = "none" THEN << {<<"period">>} >> ELSE << {<<"resize", n>> : n \in 0..2}, {<<"moved", t>> : t \in {0, 1, 2, 5, 7}},
         IF st.p = <<>> THEN {} ELSE {<<"motion", Len(st.p), m>> : m \in {<<"constant", 3, 1, 2, 1>>, <<"sin", 4, 2, 2, 1>>, <<"sin", 2, 3, -1, 0>>, <<"cos", 3, 4, 2, 1>>, <<"cos", 6, 0, 1, -1>>, <<"cos", 4, 5, 3, 0>>}} >>
    [] Profile = "freezer" -> IF st.k = "none" THEN << {<<"freezer">>} >> ELSE << {<<"com", <<v>>, pg, d>> : v \in {1, 2}, pg \in BOOLEAN, d \in {1, 99, 100, 200}}, IF st.age < 0 THEN {} ELSE {<<"again">>} >>
    [] Profile = "average" -> << IF st.k = "none" THEN {<<"average">>, <<"ascent">>} ELSE {}, IF st.k = "average" /\ st.n < 4 THEN {<<"alpha", a>> : a \in 0..4} \union {<<"update", <<v>> >> : v \in {-1, 2}} ELSE {},
         IF st.k = "ascent" THEN {<<"gradient", <<v, -v>>, r>> : v \in {-1, 2}, r \in {0, 3, -1}} ELSE {}, IF st.k # "none" /\ st.v # <<>> THEN {<<"again">>} ELSE {}, {<<"sign", v>> : v \in {-2, -1, 0, 1, 5}} >>
Bound(st) == CASE st.k = "ascent" /\ st.v # <<>> -> st.v[1] \in -9..9 [] OTHER -> TRUE
Inv(st) == (st.k = "adaptive" /\ st.n = 0 /\ st.e # <<>> => AdaptVal(st) = (st.a + st.c) * 16384)
StepOK(st, o, r) ==
  /\ (o[1] \in {"again", "getters", "sign"} => r.st = st)
  /\ (o[1] = "reached" => (\A i \in DOMAIN r.st.start : LET a == r.st.start[i] * 3060 b == r.st.goal[i] * 3060 v == r.obs[2][i] IN (a <= v /\ v <= b) \/ (b <= v /\ v <= a)))   \* never outside of start and goal
  /\ (o[1] = "reached" /\ r.st.mode \in 0..2 /\ r.st.t - r.st.t0 >= r.st.len => r.obs[2] = [i \in DOMAIN st.goal |-> st.goal[i] * 3060])
  /\ (o[1] = "com" /\ o[3] => r.obs[2] = o[2])
=============================================================================
