------------------------------- MODULE Limits -------------------------------
(* Entities that keep the robot within its limits.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Profile
InitSt == [k |-> "none"]
No(st, obs) == [st |-> st, obs |-> obs]
Ok(st) == No(st, <<"ok">>)
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
(* --- joint limits: a control (unit: 1 per period) passes if the next position stays strictly within the limits *)
J0 == [k |-> "joint", q |-> <<>>, hi |-> <<>>, lo |-> <<>>, u |-> <<>>]
JointOut(st) == LET d == Len(st.q) - Len(st.u) IN
  [i \in DOMAIN st.u |-> IF i + d <= 6 THEN st.u[i] ELSE LET n == st.q[i + d] + st.u[i] IN IF n < st.hi[i + d] /\ n > st.lo[i + d] THEN st.u[i] ELSE 0]
(* --- neck: the tilt is bounded by an affine function of the absolute pan (1/10000 rad, pans are multiples of 42 or less than 10) *)
N0(p, t, s) == [k |-> "neck", pan |-> p, tilt |-> t, s |-> s]
Lim(p) == IF Abs(p) < 10 THEN 6981 ELSE 6981 - 25 * (Abs(p) \div 42)
Neck(st, q) == LET l == Lim(q[st.pan]) IN [q EXCEPT ![st.tilt] = IF st.s * @ > l THEN st.s * l ELSE @]
(* --- gripper: the motion is scaled by 2^-f, more when the torque exceeds its limit in the direction of the motion *)
G0 == [k |-> "gripper", off |-> 0, sel |-> <<>>, q |-> <<>>, tau |-> <<>>, lim |-> <<>>, des |-> <<>>, f |-> <<>>, out |-> <<>>]
RECURSIVE Sel(_, _)
Sel(v, s) == IF v = <<>> THEN <<>> ELSE LET r == Sel(SubSeq(v, 1, Len(v) - 1), s) n == Len(v) IN IF n <= Len(s) /\ s[n] = 1 THEN Append(r, v[n]) ELSE r
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Grip(st) == LET q == Sel(st.q, st.sel) tau == Sel(st.tau, st.sel) lim == Sel(st.lim, st.sel)
                f0 == IF Len(st.f) = Len(q) THEN st.f ELSE [i \in DOMAIN q |-> 0]
                step(i) == IF (tau[i] > lim[i] /\ st.des[i] > q[i]) \/ (tau[i] < -lim[i] /\ st.des[i] < q[i]) THEN f0[i] + st.off ELSE IF f0[i] < st.off THEN 0 ELSE f0[i] - st.off
                f == IF tau = <<>> THEN f0 ELSE [i \in DOMAIN q |-> step(i)]
            IN [st EXCEPT !.f = f, !.out = [i \in DOMAIN q |-> q[i] * 4096 + (st.des[i] - q[i]) * (4096 \div Pow2(f[i]))]]
Ready(st) == st.sel # <<>> /\ st.off > 0 /\ st.q # <<>> /\ Len(st.lim) = Len(st.q) /\ Len(st.tau) \in {0, Len(st.q)} /\ Len(st.des) = Len(Sel(st.q, st.sel)) /\ \A i \in DOMAIN st.f : st.f[i] <= 8
(* --- workspace: homogeneous matrices, rotations of the cube, millimetres    *)
W0 == [k |-> "clamp", ref |-> <<>>, pos |-> <<>>]
MV(r, v) == [i \in 1..3 |-> r[i][1] * v[1] + r[i][2] * v[2] + r[i][3] * v[3]]
Rel(ref, pos) == LET d == [i \in 1..3 |-> pos[i][4] - ref[i][4]] IN MV([i \in 1..3 |-> <<ref[1][i], ref[2][i], ref[3][i]>>], d)
Diag(a, b) == [i \in 1..6 |-> [j \in 1..6 |-> IF i # j THEN 0 ELSE IF i <= 3 THEN a ELSE b]]
Yaw(st) == ((4500 + 7 * (Rel(st.ref, st.pos)[2] + 400)) % 10800) - 5400      \* thirtieths of degrees
Apply(st, o) ==
  CASE o[1] = "unit" -> Ok(st)          \* the unit in which the values are expressed
    [] o[1] = "joint" -> Ok(J0)
    [] o[1] = "in" -> Ok([st EXCEPT !.q = o[2], !.lo = o[3], !.hi = o[4]])
    [] o[1] = "control" -> LET u == [st EXCEPT !.u = o[2]] IN No(u, <<"ok", JointOut(u)>>)
    [] o[1] = "width" -> No(st, <<"ok", [i \in DOMAIN st.hi |-> st.hi[i] - st.lo[i]]>>)
    [] o[1] = "neck" -> Ok(N0(o[2], o[3], o[4]))
    [] o[1] = "look" -> No(st, <<"ok", Neck(st, o[2])>>)
    [] o[1] = "gripper" -> Ok(G0)
    [] o[1] = "offset" -> IF o[2] \in 1..3 THEN Ok([st EXCEPT !.off = o[2]]) ELSE No(st, <<"exc", "invalid_argument">>)   \* 2^-n; 0: 1, -1: 0, -2: 2, -3: -1/2
    [] o[1] = "set" -> LET u == [st EXCEPT !.out = <<>>] IN Ok(CASE o[2] = "selec" -> [u EXCEPT !.sel = o[3]] [] o[2] = "position" -> [u EXCEPT !.q = o[3]] [] o[2] = "torque" -> [u EXCEPT !.tau = o[3]] [] o[2] = "limit" -> [u EXCEPT !.lim = o[3]] [] o[2] = "desired" -> [u EXCEPT !.des = o[3]])
    [] o[1] = "grip" -> LET u == Grip(st) IN No(u, <<"ok", u.out>>)
    [] o[1] = "again" -> No(st, <<"ok", st.out>>)
    [] o[1] = "clamp" -> Ok(W0)
    [] o[1] = "pose" -> Ok([st EXCEPT !.ref = o[2], !.pos = o[3]])
    [] o[1] = "clamped" -> No(st, <<"ok", CASE o[2] = "alpha" -> Diag(1, 0) [] o[2] = "alphabar" -> Diag(0, 1) [] o[2] = "ref" -> <<325, -325, 350, Yaw(st)>> >>)
Q7 == <<9, 9, 9, 9, 9, 9, 0>>  Lo7 == <<-1, -1, -1, -1, -1, -1, -2>>  Hi7 == <<1, 1, 1, 1, 1, 1, 3>>
Rots == { << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>, << <<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>> >>, << <<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>> >>, << <<-1, 0, 0>>, <<0, 0, 1>>, <<0, 1, 0>> >> }
Hm(r, t) == [i \in 1..3 |-> Append(r[i], t[i])]
Ops(st) ==
  CASE Profile = "joint" -> IF st.k = "none" THEN << {<<"joint">>} >> ELSE << {<<"in", Q7, Lo7, Hi7>>, <<"in", Q7, Lo7, <<1, 1, 1, 1, 1, 1, 11>> >>, <<"in", Q7, <<-1, -1, -1, -1, -1, -1, 2>>, <<1, 1, 1, 1, 1, 1, 11>> >>, <<"in", <<9, 9, 9, 9, 9, 9, 7>>, Lo7, <<1, 1, 1, 1, 1, 1, 11>> >>, <<"in", <<5, 5, 5, 5, 5, 5, 1, -1>>, <<0, 0, 0, 0, 0, 0, 0, -3>>, <<0, 0, 0, 0, 0, 0, 4, 2>> >>},
         IF st.q = <<>> THEN {} ELSE {<<"control", <<v>> >> : v \in -4..4} \union {<<"control", [i \in DOMAIN st.q |-> v * i - 7]>> : v \in {0, 1}} \union {<<"control", <<v, w>> >> : v \in {-1, 3}, w \in -3..3} \union {<<"width">>} >>
    [] Profile = "neck" -> IF st.k = "none" THEN << {<<"neck", p[1], p[2], s>> : p \in {<<15, 16>>, <<1, 2>>, <<3, 1>>}, s \in {-1, 1}} >>
         ELSE << {<<"look", [i \in 1..16 |-> IF i = st.pan THEN p ELSE IF i = st.tilt THEN t ELSE i]>> : p \in {-84, -42, -9, 0, 5, 42, 4200}, t \in {-7000, -6950, -4600, 0, 4450, 4500, 6930, 6957, 6980, 7000}} >>
    [] Profile = "gripper" -> IF st.k = "none" THEN << {<<"gripper">>} >> ELSE << {<<"offset", n>> : n \in {-3, -2, -1, 0, 1, 2}}, {<<"set", "selec", s>> : s \in {<<1, 0, 1>>, <<0, 1, 1>>, <<0, 0, 1>>}}, {<<"set", "position", <<1, 2, 3>> >>, <<"set", "limit", <<2, 4, 3>> >>},
         {<<"set", "torque", t>> : t \in {<<>>, <<3, 4, -4>>, <<-3, -5, 3>>}}, {<<"set", "desired", d>> : d \in {<<5, 0>>, <<0, 7>>, <<4>>}}, IF Ready(st) THEN {<<"grip">>} ELSE {}, IF st.out # <<>> THEN {<<"again">>} ELSE {} >>
    [] Profile = "clamp" -> IF st.k = "none" THEN << {<<"clamp">>} >> ELSE << {<<"pose", Hm(a, <<100, -50, 7>>), Hm(b, <<100 + 30 * x, -50, 37>>)>> : a \in Rots, b \in Rots, x \in {-1, 0, 4}}, IF st.ref = <<>> THEN {} ELSE {<<"clamped", n>> : n \in {"alpha", "alphabar", "ref"}} >>
Bound(st) == (st.k = "gripper" => \A i \in DOMAIN st.f : st.f[i] <= 3)
Inv(st) == st.k = "gripper" => \A i \in DOMAIN st.f : st.f[i] >= 0
StepOK(st, o, r) ==
  /\ (o[1] = "control" => \A i \in DOMAIN o[2] : LET j == i + Len(st.q) - Len(o[2]) IN r.obs[2][i] \in {0, o[2][i]} /\ (j > 6 /\ r.obs[2][i] # 0 => st.q[j] + r.obs[2][i] < st.hi[j] /\ st.q[j] + r.obs[2][i] > st.lo[j]))
  /\ (o[1] = "look" => st.s * r.obs[2][st.tilt] <= Lim(o[2][st.pan]) /\ \A i \in DOMAIN o[2] : i # st.tilt => r.obs[2][i] = o[2][i])
  /\ (o[1] = "grip" => \A i \in DOMAIN r.st.out : LET q == Sel(st.q, st.sel)[i] * 4096 d == st.des[i] * 4096 v == r.st.out[i] IN (q <= v /\ v <= d) \/ (d <= v /\ v <= q))   \* between here and there
=============================================================================
