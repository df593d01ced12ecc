------------------------------ MODULE Control ------------------------------
(* Control laws and estimators: proportional-derivative, gravity, admittance,
   Kalman filter, attitude from inertial measurements.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Profile
InitSt == [k |-> "none"]
No(st, obs) == [st |-> st, obs |-> obs]
Ok(st) == No(st, <<"ok">>)
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
SumOf(s) == Sum(s, Len(s))
Add(u, v) == [i \in DOMAIN u |-> u[i] + v[i]]
Sub(u, v) == [i \in DOMAIN u |-> u[i] - v[i]]
Had(u, v) == [i \in DOMAIN u |-> u[i] * v[i]]
MV(m, v) == [i \in DOMAIN m |-> SumOf([j \in DOMAIN v |-> m[i][j] * v[j]])]
Cols(m) == Len(m[1])
Tran(m) == [j \in 1..Cols(m) |-> [i \in DOMAIN m |-> m[i][j]]]
MM(a, b) == [i \in DOMAIN a |-> [j \in 1..Cols(b) |-> SumOf([k \in DOMAIN b |-> a[i][k] * b[k][j]])]]
MAdd(a, b) == [i \in DOMAIN a |-> Add(a[i], b[i])]
MSub(a, b) == [i \in DOMAIN a |-> Sub(a[i], b[i])]
Det(m) == IF Len(m) = 1 THEN m[1][1] ELSE m[1][1] * m[2][2] - m[1][2] * m[2][1]
InvM(m) == LET d == Det(m) IN IF Len(m) = 1 THEN << <<d>> >> ELSE << <<d * m[2][2], -d * m[1][2]>>, <<-d * m[2][1], d * m[1][1]>> >>   \* of determinant 1 or -1
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Lin(v) == SubSeq(v, 1, 3)  Ang(v) == SubSeq(v, 4, 6)
Rt(h) == [i \in 1..3 |-> SubSeq(h[i], 1, 3)]  Tl(h) == [i \in 1..3 |-> h[i][4]]
(* --- a law with named inputs *)
Pd == [k |-> "pd", in |-> [Kp |-> <<>>, Kd |-> <<>>, position |-> <<>>, desired_position |-> <<>>, velocity |-> <<>>, desired_velocity |-> <<>>]]
Gr == [k |-> "gr", in |-> [matrixA |-> <<>>, acceleration |-> <<>>, gravity |-> <<>>]]
Adm == [k |-> "adm", in |-> [Kp |-> <<>>, Kd |-> <<>>, dqSaturation |-> <<>>, force |-> <<>>, w_forceDes |-> <<>>, opPose |-> <<>>, sensorPose |-> <<>>], dt |-> 0, w |-> [i \in 1..6 |-> 0], on |-> FALSE, same |-> FALSE]
Full(st) == \A n \in DOMAIN st.in : st.in[n] # <<>>
PdOut(i, n) == LET ep == Sub(i.desired_position, i.position) ev == Sub(i.desired_velocity, i.velocity)
               IN CASE n = "control" -> Add(Had(ep, i.Kp), Had(ev, i.Kd)) [] n = "position_error" -> ep [] n = "velocity_error" -> ev
GrOut(i) == Add(MV(i.matrixA, i.acceleration), i.gravity)
WForce(i) == LET f == MV(Rt(i.sensorPose), Lin(i.force)) IN f \o Add(MV(Rt(i.sensorPose), Ang(i.force)), Cross(Tl(i.sensorPose), f))
Clip(x, s) == LET y == IF x > s THEN s ELSE x IN IF y < -s THEN -s ELSE y
AdmStep(st) == LET i == st.in e == Sub(i.w_forceDes, WForce(i)) IN [j \in 1..6 |-> Clip(st.w[j] + st.dt * i.Kp[j] * e[j] - i.Kd[j] * st.w[j], i.dqSaturation[j])]
Dq(w, h) == LET r == Tran(Rt(h)) IN MV(r, Sub(Lin(w), Cross(Tl(h), Ang(w)))) \o MV(r, Ang(w))
(* --- Kalman filter with integer gains (the innovation covariance has determinant 1 or -1) *)
Kal == [k |-> "kalman", P |-> <<>>, K |-> <<>>, F |-> <<>>, H |-> <<>>, Q |-> <<>>, R |-> <<>>, y |-> <<>>, yp |-> <<>>, xp |-> <<>>, new |-> FALSE, n |-> 0]
Pred(st) == MAdd(MM(MM(st.F, st.P), Tran(st.F)), st.Q)
Innov(st) == MAdd(MM(MM(st.H, Pred(st)), Tran(st.H)), st.R)
Update(st) == IF ~st.new THEN st ELSE LET P == Pred(st) K == MM(MM(P, Tran(st.H)), InvM(Innov(st)))
              IN [st EXCEPT !.new = FALSE, !.K = K, !.P = MSub(P, MM(MM(K, st.H), P)), !.n = @ + 1]
Xest(st) == Add(st.xp, MV(st.K, Sub(st.y, st.yp)))
(* --- attitude: the quaternion is a primitive integer vector over its norm   *)
Imu == [k |-> "imu", dt |-> 0, b |-> -1, n |-> <<1, 0, 0, 0>>, out |-> <<>>, x |-> TRUE]          \* b: eighths, -1: the default
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN (IF a < 0 THEN -a ELSE a) ELSE Gcd(b, (IF a < 0 THEN -a ELSE a) % (IF b < 0 THEN -b ELSE b))
Gcd4(v) == Gcd(v[1], Gcd(v[2], Gcd(v[3], v[4])))
Div(x, g) == IF x < 0 THEN -((-x) \div g) ELSE x \div g
Prim(v) == LET g == Gcd4(v) IN IF g = 0 THEN v ELSE [i \in 1..4 |-> Div(v[i], g)]
N2(v) == SumOf([i \in DOMAIN v |-> v[i] * v[i]])
IsSq(x) == \E r \in 0..2000 : r * r = x
Root(x) == CHOOSE r \in 0..2000 : r * r = x
Small(v, m) == \A i \in DOMAIN v : v[i] \in -m..m
Mul(q, g) == <<-q[2]*g[1]-q[3]*g[2]-q[4]*g[3], q[1]*g[1]+q[3]*g[3]-q[4]*g[2], q[1]*g[2]-q[2]*g[3]+q[4]*g[1], q[1]*g[3]+q[2]*g[2]-q[3]*g[1]>>
Grad(n, a) ==                                                                         \* direction of the gradient of the squared difference between the measured and the predicted gravity
  LET d2 == N2(n) m == Root(N2(a))
      f == <<2 * (n[2]*n[4] - n[1]*n[3]) * m - a[1] * d2, 2 * (n[1]*n[2] + n[3]*n[4]) * m - a[2] * d2, (d2 - 2*n[2]*n[2] - 2*n[3]*n[3]) * m - a[3] * d2>>
  IN Prim(<<-2*n[3]*f[1] + 2*n[2]*f[2], 2*n[4]*f[1] + 2*n[1]*f[2] - 4*n[2]*f[3], -2*n[1]*f[1] + 2*n[4]*f[2] - 4*n[3]*f[3], 2*n[2]*f[1] + 2*n[3]*f[2]>>)
Next4(st, a, g) ==                                                                    \* g: gyroscope in halves of a radian per second
  LET n == st.n w == Mul(n, [i \in 1..3 |-> st.dt * g[i]]) base == [i \in 1..4 |-> 4 * n[i] + w[i]]
  IN IF N2(a) = 0 THEN Prim(base)
     ELSE LET s == Grad(n, a) IN IF N2(s) = 0 THEN Prim(base)
     ELSE LET m == Root(N2(s)) d == Root(N2(n)) B == (st.b * st.dt) \div 2 IN Prim([i \in 1..4 |-> base[i] * m - B * d * s[i]])
Fine(st, a, g) ==                                                                     \* everything is rational and small
  /\ N2(st.n) <= (IF N2(a) = 0 THEN 10000 ELSE 25) /\ IsSq(N2(a)) /\ N2(a) <= 25
  /\ (N2(a) # 0 => st.b >= 0 /\ (st.b * st.dt) % 2 = 0 /\ LET s == Grad(st.n, a) IN Small(s, 200) /\ IsSq(N2(s)) /\ (N2(s) = 0 => st.x /\ N2(a) \in {1, 4, 16}))   \* a gradient of zero only when no rounding precedes
  /\ LET x == Next4(st, a, g) IN Small(x, 900) /\ N2(x) # 0 /\ IsSq(N2(x))
Quat(n) == <<"ok", Root(N2(n))>> \o n
Apply(st, o) ==
  CASE o[1] = "unit" -> Ok(st)          \* the unit in which the values are expressed
    [] o[1] = "pd" -> Ok(Pd) [] o[1] = "gr" -> Ok(Gr) [] o[1] = "adm" -> Ok(Adm) [] o[1] = "kalman" -> Ok(Kal) [] o[1] = "imu" -> Ok(Imu)
    [] o[1] = "set" -> LET u == [st EXCEPT !.in[o[2]] = o[3]] IN Ok(IF st.k = "adm" THEN [u EXCEPT !.same = FALSE] ELSE u)
    [] o[1] = "get" /\ st.k = "pd" -> IF Full(st) THEN No(st, <<"ok", PdOut(st.in, o[2])>>) ELSE No(st, <<"exc", "dg">>)
    [] o[1] = "get" /\ st.k = "gr" -> IF Full(st) THEN No(st, <<"ok", GrOut(st.in)>>) ELSE No(st, <<"exc", "dg">>)
    [] o[1] = "init" /\ st.k = "adm" -> IF Full(st) THEN Ok([st EXCEPT !.on = TRUE, !.dt = o[2], !.same = FALSE, !.w = [i \in 1..6 |-> 0]]) ELSE Ok(st)
    [] o[1] = "resetDq" -> Ok([st EXCEPT !.same = FALSE, !.w = [i \in 1..6 |-> 0]])
    [] o[1] = "get" /\ st.k = "adm" -> IF ~st.on THEN No(st, <<"ok", <<>> >>)
         ELSE LET w == AdmStep(st) IN (CASE o[2] = "w_force" -> No([st EXCEPT !.same = FALSE], <<"ok", WForce(st.in)>>) [] o[2] = "w_dq" -> No([st EXCEPT !.w = w, !.same = TRUE], <<"ok", w>>) [] o[2] = "dq" -> No([st EXCEPT !.w = w, !.same = TRUE], <<"ok", Dq(w, st.in.opPose)>>))
    [] o[1] = "held" -> IF st.on THEN No([st EXCEPT !.same = FALSE], <<"ok", WForce(st.in)>>) ELSE No(st, <<"ok", <<>> >>)      \* in a new period, no input given again
    [] o[1] = "same" -> No(st, <<"ok", IF o[2] = "w_dq" THEN st.w ELSE Dq(st.w, st.in.opPose)>>)          \* again in the same period
    [] o[1] = "begin" -> No([st EXCEPT !.P = o[2]], <<"ok", o[2], o[3]>>)
    [] o[1] = "model" -> Ok([st EXCEPT !.F = IF o[2] = <<>> THEN @ ELSE o[2], !.H = IF o[3] = <<>> THEN @ ELSE o[3], !.Q = IF o[4] = <<>> THEN @ ELSE o[4], !.R = IF o[5] = <<>> THEN @ ELSE o[5], !.new = TRUE])
    [] o[1] = "measure" -> Ok([st EXCEPT !.y = o[2], !.yp = o[3], !.xp = o[4]])
    [] o[1] = "P" -> LET u == Update(st) IN No(u, <<"ok", u.P>>)
    [] o[1] = "x" -> LET u == Update(st) IN No(u, <<"ok", Xest(u)>>)
    [] o[1] = "period" -> Ok(IF o[2] <= 0 THEN st ELSE [st EXCEPT !.dt = o[2]])
    [] o[1] = "beta" -> Ok(IF o[2] < 0 \/ o[2] > 8 THEN st ELSE [st EXCEPT !.b = o[2]])
    [] o[1] = "getBeta" -> No(st, <<"ok", IF st.b < 0 THEN 8 ELSE 100 * st.b>>)
    [] o[1] = "quat" -> Ok([st EXCEPT !.n = o[2], !.x = N2(o[2]) \in {1, 4}])
    [] o[1] = "attitude" -> IF st.dt = 0 THEN No(st, <<"ok">>) ELSE LET n == Next4(st, o[2], o[3]) IN No([st EXCEPT !.n = n, !.out = n, !.x = FALSE], Quat(n))
    [] o[1] = "again" -> No(st, Quat(st.out))
(* --- exploration *)
V1 == {<<1>>, <<-2>>}
PdOps(st) == << UNION {{<<"set", n, v>> : v \in IF n \in {"Kp", "position", "desired_velocity"} THEN V1 ELSE {<<3>>}} : n \in DOMAIN st.in}, {<<"get", n>> : n \in {"control", "position_error", "velocity_error"}} >>
GrOps(st) == << {<<"set", "matrixA", << <<1, 2>>, <<3, -4>> >> >>, <<"set", "matrixA", << <<0, 1>>, <<1, 0>> >> >>, <<"set", "acceleration", <<5, 6>> >>, <<"set", "acceleration", <<-1, 2>> >>, <<"set", "gravity", <<7, -8>> >>}, {<<"get", "control">>} >>
Pose == << << <<0, -1, 0, 1>>, <<1, 0, 0, -2>>, <<0, 0, 1, 3>> >>, << <<0, 0, 1, 2>>, <<1, 0, 0, 1>>, <<0, 1, 0, 0>> >> >>
C6(a, b) == <<a, a, a, b, b, b>>
AdmOps(st) == << {<<"set", "Kp", C6(1, 2)>>, <<"set", "Kd", C6(0, 1)>>, <<"set", "dqSaturation", <<4, 9, 7, 5, 6, 8>> >>, <<"set", "w_forceDes", <<1, 0, 2, 0, 1, 0>> >>, <<"set", "opPose", Pose[2]>>, <<"set", "sensorPose", Pose[1]>>},
   {<<"set", "force", f>> : f \in {<<1, 2, 0, 0, 1, 0>>, <<0, -1, 1, 2, 0, -1>>}}, IF Full(st) THEN {<<"set", "sensorPose", Pose[2]>>} ELSE {}, {<<"init", 2>>, <<"resetDq">>}, {<<"get", n>> : n \in {"w_force", "w_dq", "dq"}}, IF st.on THEN {<<"held">>} ELSE {}, IF st.same THEN {<<"same", "w_dq">>, <<"same", "dq">>} ELSE {} >>
One == << <<1>> >>
Good(st) == Det(Innov([st EXCEPT !.new = TRUE])) \in {1, -1}
WithR(st, F, H, Q, S) == LET u == [st EXCEPT !.F = F, !.H = H, !.Q = Q, !.R = MSub(S, S)] P == Pred(u) IN <<"model", F, H, Q, MSub(S, MM(MM(H, P), Tran(H)))>>
Fs == {<< <<1, 1>>, <<0, 1>> >>, << <<0, 1>>, <<-1, 0>> >>}
Hs == {<< <<1, 2>> >>, << <<1, 0>>, <<1, 1>> >>}
Ss(h) == IF Len(h) = 1 THEN {One} ELSE {<< <<2, 1>>, <<1, 1>> >>, << <<1, 0>>, <<0, 1>> >>}
KalOps(st) == IF st.P = <<>> THEN << {<<"begin", << <<2, 1>>, <<1, 1>> >>, <<3, 4>> >>} >>
  ELSE << UNION {UNION {{WithR(st, F, H, << <<1, 0>>, <<0, 0>> >>, S) : S \in Ss(H)} : H \in Hs} : F \in Fs},
     IF st.F = <<>> THEN {} ELSE {LET w == WithR(st, st.F, st.H, st.Q, S) IN <<"model", <<>>, <<>>, <<>>, w[5]>> : S \in Ss(st.H)} \union {LET w == WithR(st, st.F, H, st.Q, S) IN <<"model", <<>>, H, <<>>, w[5]>> : H \in {H \in Hs : Len(H) = Len(st.H)}, S \in Ss(st.H)},
     IF st.F = <<>> \/ Len(st.y) = Len(st.H) THEN {} ELSE {<<"measure", SubSeq(<<5, 2>>, 1, Len(st.H)), SubSeq(<<1, 1>>, 1, Len(st.H)), <<7, -7>> >>},
     IF st.F = <<>> \/ ~Good(st) THEN {} ELSE {<<"P">>}, IF st.F = <<>> \/ ~Good(st) \/ Len(st.y) # Len(st.H) THEN {} ELSE {<<"x">>} >>
Gs == {<<0, 0, 0>>, <<3, 0, 0>>, <<0, -3, 0>>, <<2, 2, 1>>, <<0, 0, -1>>}
As == {<<0, 0, 0>>, <<0, 0, 2>>, <<0, -3, 4>>, <<4, 0, -3>>, <<1, 0, 0>>}
ImuOps(st) == << {<<"period", d>> : d \in {-1, 0, 1, 2}}, {<<"beta", b>> : b \in {-1, 0, 6, 8, 9}}, {<<"getBeta">>}, IF st.n \in {<<1, 0, 0, 0>>, <<0, 0, -1, 0>>} THEN {} ELSE {<<"quat", <<0, 0, -1, 0>> >>, <<"quat", <<1, 0, 0, 0>> >>},
   IF st.dt = 0 THEN {<<"attitude", <<0, 0, 0>>, <<0, 0, 0>> >>} ELSE {<<"attitude", a, g>> : a \in As, g \in Gs} \cap {o \in {<<"attitude", a, g>> : a \in As, g \in Gs} : Fine(st, o[2], o[3])}, IF st.out = <<>> THEN {} ELSE {<<"again">>} >>
Ops(st) == IF st.k = "none" THEN << {<<Profile>>} >> ELSE CASE Profile = "pd" -> PdOps(st) [] Profile = "gr" -> GrOps(st) [] Profile = "adm" -> AdmOps(st) [] Profile = "kalman" -> KalOps(st) [] Profile = "imu" -> ImuOps(st)
Bound(st) == CASE st.k = "kalman" -> st.n <= 2 /\ (st.P = <<>> \/ Small(st.P[1], 60)) [] st.k = "imu" -> N2(st.n) <= 25 [] OTHER -> TRUE
Inv(st) == (st.k = "imu" => IsSq(N2(st.n))) /\ (st.k = "adm" /\ Full(st) /\ st.on => \A i \in 1..6 : st.in.dqSaturation[i] >= 0)
        /\ (st.k = "kalman" /\ st.P # <<>> => st.P = Tran(st.P))               \* covariances stay symmetric
StepOK(st, o, r) ==
  /\ (o[1] = "get" /\ st.k = "adm" /\ st.on /\ o[2] = "w_dq" => \A i \in 1..6 : r.obs[2][i] <= st.in.dqSaturation[i] /\ r.obs[2][i] >= -st.in.dqSaturation[i])
  /\ (o[1] \in {"again", "same"} => r.st = st) /\ (r.obs[1] = "exc" => r.st = st)
  /\ (o[1] = "attitude" /\ st.dt # 0 => r.obs[2] > 0)
=============================================================================
