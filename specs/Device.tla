------------------------------- MODULE Device ------------------------------
(* The robot as a device: at each period it evaluates the control, integrates
   it once, twice or not at all, within the bounds of the robot, and publishes
   its new state.  Positions and velocities are in 1/32; commands are integers;
   rotations are multiples of quarter turns; a period lasts k quarters.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Profile
Id3 == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
Zero(n) == [k \in 1..n |-> 0]
NoB == [n |-> -1, lo |-> <<>>, hi |-> <<>>]
InitSt == [n |-> 6, x |-> <<0, 0, 0>>, R |-> Id3, j |-> <<>>, v |-> Zero(6), vs |-> Zero(6), mode |-> 1, sane |-> TRUE,
           pb |-> NoB, vb |-> NoB, tb |-> -1, u |-> <<"unset", <<>> >>, t |-> 0, fb |-> FALSE, fa |-> FALSE, prev |-> -1, mot |-> FALSE, sens |-> FALSE, dt |-> 1]
Mod4(a) == a % 4
Cosq(a) == CASE Mod4(a) = 0 -> 1 [] Mod4(a) = 2 -> -1 [] OTHER -> 0
Sinq(a) == CASE Mod4(a) = 1 -> 1 [] Mod4(a) = 3 -> -1 [] OTHER -> 0
Rot(axis, a) == LET c == Cosq(a)  s == Sinq(a) IN
  CASE axis = 1 -> << <<1, 0, 0>>, <<0, c, -s>>, <<0, s, c>> >>
    [] axis = 2 -> << <<c, 0, s>>, <<0, 1, 0>>, <<-s, 0, c>> >>
    [] axis = 3 -> << <<c, -s, 0>>, <<s, c, 0>>, <<0, 0, 1>> >>
Mul(A, B) == [i \in 1..3 |-> [k \in 1..3 |-> A[i][1] * B[1][k] + A[i][2] * B[2][k] + A[i][3] * B[3][k]]]
MulV(A, v) == [i \in 1..3 |-> A[i][1] * v[1] + A[i][2] * v[2] + A[i][3] * v[3]]
Rpy(r, p, y) == Mul(Mul(Rot(3, y), Rot(2, p)), Rot(1, r))
Turn(w, m) == Mul(Mul(Rot(1, w[1] * m), Rot(2, w[2] * m)), Rot(3, w[3] * m))     \* w has at most one component
Sat(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Ang(i) == i \in 4..6                                            \* the free orientation is never bounded here
\* coordinate of the robot moved by the component i of a command of length l
Coord(st, i, l) == st.n - l + i
LimV(st, c) == IF st.sane /\ st.vb.n = st.n
  THEN [i \in DOMAIN c |-> LET k == Coord(st, i, Len(c)) IN IF Ang(k) THEN c[i] ELSE Sat(c[i], 32 * st.vb.lo[k], 32 * st.vb.hi[k])] ELSE c
LimX(st) == IF st.sane /\ st.pb.n = st.n
  THEN [st EXCEPT !.x = [i \in 1..3 |-> Sat(@[i], 32 * st.pb.lo[i], 32 * st.pb.hi[i])], !.j = [i \in DOMAIN @ |-> Sat(@[i], 32 * st.pb.lo[i + 6], 32 * st.pb.hi[i + 6])]] ELSE st
\* move by the velocity c during k quarters
Move(st, c, k) ==
  LET l == Len(c)
      ff == l = st.n
      w == <<c[4] \div 32, c[5] \div 32, c[6] \div 32>>
      turning == ff /\ (c[4] # 0 \/ c[5] # 0 \/ c[6] # 0)
      d(i) == (c[i] * k) \div 4
      joints == [i \in DOMAIN st.j |-> LET p == i + 6 - (st.n - l) IN IF p < 1 THEN st.j[i] ELSE st.j[i] + d(p)]
      s1 == IF ~ff THEN st ELSE IF turning THEN [st EXCEPT !.R = Mul(@, [q \in 1..3 |-> [s \in 1..3 |-> Turn([z \in 1..3 |-> (w[z] * k) \div 4], 1)[q][s]]])]
            ELSE [st EXCEPT !.x = LET m == MulV(st.R, <<d(1), d(2), d(3)>>) IN [i \in 1..3 |-> st.x[i] + m[i]]]
  IN [s1 EXCEPT !.j = joints]
Integrate(st, k) == LET c == st.u[2]  l == Len(c) IN
  IF st.u[1] = "nan" THEN st                                     \* refused by the checks
  ELSE IF st.mode = 0 THEN
    LimX([st EXCEPT !.x = IF l = st.n THEN <<c[1], c[2], c[3]>> ELSE @, !.R = IF l = st.n THEN Rpy(c[4] \div 32, c[5] \div 32, c[6] \div 32) ELSE @,
                    !.j = [i \in DOMAIN @ |-> LET p == i + 6 - (st.n - l) IN IF p < 1 THEN @[i] ELSE c[p]]])
  ELSE IF st.mode = 1 THEN LimX(Move([st EXCEPT !.v = IF st.sane /\ st.vb.n = Len(st.v) THEN LimV(st, @) ELSE @], LimV(st, c), k))
  ELSE LET off == Len(st.v) - l
           avg == [i \in 1..l |-> st.v[off + i] + (c[i] * k) \div 8]
           new == [i \in DOMAIN st.v |-> IF i <= off THEN st.v[i] ELSE st.v[i] + (c[i - off] * k) \div 4]
           lim == IF st.sane /\ st.vb.n = Len(st.v) THEN [i \in DOMAIN new |-> IF Ang(i) THEN new[i] ELSE Sat(new[i], 32 * st.vb.lo[i], 32 * st.vb.hi[i])] ELSE new
       IN LimX(Move([st EXCEPT !.v = lim], avg, k))
Inc(st, k) ==
  IF st.u[1] = "unset" THEN [st |-> st, obs |-> <<"exc", "dg", st.t + 1>>]
  ELSE LET s1 == Integrate(st, k)
           s2 == [s1 EXCEPT !.t = st.t + 1, !.mot = TRUE, !.sens = TRUE, !.vs = CASE st.mode = 2 -> s1.v [] st.mode = 1 -> (IF st.u[1] = "nan" THEN <<>> ELSE st.u[2]) [] OTHER -> @]
       IN [st |-> s2, obs |-> <<"ok", st.t + 1, st.t, st.t + 1, st.t + 1>>]
Put(st) == [st |-> st, obs |-> <<"ok">>]
No(st, obs) == [st |-> st, obs |-> obs]
Refuse(st) == No(st, <<"exc", "invalid_argument">>)
Zeroed(st) == [st EXCEPT !.v = Zero(st.n), !.vs = Zero(st.n)]
Checks(st, n) == (st.mode = 2 => st.tb = n) /\ (st.mode >= 1 => st.vb.n = n)
Pose(st) == <<st.x, st.R, st.j>>
S32(v) == [k \in DOMAIN v |-> 32 * v[k]]
SetState(st, q, R) == IF st.sane /\ ~Checks(st, Len(q)) THEN Refuse(st)
  ELSE Put([st EXCEPT !.n = Len(q), !.x = <<q[1], q[2], q[3]>>, !.R = R, !.j = SubSeq(q, 7, Len(q)), !.mot = TRUE])
Bounds(st, w, lo, hi) == LET n == IF w = "vel" THEN Len(st.v) ELSE st.n IN
  IF Len(lo) # n \/ Len(hi) # n THEN Refuse(st)
  ELSE LET b == [n |-> n, lo |-> lo, hi |-> hi] IN
       Put(CASE w = "pos" -> [st EXCEPT !.pb = b] [] w = "vel" -> [st EXCEPT !.vb = b] [] w = "tor" -> [st EXCEPT !.tb = n])
Apply(st, o) ==
  CASE o[1] = "unit" -> Put(st)     \* lengths and joints are given, and read, in another unit
    [] o[1] = "resize" -> Put([st EXCEPT !.n = o[2], !.x = <<0, 0, 0>>, !.R = Id3, !.j = Zero(o[2] - 6), !.v = Zero(o[2]), !.vs = Zero(o[2]), !.prev = o[2], !.mot = TRUE])
    [] o[1] = "set" -> LET q == S32(o[2]) IN SetState(st, q, Rpy(o[2][4], o[2][5], o[2][6]))
    [] o[1] = "root" -> LET q == S32(o[2]) \o <<0, 0, 0>> \o st.j IN SetState(st, q, o[3])
    [] o[1] = "setvel" -> Put([st EXCEPT !.v = S32(o[2]), !.vs = S32(o[2])])
    [] o[1] = "second" -> Put(Zeroed([st EXCEPT !.mode = 2]))
    [] o[1] = "none" -> Put(Zeroed([st EXCEPT !.mode = 0]))
    [] o[1] = "type" -> Put(CASE o[2] = "noInteg" -> [st EXCEPT !.mode = 0] [] o[2] = "oneInteg" -> [st EXCEPT !.mode = 1] [] o[2] = "twoInteg" -> [st EXCEPT !.mode = 2] [] OTHER -> st)
    [] o[1] = "sanity" -> IF o[2] /\ ~(Checks(st, st.n) /\ st.pb.n = st.n) THEN Refuse(st) ELSE Put([st EXCEPT !.sane = o[2]])
    [] o[1] = "bounds" -> Bounds(st, o[2], o[3], o[4])
    [] o[1] = "u" -> Put([st EXCEPT !.u = <<"on", S32(o[2])>>])
    [] o[1] = "nan" -> Put([st EXCEPT !.u = <<"nan", <<>> >>])
    [] o[1] = "fail" -> Put(IF o[2] = "before" THEN [st EXCEPT !.fb = o[3] # ""] ELSE [st EXCEPT !.fa = o[3] # ""])   \* an error in a periodic call is not fatal
    [] o[1] = "inc" -> Inc(st, o[2])
    [] o[1] = "dt" -> Put([st EXCEPT !.dt = o[2]])                 \* period of a simulated robot, in thousandths
    [] o[1] = "getdt" -> No(st, <<"ok", st.dt>>)
    [] o[1] = "get" -> No(st, CASE o[2] = "state" -> <<"ok", Pose(st)>>
                               [] o[2] = "motor" -> IF st.mot THEN <<"ok", Pose(st)>> ELSE <<"ok", "none">>
                               [] o[2] = "vel" -> <<"ok", st.vs>>
                               [] o[2] = "sensors" -> <<"ok", IF st.prev < 0 THEN 0 ELSE st.prev, IF st.sens THEN 6 ELSE 0>>)
P(x) == Profile = x
B8 == <<"bounds", "pos", <<-9, -9, -9, 0, 0, 0, -2, -1>>, <<9, 9, 9, 0, 0, 0, 2, 1>> >>
V8 == <<"bounds", "vel", <<-1, -9, -9, 0, 0, 0, -1, -2>>, <<1, 9, 9, 0, 0, 0, 1, 2>> >>
T8 == <<"bounds", "tor", <<0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 0>> >>
Ops(st) == IF st.prev < 0 THEN << {<<"resize", 8>>} >> ELSE
  CASE P("checks") -> << {<<"resize", 7>>, <<"resize", 8>>}, {<<"set", <<1, 2, 3, 0, 1, 0, 1, 1>> >>}, {B8, V8, T8}, {<<"sanity", b>> : b \in BOOLEAN}, {<<"second">>, <<"none">>, <<"type", "oneInteg">>, <<"type", "bad">>}, {<<"get", "state">>, <<"get", "sensors">>} >>
    [] P("one") -> << {B8, V8}, {<<"u", <<3, -1>> >>, <<"u", <<2, 0, 0, 0, 0, 0, 1, 1>> >>, <<"u", <<0, 0, 0, 0, 0, 4, 0, 0>> >>, <<"nan">>}, {<<"inc", 4>>}, {<<"get", g>> : g \in {"state", "vel", "motor"}} >>
    [] P("two") -> << {<<"second">>}, {B8, V8}, {<<"u", <<3, -1>> >>, <<"u", <<2, 0, 0, 0, 0, 0, -1, 1>> >>}, {<<"inc", 4>>, <<"inc", 2>>}, {<<"get", g>> : g \in {"state", "vel"}} >>
    [] P("simu") -> << {<<"dt", d>> : d \in {1, 5, 20}}, {<<"getdt">>}, {V8, B8}, {<<"u", <<3, -1>> >>, <<"u", <<0, 0, 0, 0, 0, 4, 0, 0>> >>}, {<<"inc", 4>>, <<"inc", 2>>}, {<<"get", "state">>} >>
    [] OTHER -> << {<<"none">>}, {B8}, {<<"u", <<3, -1>> >>, <<"nan">>} \cup (IF st.mode = 0 THEN {<<"u", <<5, 10, 0, 1, 0, 2, 1, 2>> >>} ELSE {}), {<<"inc", 4>>}, {<<"root", <<1, 2, 3>>, Rot(3, 1)>>}, {<<"fail", "before", "std">>, <<"fail", "after", "int">>}, {<<"get", g>> : g \in {"state", "vel", "motor", "sensors"}} >>
Bound(st) == st.t <= (IF P("one") THEN 3 ELSE IF P("two") THEN 2 ELSE 1) /\ st.dt <= 20
Inv(st) == Len(st.j) = st.n - 6 /\ Mul(st.R, [i \in 1..3 |-> [k \in 1..3 |-> st.R[k][i]]]) = Id3
\* within bounds after every period, as soon as checks are on and bounds are set
StepOK(st, o, r) == (o[1] = "inc" /\ r.obs[1] = "ok" /\ st.sane /\ st.pb.n = st.n /\ st.u[1] = "on") =>
   \A i \in DOMAIN r.st.j : 32 * st.pb.lo[i + 6] <= r.st.j[i] /\ r.st.j[i] <= 32 * st.pb.hi[i + 6]
=============================================================================
