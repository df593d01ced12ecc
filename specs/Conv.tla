-------------------------------- MODULE Conv --------------------------------
(* Conversions between the two conventions of robot configurations: joints are
   permuted; the base is a position and either a rotation (quaternion) or roll,
   pitch and yaw, velocities of the base being in the base or in the world
   frame.  Angles are pairs (cosine, sine) in fifths, so that all is exact.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Profile
Fifths == {<<5, 0>>, <<0, 5>>, <<-5, 0>>, <<0, -5>>, <<3, 4>>, <<3, -4>>, <<-3, 4>>, <<-3, -4>>, <<4, 3>>, <<4, -3>>, <<-4, 3>>, <<-4, -3>>}
Few == {<<5, 0>>, <<0, -5>>, <<-5, 0>>, <<3, 4>>}
(* rotation of roll, then pitch, then yaw about the fixed axes, in 125ths *)
Rot(a) == LET r == a[1] p == a[2] y == a[3] cr == r[1] sr == r[2] cp == p[1] sp == p[2] cy == y[1] sy == y[2] IN
  << << 5*cy*cp, cy*sp*sr - 5*sy*cr, cy*sp*cr + 5*sy*sr >>,
     << 5*sy*cp, sy*sp*sr + 5*cy*cr, sy*sp*cr - 5*cy*sr >>,
     << -25*sp, 5*cp*sr, 5*cp*cr >> >>
Neg(a) == << -a[1], -a[2] >>
Twenty5(a) == << 5*a[1], 5*a[2] >>
Minus(a, b) == << a[1]*b[1] + a[2]*b[2], a[2]*b[1] - a[1]*b[2] >>        \* angles in 25ths
Plus(a, b) == << a[1]*b[1] - a[2]*b[2], a[2]*b[1] + a[1]*b[2] >>
(* the roll, pitch, yaw given back: pitch within a quarter-turn; no roll at the two poles *)
Canon(a) == LET r == a[1] p == a[2] y == a[3] IN
  IF p[1] > 0 THEN << Twenty5(r), Twenty5(p), Twenty5(y) >>
  ELSE IF p[1] < 0 THEN << Twenty5(Neg(r)), << -5*p[1], 5*p[2] >>, Twenty5(Neg(y)) >>
  ELSE << <<25, 0>>, Twenty5(p), IF p[2] > 0 THEN Minus(y, r) ELSE Plus(y, r) >>
Dot(u, v) == u[1]*v[1] + u[2]*v[2] + u[3]*v[3]
Mul(m, v) == << Dot(m[1], v), Dot(m[2], v), Dot(m[3], v) >>
T(m) == << <<m[1][1], m[2][1], m[3][1]>>, <<m[1][2], m[2][2], m[3][2]>>, <<m[1][3], m[2][3], m[3][3]>> >>
(* laws: rotations are orthogonal; the angles given back denote the same rotation *)
ASSUME \A r, p, y \in Fifths : LET m == Rot(<<r, p, y>>) IN
  \A i, j \in 1..3 : Dot(m[i], m[j]) = IF i = j THEN 125 * 125 ELSE 0
ASSUME \A r, p, y \in Fifths : LET c == Canon(<<r, p, y>>) IN
  /\ c[2][1] >= 0
  /\ (p[1] # 0 => Rot(<< << c[1][1] \div 5, c[1][2] \div 5>>, <<c[2][1] \div 5, c[2][2] \div 5>>, <<c[3][1] \div 5, c[3][2] \div 5>> >>) = Rot(<<r, p, y>>))
InitSt == [map |-> <<>>]
N(st) == Len(st.map)
ToSot(st, q) == [i \in 1..N(st) |-> q[CHOOSE k \in 1..N(st) : st.map[k] = i - 1]]
ToUrdf(st, q) == [i \in 1..N(st) |-> q[st.map[i] + 1]]
Lift(v) == << v[1], v[2], v[3] >>
No(st, obs) == [st |-> st, obs |-> obs]
Joints(st) == N(st) > 0
Apply(st, o) ==
  CASE o[1] = "map" -> [st |-> [map |-> o[3]], obs |-> <<"ok">>]
    [] o[1] = "ju2s" -> No(st, IF ~Joints(st) THEN <<"refused">> ELSE <<"ok", ToSot(st, o[2])>>)
    [] o[1] = "js2u" -> No(st, IF ~Joints(st) THEN <<"refused">> ELSE <<"ok", ToUrdf(st, o[2])>>)
    \* o[2]: roll, pitch, yaw of the base; o[3]: linear and o[4]: angular velocity; o[5]: velocities of the joints
    [] o[1] = "vu2s" -> No(st, IF ~Joints(st) THEN <<"refused">> ELSE <<"ok", Mul(Rot(o[2]), o[3]), Mul(Rot(o[2]), o[4]), ToSot(st, o[5])>>)
    [] o[1] = "vs2u" -> No(st, IF ~Joints(st) THEN <<"refused">> ELSE <<"ok", Mul(T(Rot(o[2])), o[3]), Mul(T(Rot(o[2])), o[4]), ToUrdf(st, o[5])>>)
    \* o[2]: angles, o[3]: position, o[4]: sign of the quaternion (or the way the rotation is given), o[5]: joints
    [] o[1] = "cu2s" -> No(st, <<"ok", o[3], Canon(o[2]), IF Joints(st) THEN ToSot(st, o[5]) ELSE <<>> >>)
    [] o[1] = "cs2u" -> No(st, <<"ok", o[3], Rot(o[2]), IF Joints(st) THEN ToUrdf(st, o[5]) ELSE <<>> >>)
    [] o[1] = "bu2s" -> No(st, <<"ok", o[3], Canon(o[2])>>)        \* o[4]: "q", "-q" quaternion and its opposite, "R" the matrix
    [] o[1] = "bs2u" -> No(st, <<"ok", o[3], Rot(o[2])>>)
Maps == {<<>>, <<0>>, <<1, 0>>, <<0, 1, 2>>, <<2, 0, 1>>, <<1, 2, 0>>, <<0, 2, 1>>}
Q(n) == [i \in 1..n |-> 10 * i - 7]
Ops(st) == <<
  {<<"map", k, m>> : k \in {"std", "dg"}, m \in Maps},
  {<<"ju2s", Q(N(st))>>, <<"js2u", Q(N(st))>>},
  IF Profile = "joints" THEN {<<d, <<r, p, y>>, <<1, -2, 3>>, <<0, 4, -1>>, Q(N(st))>> : d \in {"vu2s", "vs2u"}, r, y \in Few, p \in {<<5, 0>>, <<3, -4>>}} ELSE {},
  IF Profile = "joints" THEN {<<d, <<r, p, y>>, <<7, -2, 3>>, k, Q(N(st))>> : d \in {"cu2s", "cs2u"}, r, y \in Few, p \in {<<0, 5>>, <<-3, -4>>}, k \in {1, -1}} ELSE {},
  IF Profile = "base" /\ st = InitSt THEN {<<"bu2s", <<r, p, y>>, <<7, -2, 3>>, k>> : r, p, y \in Fifths, k \in {"q", "-q", "R"}} ELSE {},
  IF Profile = "base" /\ st = InitSt THEN {<<"bs2u", <<r, p, y>>, <<7, -2, 3>> >> : r, p, y \in Fifths} ELSE {} >>
Bound(st) == TRUE
Inv(st) == {st.map[i] : i \in DOMAIN st.map} = 0..(N(st) - 1)
StepOK(st, o, r) == /\ (o[1] = "ju2s" /\ Joints(st)) => ToUrdf(st, r.obs[2]) = o[2]
                    /\ (o[1] = "js2u" /\ Joints(st)) => ToSot(st, r.obs[2]) = o[2]
=============================================================================
