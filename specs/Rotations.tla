----------------------------- MODULE Rotations -----------------------------
(* Conversions of rotations and poses (module matrix_util).  Angles are those
   whose cosine and sine are multiples of 1/5: pairs <<5 cos, 5 sin>>, so every
   matrix is exact: a product of three rotations is in units of 1/125.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Angles
Quarter == {<<5, 0>>, <<0, 5>>, <<-5, 0>>, <<0, -5>>}
AllAngles == Quarter \cup {<<c, s>> : c \in {3, -3}, s \in {4, -4}} \cup {<<c, s>> : c \in {4, -4}, s \in {3, -3}}
SmallAngles == Quarter \cup {<<3, 4>>, <<-4, 3>>, <<4, -3>>}
InitSt == "start"
M3(f(_, _)) == << <<f(1, 1), f(1, 2), f(1, 3)>>, <<f(2, 1), f(2, 2), f(2, 3)>>, <<f(3, 1), f(3, 2), f(3, 3)>> >>
RotX(a) == << <<5, 0, 0>>, <<0, a[1], -a[2]>>, <<0, a[2], a[1]>> >>
RotY(a) == << <<a[1], 0, a[2]>>, <<0, 5, 0>>, <<-a[2], 0, a[1]>> >>
RotZ(a) == << <<a[1], -a[2], 0>>, <<a[2], a[1], 0>>, <<0, 0, 5>> >>
Rot(x, a) == CASE x = "x" -> RotX(a) [] x = "y" -> RotY(a) [] x = "z" -> RotZ(a)
Mul(A, B) == LET m(i, j) == A[i][1] * B[1][j] + A[i][2] * B[2][j] + A[i][3] * B[3][j] IN M3(m)
Transp(A) == LET m(i, j) == A[j][i] IN M3(m)
Scale(k, A) == LET m(i, j) == k * A[i][j] IN M3(m)
Det(A) == A[1][1] * (A[2][2] * A[3][3] - A[2][3] * A[3][2]) - A[1][2] * (A[2][1] * A[3][3] - A[2][3] * A[3][1]) + A[1][3] * (A[2][1] * A[3][2] - A[2][2] * A[3][1])
Id == LET m(i, j) == IF i = j THEN 1 ELSE 0 IN M3(m)
Flat3(A) == [k \in 1..9 |-> A[((k - 1) \div 3) + 1][((k - 1) % 3) + 1]]
(* 4x4 with translation t, unit u, row by row *)
Homo(A, t, u) == <<A[1][1], A[1][2], A[1][3], u * t[1], A[2][1], A[2][2], A[2][3], u * t[2], A[3][1], A[3][2], A[3][3], u * t[3], 0, 0, 0, u>>
(* roll about x first, then pitch about y, then yaw about z *)
Rpy(r, p, y) == Mul(RotZ(y), Mul(RotY(p), RotX(r)))
Canonical(r, p, y) == p[1] > 0 \/ (p[1] = 0 /\ y = <<5, 0>>)      \* the solution that is reported
(* rotation of the unit quaternion q / k, through v -> q v q* *)
QMul(a, b) == <<a[4]*b[1] + a[1]*b[4] + a[2]*b[3] - a[3]*b[2], a[4]*b[2] - a[1]*b[3] + a[2]*b[4] + a[3]*b[1], a[4]*b[3] + a[1]*b[2] - a[2]*b[1] + a[3]*b[4], a[4]*b[4] - a[1]*b[1] - a[2]*b[2] - a[3]*b[3]>>
Conj(a) == <<-a[1], -a[2], -a[3], a[4]>>
E3(j) == <<IF j = 1 THEN 1 ELSE 0, IF j = 2 THEN 1 ELSE 0, IF j = 3 THEN 1 ELSE 0, 0>>
QMat(q) == LET col(j) == QMul(QMul(q, E3(j)), Conj(q))  m(i, j) == col(j)[i] IN M3(m)
Look(st, obs) == [st |-> st, obs |-> obs]
Apply(st, o) ==
  CASE o[1] = "rotate" -> Look(st, Homo(Rot(o[2], o[3]), <<0, 0, 0>>, 5))
    [] o[1] = "rpy2tr" -> Look(st, <<TRUE, Homo(Rpy(o[2][1], o[2][2], o[2][3]), <<0, 0, 0>>, 125)>>)
    [] o[1] = "toMatrix" -> Look(st, << <<4, 4>>, Homo(Rpy(o[4][1], o[4][2], o[4][3]), o[3], 125)>>)
    \* o[3] is the matrix of the pose o[4], o[5]
    [] o[1] = "toRPY" -> Look(st, IF o[3] # Homo(Rpy(o[5][1], o[5][2], o[5][3]), o[4], 125) \/ ~Canonical(o[5][1], o[5][2], o[5][3]) THEN <<"badop">>
                                  ELSE <<125 * o[4][1], 125 * o[4][2], 125 * o[4][3], o[5][1], o[5][2], o[5][3]>>)
    \* to roll, pitch, yaw and back, with a pitch within o[3]/10000 of the singularity
    [] o[1] = "near" -> Look(st, LET A == Rpy(o[4], <<0, 5 * o[2]>>, o[5])  m(i, j) == A[i][j] \div 5 IN Homo(M3(m), <<1, 2, 3>>, 25))
    [] o[1] = "dist" -> Look(st, <<o[4][4] - o[3][4], o[4][8] - o[3][8], o[4][12] - o[3][12]>>)
    [] o[1] = "quat" -> Look(st, Flat3(QMat(o[2])))
    [] o[1] = "ortho" -> Look(st, <<Flat3(Id), 1, o[2]>>)
    [] o[1] = "mtup" -> Look(st, <<TRUE, o[3]>>)
    [] o[1] = "vtup" -> Look(st, <<TRUE, o[3]>>)
Angs == IF Angles = "all" THEN AllAngles ELSE SmallAngles
Quats == {<<1, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, -1, 0, 0>>, <<3, 0, 4, 0>>, <<0, 0, -3, 4>>, <<1, 2, 2, 4>>, <<-2, 1, 4, 2>>, <<4, 2, -2, 1>>, <<2, 4, 5, 6>>, <<-6, 5, 4, -2>>, <<1, 1, 1, 1>>, <<1, -1, 1, -1>>, <<1, 1, 3, 5>>, <<5, -3, -1, 1>>}
SqN(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
Root(n) == CHOOSE k \in 1..100 : k * k = n
Dirs == {<<1, 0, 0>>, <<0, -2, 0>>, <<2, 3, 6>>, <<-1, 2, 2>>, <<4, -4, 7>>, <<0, 3, -4>>}
Norm3(v) == Root(v[1] * v[1] + v[2] * v[2] + v[3] * v[3])
Poses == {<<r, p, y>> : r \in Angs, p \in Angs, y \in Angs}
Ops(st) == << {<<"rotate", x, a>> : x \in {"x", "y", "z"}, a \in AllAngles}, {<<"rpy2tr", w>> : w \in Poses}, {<<"toMatrix", f, <<1, -2, 3>>, w>> : f \in {"list", "array", "tuple"}, w \in Poses},
    {<<"toRPY", f, Homo(Rpy(w[1], w[2], w[3]), <<3, 0, -7>>, 125), <<3, 0, -7>>, w>> : f \in {"tuple", "array"}, w \in {v \in Poses : Canonical(v[1], v[2], v[3])}},
    {<<"near", g, d, r, y>> : g \in {1, -1}, d \in {0, 5, 9, 11, 20}, r \in Angs, y \in Angs}, {<<"quat", q, Root(SqN(q))>> : q \in Quats}, {<<"ortho", v, Norm3(v), s>> : v \in Dirs, s \in 1..20},
    {<<"dist", "tuple", Homo(Id, a, 125), Homo(Id, b, 125)>> : a \in {<<1, 2, 3>>}, b \in {<<0, 0, 0>>, <<5, -4, 9>>}},
    {<<"mtup", f, <<<<1, 2>>, <<3, 4>>, <<5, 6>> >>, b>> : f \in {"matrix", "array"}, b \in BOOLEAN}, {<<"vtup", f, v>> : f \in {"flat", "rowm", "colm", "row", "col"}, v \in {<<1>>, <<3, 1, 2>>} } >>
Bound(st) == TRUE
Inv(st) == TRUE
ASSUME /\ \A w \in {<<r, p, y>> : r \in SmallAngles, p \in SmallAngles, y \in Quarter} : LET A == Rpy(w[1], w[2], w[3]) IN Mul(A, Transp(A)) = Scale(125 * 125, Id) /\ Det(A) = 125 * 125 * 125
           /\ \A q \in Quats : LET A2 == QMat(q)  N == SqN(q) IN Mul(A2, Transp(A2)) = Scale(N * N, Id) /\ Det(A2) = N * N * N
StepOK(st, o, r) == r.obs # <<"badop">>
=============================================================================
