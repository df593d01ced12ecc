----------------------------- MODULE Operators -----------------------------
(* The entities that compute a function of their inputs: selection, stacking,
   algebra, conversions of rotations and poses, comparison, logic, temporal
   convolution, and entities with any number of inputs; constants; change of
   operational point.  Rotations are matrices in 1/D; quaternions in halves.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Profile
D == 125
P0 == [segs |-> <<>>, r |-> <<0, 0>>, c |-> <<0, 0>>, j |-> 0, g |-> <<1, 1>>, any |-> TRUE, eq |-> FALSE, k |-> <<>>]
InitSt == [cls |-> "", names |-> <<>>, has |-> <<>>, ins |-> <<>>, p |-> P0, mem |-> <<>>]
No(st, obs) == [st |-> st, obs |-> obs]
Ok(st) == No(st, <<"ok">>)
Dg(st) == No(st, <<"exc", "dg">>)
(* --- algebra *)
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
SumOf(s) == Sum(s, Len(s))
Cols(m) == IF m = <<>> THEN 0 ELSE Len(m[1])
Add(u, v) == [i \in DOMAIN u |-> u[i] + v[i]]
Times(k, v) == [i \in DOMAIN v |-> k * v[i]]
MTimes(k, m) == [i \in DOMAIN m |-> Times(k, m[i])]
MAdd(a, b) == [i \in DOMAIN a |-> Add(a[i], b[i])]
MV(m, v) == [i \in DOMAIN m |-> SumOf([j \in DOMAIN v |-> m[i][j] * v[j]])]
Tran(m) == [j \in 1..Cols(m) |-> [i \in DOMAIN m |-> m[i][j]]]
MM(a, b) == [i \in DOMAIN a |-> [j \in 1..Cols(b) |-> SumOf([k \in DOMAIN b |-> a[i][k] * b[k][j]])]]
Eye(n, k) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN k ELSE 0]]
Det2(m) == m[1][1] * m[2][2] - m[1][2] * m[2][1]
Minor(m, i, j) == LET o(k) == IF k = 1 THEN <<2, 3>> ELSE IF k = 2 THEN <<1, 3>> ELSE <<1, 2>>
  IN m[o(i)[1]][o(j)[1]] * m[o(i)[2]][o(j)[2]] - m[o(i)[1]][o(j)[2]] * m[o(i)[2]][o(j)[1]]
Sg(i, j) == IF (i + j) % 2 = 0 THEN 1 ELSE -1
Adj(m) == IF Len(m) = 1 THEN << <<1>> >> ELSE IF Len(m) = 2 THEN << <<m[2][2], -m[1][2]>>, <<-m[2][1], m[1][1]>> >>
          ELSE [i \in 1..3 |-> [j \in 1..3 |-> Sg(i, j) * Minor(m, j, i)]]
Det(m) == IF Len(m) = 1 THEN m[1][1] ELSE IF Len(m) = 2 THEN Det2(m) ELSE SumOf([j \in 1..3 |-> m[1][j] * Sg(1, j) * Minor(m, 1, j)])
InvM(m) == MTimes(Det(m), Adj(m))                      \* for determinants 1 and -1
Rt(h) == [i \in 1..3 |-> SubSeq(h[i], 1, 3)]           \* of a homogeneous matrix: rotation
Tl(h) == [i \in 1..3 |-> h[i][4]]                      \* and translation
Hm(r, t) == [i \in 1..3 |-> Append(r[i], t[i])]
Skew(t) == << <<0, -t[3], t[2]>>, <<t[3], 0, -t[1]>>, <<-t[2], t[1], 0>> >>
Blocks(a, b, c, d) == [i \in 1..6 |-> IF i <= 3 THEN a[i] \o b[i] ELSE c[i - 3] \o d[i - 3]]
Z3 == Eye(3, 0)
Neg(m) == MTimes(-1, m)
RX(a) == << <<5, 0, 0>>, <<0, a[1], -a[2]>>, <<0, a[2], a[1]>> >>        \* a: five times the cosine and the sine
RY(a) == << <<a[1], 0, a[2]>>, <<0, 5, 0>>, <<-a[2], 0, a[1]>> >>
RZ(a) == << <<a[1], -a[2], 0>>, <<a[2], a[1], 0>>, <<0, 0, 5>> >>
RPY(a) == MM(RZ(a[3]), MM(RY(a[2]), RX(a[1])))                            \* in 1/D
Outer(a) == [i \in 1..3 |-> [j \in 1..3 |-> a[i] * a[j]]]
Half(m) == [i \in DOMAIN m |-> [j \in DOMAIN m[i] |-> m[i][j] \div 2]]
Quarter(k) == LET q == k % 4 IN << <<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>> >>[q + 1]
UT(a, k, n) ==                                                            \* turn of k/n around a: quarters around axes, thirds around diagonals of cubes, halves around diagonals of squares
  MTimes(D, CASE n = 4 -> LET c == Quarter(k)[1] s == Quarter(k)[2] IN MAdd(MAdd(Eye(3, c), MTimes(s, Skew(a))), MTimes(1 - c, Outer(a)))
       [] n = 3 -> IF k % 3 = 0 THEN Eye(3, 1) ELSE Half(MAdd(MAdd(Eye(3, -1), MTimes(IF k % 3 = 1 THEN 1 ELSE -1, Skew(a))), Outer(a)))
       [] n = 2 -> IF k % 2 = 0 THEN Eye(3, 1) ELSE MAdd(Eye(3, -1), Outer(a)))
QM(q) ==                                                                  \* rotation of the quaternion q / 2
  LET w == q[1] x == q[2] y == q[3] z == q[4] IN
  [i \in 1..3 |-> [j \in 1..3 |-> (D * (<< <<w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y)>>, <<2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x)>>, <<2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z>> >>[i][j])) \div 4]]
QQ(p, q) == <<p[1]*q[1]-p[2]*q[2]-p[3]*q[3]-p[4]*q[4], p[1]*q[2]+p[2]*q[1]+p[3]*q[4]-p[4]*q[3], p[1]*q[3]-p[2]*q[4]+p[3]*q[1]+p[4]*q[2], p[1]*q[4]+p[2]*q[3]-p[3]*q[2]+p[4]*q[1]>>
Norm2(v) == SumOf([i \in DOMAIN v |-> v[i] * v[i]])
(* --- one input *)
Cut(v, s) == SubSeq(v, s[1] + 1, s[2])
RECURSIVE CatAll(_, _)
CatAll(v, ss) == IF ss = <<>> THEN <<>> ELSE Cut(v, ss[1]) \o CatAll(v, Tail(ss))
Unary == {"Selec_of_vector", "Component_of_vector", "Selec_of_matrix", "Selec_column_of_matrix", "MatrixTranspose", "MatrixDiagonal", "Inverse_of_matrix", "Inverse_of_matrixHomo", "Inverse_of_matrixtwist",
  "Norm_of_vector", "Inverse_of_matrixrotation", "Inverse_of_unitquat", "MatrixHomoToPoseUTheta", "MatrixHomoToSE3Vector", "SE3VectorToMatrixHomo", "SkewSymToVector", "PoseUThetaToMatrixHomo",
  "MatrixHomoToPoseQuaternion", "PoseQuaternionToMatrixHomo", "MatrixHomoToPoseRollPitchYaw", "PoseRollPitchYawToMatrixHomo", "PoseRollPitchYawToPoseUTheta", "HomoToMatrix", "MatrixToHomo", "HomoToTwist",
  "HomoToRotation", "MatrixHomoToPose", "RPYToMatrix", "MatrixToRPY", "RPYToQuaternion", "QuaternionToRPY", "QuaternionToMatrix", "MatrixToQuaternion", "MatrixToUTheta", "UThetaToQuaternion"}
Diag(p, v) == LET n == IF p.r[1] # 0 /\ p.r[2] # 0 THEN p.r ELSE <<Len(v), Len(v)>> IN [i \in 1..n[1] |-> [j \in 1..n[2] |-> IF i = j /\ i <= Len(v) THEN v[i] ELSE 0]]
Pose(h) == Hm(Rt(h), Times(D, Tl(h)))
F1(c, p, x) ==
  CASE c = "Selec_of_vector" -> CatAll(x, p.segs)
    [] c = "Component_of_vector" -> x[p.j + 1]
    [] c = "Selec_of_matrix" -> [i \in 1..(p.r[2] - p.r[1]) |-> Cut(x[p.r[1] + i], p.c)]
    [] c = "Selec_column_of_matrix" -> [i \in 1..(p.r[2] - p.r[1]) |-> x[p.r[1] + i][p.j + 1]]
    [] c = "MatrixTranspose" -> Tran(x)
    [] c = "MatrixDiagonal" -> Diag(p, x)
    [] c = "Inverse_of_matrix" -> InvM(x)
    [] c = "Inverse_of_matrixHomo" -> Hm(Tran(Rt(x)), Times(-1, MV(Tran(Rt(x)), Tl(x))))       \* translations of homogeneous matrices are whole numbers, of results in 1/D
    [] c = "Inverse_of_matrixtwist" -> LET r == [i \in 1..3 |-> SubSeq(x[i], 1, 3)] s == [i \in 1..3 |-> SubSeq(x[i], 4, 6)] IN   \* in 1/D^3
         Blocks(MTimes(D * D, Tran(r)), Neg(MM(Tran(r), MM(s, Tran(r)))), Z3, MTimes(D * D, Tran(r)))
    [] c = "Norm_of_vector" -> CHOOSE n \in 0..SumOf([i \in DOMAIN x |-> IF x[i] < 0 THEN -x[i] ELSE x[i]]) : n * n = Norm2(x)
    [] c = "Inverse_of_matrixrotation" -> Tran(x)
    [] c = "Inverse_of_unitquat" -> <<x[1], -x[2], -x[3], -x[4]>>
    [] c \in {"MatrixHomoToPoseUTheta", "MatrixHomoToPoseQuaternion", "MatrixHomoToPoseRollPitchYaw", "HomoToMatrix", "MatrixToHomo", "MatrixHomoToSE3Vector", "SE3VectorToMatrixHomo"} -> Pose(x)   \* the same pose
    [] c = "SkewSymToVector" -> x                                                              \* given the vector, the input is its skew symmetric matrix
    [] c = "PoseUThetaToMatrixHomo" -> Hm(UT(SubSeq(x, 4, 6), x[7], x[8]), Times(D, SubSeq(x, 1, 3)))
    [] c = "PoseQuaternionToMatrixHomo" -> Hm(QM(SubSeq(x, 4, 7)), Times(D, SubSeq(x, 1, 3)))
    [] c \in {"PoseRollPitchYawToMatrixHomo", "PoseRollPitchYawToPoseUTheta"} -> Hm(RPY(x[2]), Times(D, x[1]))
    [] c = "HomoToTwist" -> Blocks(Rt(x), MM(Skew(Tl(x)), Rt(x)), Z3, Rt(x))
    [] c = "HomoToRotation" -> Rt(x)
    [] c = "MatrixHomoToPose" -> Times(D, Tl(x))
    [] c \in {"RPYToMatrix", "RPYToQuaternion"} -> RPY(x)
    [] c \in {"MatrixToRPY", "MatrixToQuaternion", "MatrixToUTheta"} -> x
    [] c \in {"QuaternionToRPY", "QuaternionToMatrix"} -> QM(x)
    [] c = "UThetaToQuaternion" -> UT(SubSeq(x, 1, 3), x[4], x[5])
(* --- two inputs *)
Binary == {"Multiply_double_vector", "Multiply_matrix_vector", "Multiply_matrixHomo_vector", "Multiply_matrixTwist_vector", "Substract_of_matrix", "Substract_of_vector", "Substract_of_double", "Stack_of_vector",
  "Compose_R_and_T", "ConvolutionTemporal", "CompareDouble", "CompareVector", "WeightAdd_of_matrix", "WeightAdd_of_vector", "WeightAdd_of_double"}
Cmp(p, x, y) == LET ok(i) == IF p.eq THEN x[i] <= y[i] ELSE x[i] < y[i] IN IF p.any THEN \E i \in DOMAIN x : ok(i) ELSE \A i \in DOMAIN x : ok(i)
F2(c, p, x, y) ==
  CASE c = "Multiply_double_vector" -> Times(x, y)
    [] c \in {"Multiply_matrix_vector", "Multiply_matrixTwist_vector"} -> MV(x, y)
    [] c = "Multiply_matrixHomo_vector" -> Append([i \in 1..3 |-> SumOf([j \in 1..3 |-> x[i][j] * y[j]]) + D * x[i][4] * y[4]], D * y[4])
    [] c = "Substract_of_matrix" -> MAdd(x, Neg(y))
    [] c = "Substract_of_vector" -> Add(x, Times(-1, y))
    [] c = "Substract_of_double" -> x - y
    [] c = "Stack_of_vector" -> Cut(x, p.r) \o Cut(y, p.c)
    [] c = "Compose_R_and_T" -> Hm(x, Times(D, y))
    [] c = "CompareDouble" -> x < y
    [] c = "CompareVector" -> Cmp(p, x, y)
    [] c = "WeightAdd_of_matrix" -> MAdd(MTimes(p.g[1], x), MTimes(p.g[2], y))
    [] c = "WeightAdd_of_vector" -> Add(Times(p.g[1], x), Times(p.g[2], y))
    [] c = "WeightAdd_of_double" -> p.g[1] * x + p.g[2] * y
Conv(mem, k) == [i \in DOMAIN k |-> SumOf([j \in DOMAIN mem |-> k[i][j] * mem[j][i]])]
(* --- any number of inputs *)
Variadic == {"Mix_of_vector", "Add_of_matrix", "Add_of_vector", "Add_of_double", "Multiply_of_matrix", "Multiply_of_vector", "Multiply_of_matrixrotation", "Multiply_of_matrixHomo", "Multiply_of_matrixtwist", "Multiply_of_quaternion", "Multiply_of_double", "And", "Or"}
Adders == {"Add_of_matrix", "Add_of_vector", "Add_of_double"}
Put(v, i, w) == [k \in DOMAIN v |-> IF k > i /\ k <= i + Len(w) THEN w[k - i] ELSE v[k]]
RECURSIVE Mixed(_, _, _)
Mixed(v, vs, ss) == IF ss = <<>> THEN v ELSE Mixed(Put(v, ss[1][2], vs[ss[1][1] + 1]), vs, Tail(ss))
\* product of matrices, quaternions, numbers, vectors by component, homogeneous matrices
Prod(c, a, b) == CASE c \in {"Multiply_of_matrix", "Multiply_of_matrixrotation", "Multiply_of_matrixtwist"} -> MM(a, b)
   [] c = "Multiply_of_vector" -> [i \in DOMAIN a |-> a[i] * b[i]]
   [] c = "Multiply_of_quaternion" -> QQ(a, b)
   [] c = "Multiply_of_double" -> a * b
   [] c = "And" -> a /\ b
   [] c = "Or" -> a \/ b
RECURSIVE FoldM(_, _)
FoldM(c, vs) == IF Len(vs) = 1 THEN vs[1] ELSE Prod(c, FoldM(c, SubSeq(vs, 1, Len(vs) - 1)), vs[Len(vs)])
RECURSIVE FoldH(_)                \* the last factor's translation is turned by the product of the others: all in 1/D^n
FoldH(vs) == IF Len(vs) = 1 THEN Pose(vs[1]) ELSE
  LET a == FoldH(SubSeq(vs, 1, Len(vs) - 1)) b == vs[Len(vs)] IN Hm(MM(Rt(a), Rt(b)), Add(Times(D, MV(Rt(a), Tl(b))), Times(D, Tl(a))))
FV(c, p, vs) ==
  CASE c = "Mix_of_vector" -> Mixed(vs[1], vs, p.segs)
    [] c = "Add_of_double" -> SumOf([i \in DOMAIN vs |-> p.k[i] * vs[i]])
    [] c = "Add_of_vector" -> [i \in DOMAIN vs[1] |-> SumOf([k \in DOMAIN vs |-> p.k[k] * vs[k][i]])]
    [] c = "Add_of_matrix" -> [i \in DOMAIN vs[1] |-> [j \in DOMAIN vs[1][i] |-> SumOf([k \in DOMAIN vs |-> p.k[k] * vs[k][i][j]])]]
    [] c = "Multiply_of_matrixHomo" -> FoldH(vs)
    [] OTHER -> FoldM(c, vs)
Sin(i) == "sin" \o ToString(i)
Range(s) == {s[i] : i \in DOMAIN s}
Ones(n) == [i \in 1..n |-> 1]
Sized(st) == IF st.cls \in Adders THEN [st EXCEPT !.p.k = Ones(Len(st.names))] ELSE st
Less(st, n) == [st EXCEPT !.names = SubSeq(@, 1, n), !.has = SubSeq(@, 1, n), !.ins = SubSeq(@, 1, n)]
More(st, name) == [st EXCEPT !.names = Append(@, name), !.has = Append(@, FALSE), !.ins = Append(@, 0)]
RECURSIVE Grow(_, _)
Grow(st, n) == IF Len(st.names) >= n THEN No(Sized(st), <<"ok">>) ELSE IF Sin(Len(st.names)) \in Range(st.names) THEN No(Sized(st), <<"exc", "dg">>) ELSE Grow(More(st, Sin(Len(st.names))), n)
New(c) == LET s0 == [InitSt EXCEPT !.cls = c] IN
  IF c \in Unary THEN More(s0, "sin") ELSE IF c \in Binary THEN More(More(s0, "sin1"), "sin2")
  ELSE IF c = "Mix_of_vector" THEN More(s0, "default") ELSE IF c \in {"And", "Or"} THEN s0 ELSE Sized(More(More(s0, "sin0"), "sin1"))
(* --- change of operational point *)
OpT == Hm(Eye(3, D), <<0, 0, 0>>)
OpJac(st) ==
  IF st.p.eq THEN       \* (end effector) seen from the new point: twist of the inverse of the transformation, in 1/D^2
    LET m == st.mem[1] ri == Tran(Rt(m)) ti == Times(-1, MV(ri, Tl(m))) IN
    MM(Blocks(MTimes(D, ri), MM(Skew(ti), ri), Z3, MTimes(D, ri)), st.ins[1])
  ELSE LET j == st.ins[1] ab == MV(Rt(st.ins[2]), Tl(st.mem[1])) IN      \* in the same frame: moved by the rotation around the old point
    [i \in 1..6 |-> [k \in 1..Cols(j) |-> IF i > 3 THEN D * D * j[i][k] ELSE D * D * j[i][k] - D * SumOf([l \in 1..3 |-> Skew(ab)[i][l] * j[3 + l][k]])]]
OpPos(st) == Hm(MM(Rt(st.ins[2]), Rt(st.mem[1])), Add(Times(D, MV(Rt(st.ins[2]), Tl(st.mem[1]))), Times(D * D, Tl(st.ins[2]))))
(* --- the system *)
Eval(st) ==
  IF st.cls = "" \/ \E i \in DOMAIN st.has : ~st.has[i] THEN Dg(st)
  ELSE IF st.cls = "ConvolutionTemporal" THEN
    LET m == <<st.ins[1]>> \o st.mem  n == Cols(st.ins[2]) k == IF Len(m) > n THEN SubSeq(m, 1, n) ELSE m IN No([st EXCEPT !.mem = k], <<"ok", Conv(k, st.ins[2])>>)
  ELSE IF st.cls = "Mix_of_vector" /\ \E i \in DOMAIN st.p.segs : st.p.segs[i][1] >= Len(st.names) \/ st.p.segs[i][1] < 0 THEN No(st, <<"exc", "invalid_argument">>)
  ELSE No(st, <<"ok", IF st.cls \in Unary THEN F1(st.cls, st.p, st.ins[1]) ELSE IF st.cls \in Binary THEN F2(st.cls, st.p, st.ins[1], st.ins[2]) ELSE FV(st.cls, st.p, st.ins)>>)
Cmd(st, n, a) ==
  CASE n = "selec" -> Ok([st EXCEPT !.p.segs = <<a>>])
    [] n = "addSelec" -> Ok([st EXCEPT !.p.segs = Append(@, a)])
    [] n \in {"selecRows", "selec1", "resize"} -> Ok([st EXCEPT !.p.r = a])
    [] (n = "selecCols" /\ Len(a) = 2) \/ n = "selec2" -> Ok([st EXCEPT !.p.c = a])
    [] (n = "selecCols" /\ Len(a) = 1) \/ n = "setIndex" -> Ok([st EXCEPT !.p.j = a[1]])
    [] n = "setGain1" -> Ok([st EXCEPT !.p.g[1] = a[1]])
    [] n = "setGain2" -> Ok([st EXCEPT !.p.g[2] = a[1]])
    [] n = "getGain1" -> No(st, <<"ok", st.p.g[1]>>)
    [] n = "getGain2" -> No(st, <<"ok", st.p.g[2]>>)
Apply(st, o) ==
  CASE o[1] = "unit" -> Ok(st)     \* numbers are given, and read, in another unit
    [] o[1] = "new" -> Ok(New(o[2]))
    [] o[1] = "in" -> IF o[2] > Len(st.names) THEN No(st, <<"exc", "out_of_range">>) ELSE Ok([st EXCEPT !.has[o[2]] = TRUE, !.ins[o[2]] = o[3]])
    [] o[1] = "cmd" -> Cmd(st, o[2], o[3])
    [] o[1] = "mode" -> Ok([st EXCEPT !.p.any = o[2], !.p.eq = o[3]])
    [] o[1] = "getmode" -> No(st, <<"ok", st.p.any, st.p.eq>>)
    [] o[1] = "eval" -> Eval(st)
    [] o[1] = "number" -> IF o[2] <= Len(st.names) THEN Ok(Sized(Less(st, o[2]))) ELSE Grow(st, o[2])
    [] o[1] = "add" -> IF o[2] \in Range(st.names) THEN Dg(st) ELSE No(Sized(More(st, o[2])), <<"ok", Len(st.names)>>)
    [] o[1] = "addn" -> IF Sin(Len(st.names)) \in Range(st.names) THEN Dg(st) ELSE No(Sized(More(st, Sin(Len(st.names)))), <<"ok", Len(st.names)>>)
    [] o[1] = "remove" -> IF st.names = <<>> THEN No(st, <<"none">>) ELSE Ok(Sized(Less(st, Len(st.names) - 1)))
    [] o[1] = "names" -> No(st, <<"ok", st.names>>)
    [] o[1] = "coeffs" -> IF Len(o[2]) # Len(st.names) THEN No(st, <<"exc", "invalid_argument">>) ELSE Ok([st EXCEPT !.p.k = o[2]])
    \* constants
    [] o[1] = "constant" -> Ok([InitSt EXCEPT !.cls = o[2]])
    [] o[1] = "set" -> Ok([st EXCEPT !.mem = <<o[2]>>])
    [] o[1] = "zero" -> Ok([st EXCEPT !.mem = << IF Len(o[2]) = 1 THEN [i \in 1..o[2][1] |-> 0] ELSE [i \in 1..o[2][1] |-> [j \in 1..o[2][2] |-> 0]] >>])
    [] o[1] = "value" -> No(st, <<"ok", st.mem[1]>>)
    \* change of operational point
    [] o[1] = "point" -> Ok([InitSt EXCEPT !.cls = "point", !.has = <<FALSE, FALSE>>, !.ins = <<0, 0>>, !.names = <<"jacobianIN", "positionIN">>, !.mem = <<OpT>>, !.p.eq = TRUE])
    [] o[1] = "transformation" -> Ok([st EXCEPT !.mem = <<o[2]>>])
    [] o[1] = "effector" -> Ok([st EXCEPT !.p.eq = o[2]])
    [] o[1] = "gettr" -> No(st, <<"ok", Pose(st.mem[1]), st.p.eq>>)
    [] o[1] = "jacobian" -> IF ~st.has[1] \/ (~st.p.eq /\ ~st.has[2]) THEN Dg(st) ELSE No(st, <<"ok", OpJac(st)>>)
    [] o[1] = "position" -> IF ~st.has[2] THEN Dg(st) ELSE No(st, <<"ok", OpPos(st)>>)
(* --- inputs for the exploration *)
P(x) == Profile = x
A1 == << <<3, 4>>, <<5, 0>>, <<0, -5>> >>
A2 == << <<-4, 3>>, <<4, -3>>, <<3, 4>> >>
A3 == << <<0, 5>>, <<0, 5>>, <<-5, 0>> >>      \* gimbal lock
Rots == {RPY(A1), RPY(A2), RPY(A3), MTimes(D, Eye(3, 1))}
Homos == {Hm(RPY(A1), <<1, -2, 3>>), Hm(RPY(A2), <<0, 4, -1>>), Hm(RPY(A3), <<2, 0, 0>>)}
Twists == {Blocks(Rt(h), MM(Skew(Tl(h)), Rt(h)), Z3, Rt(h)) : h \in Homos}
SmallTwists == {Blocks(Eye(3, 1), Skew(<<1, 2, 3>>), Z3, Eye(3, 1)), Blocks(<< <<0, 1, 0>>, <<-1, 0, 2>>, <<0, 3, 1>> >>, Eye(3, 2), Skew(<<-1, 0, 1>>), << <<1, 2, 0>>, <<0, 1, 0>>, <<2, 0, 1>> >>)}
Quats == {<<1, 1, -1, 1>>, <<0, 0, 2, 0>>, <<-1, 1, 1, 1>>, <<2, 0, 0, 0>>}
M23 == { << <<1, 2, 3>>, <<-4, 5, -6>> >>, << <<0, -1, 0>>, <<7, 0, 2>> >> }
M33 == { << <<1, 2, 3>>, <<-4, 5, -6>>, <<0, 2, 1>> >> }
UTs == {<<1, 0, 0, 1, 4>>, <<0, -1, 0, 2, 4>>, <<1, -1, 1, 1, 3>>, <<0, 1, 1, 1, 2>>, <<0, 0, 1, 0, 4>>}
Inp1(c) ==
  CASE c \in {"Selec_of_vector", "Component_of_vector", "MatrixDiagonal"} -> {<<5, -6, 7>>, <<1, 2, 3>>}
    [] c \in {"Selec_of_matrix", "Selec_column_of_matrix", "MatrixTranspose"} -> M23
    [] c = "Inverse_of_matrix" -> {<< <<2, 3>>, <<1, 1>> >>, << <<1, 2, 0>>, <<0, 1, 3>>, <<1, 2, 1>> >>, << <<-1>> >>}
    [] c = "Norm_of_vector" -> {<<3, -4>>, <<0>>, <<2, 3, -6>>, <<>>}
    [] c = "SkewSymToVector" -> {<<1, -2, 3>>, <<0, 4, 0>>}
    [] c = "Inverse_of_matrixtwist" -> Twists
    [] c \in {"Inverse_of_matrixrotation", "MatrixToRPY", "MatrixToQuaternion", "MatrixToUTheta"} -> Rots
    [] c \in {"Inverse_of_unitquat", "QuaternionToRPY", "QuaternionToMatrix"} -> Quats
    [] c = "PoseUThetaToMatrixHomo" -> {<<1, -2, 3>> \o u : u \in UTs}
    [] c = "PoseQuaternionToMatrixHomo" -> {<<1, -2, 3>> \o q : q \in Quats}
    [] c \in {"PoseRollPitchYawToMatrixHomo", "PoseRollPitchYawToPoseUTheta"} -> {<< <<1, -2, 3>>, a>> : a \in {A1, A2, A3}}
    [] c \in {"RPYToMatrix", "RPYToQuaternion"} -> {A1, A2, A3}
    [] c = "UThetaToQuaternion" -> UTs
    [] OTHER -> Homos
Inp2a(c) ==
  CASE c \in {"Multiply_double_vector", "Substract_of_double", "CompareDouble", "WeightAdd_of_double"} -> {-2, 3}
    [] c \in {"Multiply_matrix_vector", "Substract_of_matrix", "WeightAdd_of_matrix"} -> M23
    [] c = "Multiply_matrixHomo_vector" -> Homos
    [] c = "Multiply_matrixTwist_vector" -> SmallTwists
    [] c = "Compose_R_and_T" -> Rots
    [] c = "ConvolutionTemporal" -> {<<1, -2>>, <<3, 0>>}
    [] OTHER -> {<<1, 2, 3>>, <<2, -2, 3>>}
Inp2b(c) ==
  CASE c \in {"Substract_of_double", "CompareDouble", "WeightAdd_of_double"} -> {-2, 5}
    [] c \in {"Substract_of_matrix", "WeightAdd_of_matrix"} -> M23
    [] c = "Multiply_matrixHomo_vector" -> {<<1, -2, 3, 1>>, <<1, 2, 4, 2>>}
    [] c = "Multiply_matrixTwist_vector" -> {<<1, -2, 3, -4, 5, -6>>}
    [] c = "ConvolutionTemporal" -> {<< <<2, -1, 3>>, <<1, 4, -2>> >>, << <<2>>, <<5>> >>}
    [] c = "CompareVector" -> {<<1, 2, 3>>, <<2, 3, 4>>, <<0, -3, 4>>}
    [] OTHER -> {<<4, -5, 6>>, <<1, 1, 0>>}
InpV(c) ==
  CASE c \in {"Mix_of_vector", "Add_of_vector", "Multiply_of_vector"} -> {<<1, 2, 3>>, <<4, -5, 6>>}
    [] c = "Add_of_matrix" -> M23
    [] c = "Multiply_of_matrix" -> {<< <<1, 2>>, <<-1, 3>> >>, << <<0, 1>>, <<2, 1>> >>}
    [] c = "Multiply_of_matrixrotation" -> {RPY(A1), RPY(A2)}
    [] c = "Multiply_of_matrixHomo" -> {Hm(RPY(A1), <<1, -2, 3>>), Hm(RPY(A2), <<0, 4, -1>>)}
    [] c = "Multiply_of_matrixtwist" -> SmallTwists
    [] c = "Multiply_of_quaternion" -> {<<1, 1, -1, 1>>, <<0, 0, 2, 0>>, <<1, 2, 3, 4>>}
    [] c \in {"And", "Or"} -> BOOLEAN
    [] OTHER -> {2, -3}
Fits(st, g) == g[2] + Len(st.ins[g[1] + 1]) <= Len(st.ins[1])
Ops(st) ==
  CASE P("unary") -> << IF st.cls = "" THEN {<<"new", c>> : c \in Unary} ELSE {}, IF st.cls = "" THEN {} ELSE {<<"in", 1, v>> : v \in Inp1(st.cls)} \cup {<<"eval">>},
       CASE st.cls = "Selec_of_vector" -> {<<"cmd", "selec", s>> : s \in {<<0, 2>>, <<1, 1>>}} \cup (IF Len(st.p.segs) < 3 THEN {<<"cmd", "addSelec", s>> : s \in {<<2, 3>>, <<0, 3>>}} ELSE {})
         [] st.cls = "Component_of_vector" -> {<<"cmd", "setIndex", <<i>> >> : i \in 0..2}
         [] st.cls = "Selec_of_matrix" -> {<<"cmd", "selecRows", s>> : s \in {<<0, 2>>, <<1, 2>>}} \cup {<<"cmd", "selecCols", s>> : s \in {<<0, 1>>, <<1, 3>>}}
         [] st.cls = "Selec_column_of_matrix" -> {<<"cmd", "selecRows", s>> : s \in {<<0, 2>>, <<1, 2>>}} \cup {<<"cmd", "selecCols", <<i>> >> : i \in {0, 2}}
         [] st.cls = "MatrixDiagonal" -> {<<"cmd", "resize", s>> : s \in {<<2, 2>>, <<4, 5>>, <<2, 0>>, <<5, 3>>}}
         [] OTHER -> {} >>
    [] P("binary") -> << IF st.cls = "" THEN {<<"new", c>> : c \in Binary} ELSE {}, IF st.cls = "" THEN {} ELSE {<<"in", 1, v>> : v \in Inp2a(st.cls)}, IF st.cls = "" THEN {} ELSE {<<"in", 2, v>> : v \in Inp2b(st.cls)}, IF st.cls = "" THEN {} ELSE {<<"eval">>},
       CASE st.cls = "Stack_of_vector" -> {<<"cmd", n, s>> : n \in {"selec1", "selec2"}, s \in {<<0, 2>>, <<1, 3>>, <<2, 2>>}}
         [] st.cls \in {"WeightAdd_of_matrix", "WeightAdd_of_vector", "WeightAdd_of_double"} -> {<<"cmd", n, <<k>> >> : n \in {"setGain1", "setGain2"}, k \in {-2, 3}} \cup {<<"cmd", n, <<>> >> : n \in {"getGain1", "getGain2"}}
         [] st.cls = "CompareVector" -> {<<"mode", a, e>> : a \in BOOLEAN, e \in BOOLEAN} \cup {<<"getmode">>}
         [] OTHER -> {} >>
    [] P("variadic") -> << IF st.cls = "" THEN {<<"new", c>> : c \in Variadic} ELSE {}, IF st.cls = "" THEN {} ELSE {<<"in", i, v>> : i \in 1..Len(st.names), v \in InpV(st.cls)},
       IF st.cls = "" THEN {} ELSE {<<"number", n>> : n \in {1, 2, IF st.cls \in {"Mix_of_vector", "Add_of_double"} THEN 3 ELSE 2}} \cup {<<"names">>, <<"in", 4, 1>>},
       IF st.cls = "" THEN {} ELSE IF st.cls = "Add_of_double" THEN (IF Len(st.names) < 3 THEN {<<"add", "extra">>, <<"add", "sin2">>, <<"addn">>} ELSE {}) \cup (IF Len(st.names) > 1 THEN {<<"remove">>} ELSE {}) ELSE {},
       IF st.cls \in Adders THEN {<<"coeffs", k>> : k \in {<<2, -1>>, <<0, 1, 3>>}} ELSE {},
       IF st.cls = "Mix_of_vector" /\ Len(st.p.segs) < 2 THEN {<<"cmd", "addSelec", <<1, 1, 3>> >>, <<"cmd", "addSelec", <<2, 0, 3>> >>} ELSE {},
       IF st.cls # "" /\ st.names # <<>> /\ ((\E i \in DOMAIN st.has : ~st.has[i]) \/ st.cls # "Mix_of_vector" \/ \A i \in DOMAIN st.p.segs : st.p.segs[i][1] >= Len(st.names) \/ Fits(st, st.p.segs[i])) THEN {<<"eval">>} ELSE {} >>
    [] P("constant") -> << IF st.cls = "" THEN {<<"constant", c>> : c \in {"VectorConstant", "MatrixConstant", "DoubleConstant"}} ELSE {},
       CASE st.cls = "VectorConstant" -> {<<"set", v>> : v \in {<<>>, <<1>>, <<-2, 3>>}} [] st.cls = "MatrixConstant" -> {<<"set", v>> : v \in M23} [] st.cls = "DoubleConstant" -> {<<"set", v>> : v \in {-2, 7}} [] OTHER -> {},
       CASE st.cls = "VectorConstant" -> {<<"zero", <<n>> >> : n \in {0, 3}} [] st.cls = "MatrixConstant" -> {<<"zero", v>> : v \in {<<1, 2>>, <<3, 3>>}} [] OTHER -> {}, IF st.mem # <<>> THEN {<<"value">>} ELSE {} >>
    [] P("point") -> << IF st.cls = "" THEN {<<"point">>} ELSE {<<"transformation", h>> : h \in {Hm(RPY(A1), <<1, -2, 3>>), Hm(RPY(A3), <<2, 0, 0>>)}},
       IF st.cls = "" THEN {} ELSE {<<"in", 1, j>> : j \in { << <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>> >>, << <<1, 0>>, <<0, 2>>, <<-3, 1>>, <<0, 1>>, <<1, 0>>, <<2, -1>> >>}},
       IF st.cls = "" THEN {} ELSE {<<"in", 2, h>> : h \in {Hm(RPY(A2), <<0, 4, -1>>), Hm(RPY(A3), <<2, 0, 0>>)}},
       IF st.cls = "" THEN {} ELSE {<<"effector", b>> : b \in BOOLEAN} \cup {<<"gettr">>, <<"jacobian">>, <<"position">>} >>
Bound(st) == Len(st.mem) <= 4
Inv(st) == Len(st.names) = Len(st.has) /\ Len(st.ins) = Len(st.has) /\ (st.cls \in Adders => Len(st.p.k) = Len(st.names))
StepOK(st, o, r) == (r.obs[1] = "exc" /\ o[1] # "number") => r.st = st
(* algebra of the conversions, as the specification states them *)
ASSUME \A u \in UTs : MM(UT(SubSeq(u, 1, 3), u[4], u[5]), Tran(UT(SubSeq(u, 1, 3), u[4], u[5]))) = Eye(3, D * D)
ASSUME \A q \in Quats : MM(QM(q), Tran(QM(q))) = Eye(3, D * D) /\ Rt(FoldH(<<Hm(QM(q), <<0, 0, 0>>), Hm(QM(<<0, 0, 2, 0>>), <<0, 0, 0>>)>>)) = MTimes(D, [i \in 1..3 |-> [j \in 1..3 |-> (QM([k \in 1..4 |-> QQ(q, <<0, 0, 2, 0>>)[k] \div 2]))[i][j]]])
ASSUME \A r \in Rots : MM(r, Tran(r)) = Eye(3, D * D)
ASSUME \A h \in Homos : LET hi == F1("Inverse_of_matrixHomo", P0, h) IN Add(MV(Rt(h), Tl(hi)), Times(D * D, Tl(h))) = <<0, 0, 0>>
=============================================================================
