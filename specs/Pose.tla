-------------------------------- MODULE Pose --------------------------------
(* Features that place frames, lines and points: error, Jacobian, velocity of *)
(* the error.  Numbers are coded: 3n is n/2, 3n+1 is n pi/4, 3n+2 is n kappa, *)
(* kappa = pi/(3 sqrt 3): enough for turns of 90 and 120 degrees.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Profile
Num(n) == 6 * n
Half(n) == 3 * n
Pi4(n) == IF n = 0 THEN 0 ELSE 3 * n + 1
Kap(n) == IF n = 0 THEN 0 ELSE 3 * n + 2
I3 == 1..3
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Neg(a) == <<-a[1], -a[2], -a[3]>>
Mul(k, a) == <<k * a[1], k * a[2], k * a[3]>>
MV(r, v) == <<Dot(r[1], v), Dot(r[2], v), Dot(r[3], v)>>
Tr3(r) == << <<r[1][1], r[2][1], r[3][1]>>, <<r[1][2], r[2][2], r[3][2]>>, <<r[1][3], r[2][3], r[3][3]>> >>
MM(a, b) == LET c == Tr3(b) IN << <<Dot(a[1], c[1]), Dot(a[1], c[2]), Dot(a[1], c[3])>>, <<Dot(a[2], c[1]), Dot(a[2], c[2]), Dot(a[2], c[3])>>, <<Dot(a[3], c[1]), Dot(a[3], c[2]), Dot(a[3], c[3])>> >>
Id3 == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
(* poses: three rows of four *)
H(r, t) == <<Append(r[1], t[1]), Append(r[2], t[2]), Append(r[3], t[3])>>
R(h) == << <<h[1][1], h[1][2], h[1][3]>>, <<h[2][1], h[2][2], h[2][3]>>, <<h[3][1], h[3][2], h[3][3]>> >>
T(h) == <<h[1][4], h[2][4], h[3][4]>>
IdH == H(Id3, <<0, 0, 0>>)
HM(a, b) == H(MM(R(a), R(b)), Add(MV(R(a), T(b)), T(a)))
HI(a) == H(Tr3(R(a)), Neg(MV(Tr3(R(a)), T(a))))
(* velocities, columns of a Jacobian: linear then angular *)
L(v) == <<v[1], v[2], v[3]>>  W(v) == <<v[4], v[5], v[6]>>
Ad(h, v) == LET w == MV(R(h), W(v)) IN Add(MV(R(h), L(v)), Cross(T(h), w)) \o w
Col(m, j) == <<m[1][j], m[2][j], m[3][j], m[4][j], m[5][j], m[6][j]>>
Cols(m) == Len(m[1])
OfCols(c) == [i \in 1..6 |-> [j \in DOMAIN c |-> c[j][i]]]
S6(a, b) == [i \in 1..6 |-> a[i] - b[i]]
(* the rotations of the cube: identity, quarter and third turns; half turns have no unique vector *)
Trace(r) == r[1][1] + r[2][2] + r[3][3]
Skew(r) == <<r[3][2] - r[2][3], r[1][3] - r[3][1], r[2][1] - r[1][2]>>
Axis(r) == IF Trace(r) = 1 THEN [i \in I3 |-> Skew(r)[i] \div 2] ELSE Skew(r)
Log(r) == CASE Trace(r) = 3 -> <<0, 0, 0>> [] Trace(r) = 1 -> [i \in I3 |-> Pi4(2 * Axis(r)[i])] [] Trace(r) = 0 -> [i \in I3 |-> Kap(2 * Axis(r)[i])]
JrInv(r, x) == LET a == Axis(r) y == Add(x, Cross(a, x)) IN                \* inverse of the right Jacobian of the exponential
  CASE Trace(r) = 3 -> [i \in I3 |-> Num(x[i])] [] Trace(r) = 1 -> [i \in I3 |-> IF a[i] # 0 THEN Num(x[i]) ELSE Pi4(y[i])] [] Trace(r) = 0 -> [i \in I3 |-> Kap(y[i])]
JlInv(r, x) == JrInv(Tr3(r), x)
Turn(r) == Trace(r) # -1
Good(r, x) == Trace(r) \in {1, 3} \/ (Trace(r) = 0 /\ Dot(Axis(r), x) = 0)
RECURSIVE Pick(_, _)
Pick(v, s) == IF v = <<>> THEN <<>> ELSE LET n == Len(v) p == Pick(SubSeq(v, 1, n - 1), s) IN IF s[n] = 1 THEN Append(p, v[n]) ELSE p
All == <<1, 1, 1, 1, 1, 1>>
No(st, obs) == [st |-> st, obs |-> obs]
Ok(st) == No(st, <<"ok">>)
Dg(st) == No(st, <<"exc", "dg">>)
InitSt == [k |-> "none"]
(* --- a frame, towards a reference --- *)
P6 == [k |-> "p6", pos |-> <<>>, jq |-> <<>>, ref |-> FALSE, rpos |-> <<>>, rvel |-> <<>>, frame |-> "desired", sel |-> All]
Ref(st) == IF st.ref THEN st.rpos ELSE IdH
RelM(st) == IF st.frame = "current" THEN HM(HI(st.pos), Ref(st)) ELSE HM(HI(Ref(st)), st.pos)
P6Err(st) == LET m == RelM(st) IN [i \in I3 |-> Num(T(m)[i])] \o (IF st.sel[4] + st.sel[5] + st.sel[6] = 0 THEN <<0, 0, 0>> ELSE Log(R(m)))
P6Col(st, c) == LET e == MM(Tr3(R(Ref(st))), R(st.pos)) x == MV(Tr3(R(st.pos)), Sub(T(Ref(st)), T(st.pos)))
  IN IF st.frame = "desired" THEN MV(e, L(c)) \o MV(e, W(c)) ELSE Sub(Neg(L(c)), Cross(W(c), x)) \o Neg(MV(e, W(c)))
P6Jac(st) == OfCols([j \in 1..Cols(st.jq) |-> [i \in 1..6 |-> Num(P6Col(st, Col(st.jq, j))[i])]])
RefW(st) == IF st.frame = "current" THEN MV(Tr3(R(st.rpos)), W(st.rvel)) ELSE Neg(MV(Tr3(R(st.pos)), W(st.rvel)))
P6Dot(st) == IF ~st.ref THEN <<0, 0, 0, 0, 0, 0>>
  ELSE LET v == IF st.frame = "current" THEN MV(Tr3(R(st.pos)), L(st.rvel)) ELSE MV(Tr3(R(st.rpos)), Sub(Cross(W(st.rvel), Sub(T(st.rpos), T(st.pos))), L(st.rvel)))
       IN [i \in I3 |-> Num(v[i])] \o (IF st.sel[4] + st.sel[5] + st.sel[6] = 0 THEN <<0, 0, 0>> ELSE JrInv(R(RelM(st)), RefW(st)))
Has(st, w) == /\ st.pos # <<>> /\ (st.ref => st.rpos # <<>>)
              /\ (w = "jacobian" => st.jq # <<>>) /\ (w = "errordot" /\ st.ref => st.rvel # <<>>)
Rot(st) == st.sel[4] + st.sel[5] + st.sel[6] > 0
P6Fine(st, w) == Has(st, w) => (w \in {"error", "errordot"} /\ Rot(st) => Turn(R(RelM(st)))) /\ (w = "errordot" /\ st.ref /\ Rot(st) => Good(R(RelM(st)), RefW(st)))
(* --- a frame relatively to another one --- *)
Rl == [k |-> "rel", pos |-> <<>>, pref |-> <<>>, jq |-> <<>>, jref |-> <<>>, ref |-> "none", dpos |-> <<>>, dpref |-> <<>>, sel |-> All]
RelP(st) == HM(HI(st.pos), st.pref)
RelDes(st) == IF st.ref = "none" \/ st.dpos = <<>> THEN IdH ELSE IF st.ref = "point" THEN st.dpos ELSE IF st.dpref = <<>> THEN IdH ELSE HM(HI(st.dpos), st.dpref)
RelE(st) == HM(RelP(st), HI(RelDes(st)))
RelErr(st) == LET m == RelE(st) IN [i \in I3 |-> Num(T(m)[i])] \o (IF st.sel[4] + st.sel[5] + st.sel[6] = 0 THEN <<0, 0, 0>> ELSE Log(R(m)))
RelJac(st) == OfCols([j \in 1..Cols(st.jq) |-> LET d == S6(Ad(RelP(st), Col(st.jref, j)), Col(st.jq, j)) IN [i \in 1..6 |-> Num(d[i])]])
RelHas(st, w) == st.pos # <<>> /\ st.pref # <<>> /\ (w = "jacobian" => st.jq # <<>> /\ st.jref # <<>>)
RelFine(st, w) == RelHas(st, w) => (w = "error" /\ Rot(st) => Turn(R(RelE(st)))) /\ (w = "jacobian" => Cols(st.jq) = Cols(st.jref))
(* --- pose of frame b in frame a, in R3xSO3 or SE3 --- *)
Po(se3) == [k |-> "pose", se3 |-> se3, a |-> IdH, fa |-> IdH, b |-> <<>>, fb |-> IdH, ja |-> <<>>, jb |-> <<>>, des |-> IdH, nu |-> <<0, 0, 0, 0, 0, 0>>, sel |-> All]
FaFb(st) == HM(HM(HI(st.fa), HI(st.a)), HM(st.b, st.fb))
PoE(st) == HM(HI(st.des), FaFb(st))
PoErr(st) == LET e == PoE(st) d == Sub(T(FaFb(st)), T(st.des)) IN
  (IF st.se3 THEN JlInv(R(e), T(e)) ELSE [i \in I3 |-> Num(d[i])]) \o Log(R(e))
PoX(st, m, c) == LET x == Ad(HI(m), c) IN IF st.se3 THEN x ELSE MV(R(FaFb(st)), L(x)) \o W(x)
PoCol(st, j) == LET b == PoX(st, st.fb, Col(st.jb, j)) IN IF st.ja = <<>> THEN b ELSE S6(b, PoX(st, HM(st.fa, FaFb(st)), Col(st.ja, j)))
PoDiff(st, x) == LET e == PoE(st) IN
  IF st.se3 THEN LET y == Cross(T(e), W(x)) IN [i \in I3 |-> Half(2 * x[i] + y[i])] \o [i \in I3 |-> Num(x[i + 3])]
  ELSE [i \in I3 |-> Num(x[i])] \o JrInv(R(e), W(x))
PoJac(st) == OfCols([j \in 1..Cols(st.jb) |-> PoDiff(st, PoCol(st, j))])
PoNu(st) == LET w == MV(Tr3(R(st.des)), W(st.nu)) IN IF st.se3 THEN MV(Tr3(R(st.des)), Sub(L(st.nu), Cross(T(st.des), W(st.nu)))) \o w ELSE Sub(L(st.nu), Cross(T(FaFb(st)), W(st.nu))) \o w
PoDot(st) == LET e == PoE(st) x == PoNu(st) IN
  IF st.se3 THEN LET y == Cross(T(e), W(x)) IN [i \in I3 |-> Half(y[i] - 2 * x[i])] \o [i \in I3 |-> Num(-x[i + 3])]
  ELSE [i \in I3 |-> Num(-x[i])] \o JlInv(R(e), Neg(W(x)))
PoFine(st, w) == LET e == PoE(st) IN
  CASE w = "error" -> Turn(R(e)) /\ (st.se3 => Good(R(e), T(e)))
    [] w = "jacobian" -> st.jb # <<>> /\ (st.ja = <<>> \/ Cols(st.ja) = Cols(st.jb)) /\ (IF st.se3 THEN R(e) = Id3 ELSE Turn(R(e)) /\ \A j \in 1..Cols(st.jb) : Good(R(e), W(PoCol(st, j))))
    [] w = "errordot" -> IF st.se3 THEN R(e) = Id3 ELSE Turn(R(e)) /\ Good(R(e), W(PoNu(st)))
    [] OTHER -> TRUE
(* --- distance of two lines, quarters; projection of a point --- *)
Ln == [k |-> "line", pos |-> <<>>, v |-> <<>>, r |-> <<>>, jq |-> <<>>]
LnV(st) == MV(R(st.pos), st.v)
LnK(st) == LET c == Cross(LnV(st), W(st.r)) IN Dot(c, c)
LnD(st) == Sub(L(st.r), T(st.pos))
LnErr(st) == (4 * Dot(LnD(st), Cross(LnV(st), W(st.r)))) \div LnK(st)
LnGradP(st) == Mul(-16 \div LnK(st), Cross(LnV(st), W(st.r)))
LnGradV(st) == LET v == LnV(st) u == W(st.r) n == Dot(LnD(st), Cross(v, u)) k == LnK(st)
                   dn == Cross(u, LnD(st)) dk == Mul(2, Sub(Mul(Dot(u, u), v), Mul(Dot(v, u), u)))
               IN Mul(16 \div (k * k), Sub(Mul(k, dn), Mul(n, dk)))
LnJac(st) == << [j \in 1..Cols(st.jq) |-> LET c == Col(st.jq, j) IN Dot(LnGradP(st), MV(R(st.pos), L(c))) + Dot(LnGradV(st), MV(R(st.pos), Cross(W(c), st.v)))] >>
LnHas(st, w) == st.pos # <<>> /\ st.v # <<>> /\ (w = "line" \/ st.r # <<>>) /\ (w = "jacobian" => st.jq # <<>>)
LnFine(st, w) == LnHas(st, w) => (w = "line" \/ LnK(st) \in {1, 2, 4})
Pr == [k |-> "proj", p |-> <<>>, m |-> <<>>]
PrP(st) == MV(R(HI(st.m)), Sub(st.p, T(st.m)))
PrHas(st) == st.p # <<>> /\ st.m # <<>>
PrFine(st, w) == PrHas(st) => (w = "image" => PrP(st)[3] \in {1, 2, 4})
Get(st, w) ==
  IF w = "dim" THEN No(st, <<"ok", Len(Pick(All, st.sel))>>) ELSE
  CASE st.k = "p6" -> IF w = "errordot" /\ ~st.ref THEN No(st, <<"ok", Pick(P6Dot(st), st.sel)>>) ELSE IF ~Has(st, w) THEN Dg(st)
                      ELSE No(st, <<"ok", CASE w = "error" -> Pick(P6Err(st), st.sel) [] w = "jacobian" -> Pick(P6Jac(st), st.sel) [] w = "errordot" -> Pick(P6Dot(st), st.sel)>>)
    [] st.k = "rel" -> IF ~RelHas(st, w) THEN Dg(st) ELSE No(st, <<"ok", IF w = "error" THEN Pick(RelErr(st), st.sel) ELSE Pick(RelJac(st), st.sel)>>)
    [] st.k = "pose" -> No(st, <<"ok", CASE w = "error" -> Pick(PoErr(st), st.sel) [] w = "jacobian" -> Pick(PoJac(st), st.sel) [] w = "errordot" -> Pick(PoDot(st), st.sel) [] w = "pose" -> FaFb(st)>>)
    [] st.k = "line" -> IF ~LnHas(st, w) THEN Dg(st) ELSE No(st, <<"ok", CASE w = "error" -> <<LnErr(st)>> [] w = "jacobian" -> LnJac(st) [] w = "line" -> T(st.pos) \o LnV(st)>>)
    [] st.k = "proj" -> IF ~PrHas(st) THEN Dg(st) ELSE LET p == PrP(st) IN No(st, <<"ok", CASE w = "gaze" -> p [] w = "depth" -> p[3] [] w = "image" -> <<(4 \div p[3]) * p[1], (4 \div p[3]) * p[2]>> >>)
Fine(st, w) == IF w = "dim" THEN TRUE ELSE CASE st.k = "p6" -> P6Fine(st, w) [] st.k = "rel" -> RelFine(st, w) [] st.k = "pose" -> st.b # <<>> /\ PoFine(st, w) [] st.k = "line" -> LnFine(st, w) [] st.k = "proj" -> PrFine(st, w)
Keep(st) == CASE st.k = "p6" -> IF ~st.ref THEN No(st, <<"exc", "sot", 300>>) ELSE Ok([st EXCEPT !.rpos = st.pos]) [] st.k = "pose" -> Ok([st EXCEPT !.des = FaFb(st)])
Apply(st, o) ==
  CASE o[1] = "unit" -> Ok(st)     \* lengths are given, and read, in another unit
    [] o[1] = "new" -> Ok(CASE o[2] = "p6" -> P6 [] o[2] = "rel" -> Rl [] o[2] = "pose" -> Po(FALSE) [] o[2] = "poseSE3" -> Po(TRUE) [] o[2] = "line" -> Ln [] o[2] = "proj" -> Pr)
    [] o[1] = "in" -> Ok(CASE o[2] = "pos" -> [st EXCEPT !.pos = o[3]] [] o[2] = "jq" -> [st EXCEPT !.jq = o[3]] [] o[2] = "rpos" -> [st EXCEPT !.rpos = o[3]] [] o[2] = "rvel" -> [st EXCEPT !.rvel = o[3]]
                          [] o[2] = "pref" -> [st EXCEPT !.pref = o[3]] [] o[2] = "jref" -> [st EXCEPT !.jref = o[3]] [] o[2] = "dpos" -> [st EXCEPT !.dpos = o[3]] [] o[2] = "dpref" -> [st EXCEPT !.dpref = o[3]]
                          [] o[2] = "a" -> [st EXCEPT !.a = o[3]] [] o[2] = "fa" -> [st EXCEPT !.fa = o[3]] [] o[2] = "b" -> [st EXCEPT !.b = o[3]] [] o[2] = "fb" -> [st EXCEPT !.fb = o[3]] [] o[2] = "ja" -> [st EXCEPT !.ja = o[3]] [] o[2] = "jb" -> [st EXCEPT !.jb = o[3]]
                          [] o[2] = "des" -> [st EXCEPT !.des = o[3]] [] o[2] = "nu" -> [st EXCEPT !.nu = o[3]] [] o[2] = "v" -> [st EXCEPT !.v = o[3]] [] o[2] = "r" -> [st EXCEPT !.r = o[3]] [] o[2] = "p" -> [st EXCEPT !.p = o[3]] [] o[2] = "m" -> [st EXCEPT !.m = o[3]])
    [] o[1] = "ref" -> Ok([st EXCEPT !.ref = o[2], ![IF st.k = "rel" THEN "dpos" ELSE "rpos"] = <<>>, ![IF st.k = "rel" THEN "dpref" ELSE "rvel"] = <<>>])        \* to a new reference, without values
    [] o[1] = "frame" -> IF o[2] \in {"current", "desired"} THEN Ok([st EXCEPT !.frame = o[2]]) ELSE No(st, <<"exc", "sot", 300>>)
    [] o[1] = "getFrame" -> No(st, <<"ok", st.frame>>)
    [] o[1] = "selec" -> Ok([st EXCEPT !.sel = o[2]])
    [] o[1] = "keep" -> Keep(st)
    [] o[1] = "freeze" -> Ok([st EXCEPT !.ref = "relative", !.dpos = st.pos, !.dpref = st.pref])
    [] o[1] = "get" -> Get(st, o[2])
(* --- exploration --- *)
Rz == << <<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>> >>
Rx == << <<1, 0, 0>>, <<0, 0, 1>>, <<0, -1, 0>> >>
Rc == << <<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>> >>
M1 == H(Rz, <<1, -2, 3>>)  M2 == H(Rc, <<0, 1, 2>>)  M3 == H(Id3, <<2, 0, -1>>)
J2 == << <<1, 0>>, <<-2, 1>>, <<0, 3>>, <<1, 1>>, <<0, -1>>, <<2, 0>> >>
J1 == << <<3>>, <<1>>, <<0>>, <<-1>>, <<2>>, <<-1>> >>
Sels == {All, <<0, 1, 0, 1, 0, 1>>, <<1, 0, 1, 0, 0, 0>>}
Ev(st, ws) == {<<"get", w>> : w \in {w \in ws : Fine(st, w)}}
In(n, vs) == {<<"in", n, v>> : v \in vs}
Ops(st) ==
  CASE st.k = "none" -> << {<<"new", Profile>>} >>
    [] st.k = "p6" -> << In("pos", {M1, M2}), In("jq", {J2}), IF st.ref THEN In("rpos", {M1, M3}) \union In("rvel", {<<1, 2, 3, 2, -1, 1>>, <<0, 1, 0, 1, -1, 0>>}) ELSE {},
         {<<"ref", ~st.ref>>}, {<<"frame", f>> : f \in {"current", "desired", "world"}}, {<<"getFrame">>}, {<<"selec", s>> : s \in Sels \ {st.sel}}, IF st.pos # <<>> THEN {<<"keep">>} ELSE {}, Ev(st, {"error", "jacobian", "errordot", "dim"}) >>
    [] st.k = "rel" -> << In("pos", {M1, M2}), In("pref", {M1, M3}), In("jq", {J1}), In("jref", {[i \in 1..6 |-> <<J2[i][2]>>]}), {<<"ref", r>> : r \in {"none", "point", "relative"} \ {st.ref}}, IF st.ref = "none" THEN {} ELSE In("dpos", {M2, M3}), IF st.ref = "relative" THEN In("dpref", {M1}) ELSE {},
         {<<"selec", s>> : s \in {All, <<0, 1, 0, 1, 0, 1>>} \ {st.sel}}, IF st.pos # <<>> /\ st.pref # <<>> THEN {<<"freeze">>} ELSE {}, Ev(st, {"error", "jacobian", "dim"}) >>
    [] st.k = "pose" -> IF st.b = <<>> THEN <<In("b", {M1})>> ELSE << In("a", {M3, M2}), In("fa", {M1}), In("b", {M1, M3}), In("fb", {M2}), In("jb", {J2}), In("ja", {[i \in 1..6 |-> <<J2[i][2], J1[i][1]>>]}), In("des", {M1}), In("nu", {<<1, 2, 0, 1, -1, 2>>}),
         {<<"selec", s>> : s \in {<<0, 1, 0, 1, 0, 1>>} \ {st.sel}}, {<<"keep">>}, Ev(st, {"error", "jacobian", "errordot", "pose", "dim"}) >>
    [] st.k = "line" -> << In("pos", {M1, M2, M3}), In("v", {<<1, 0, 0>>, <<1, 1, 0>>}), In("r", {<<1, 2, 3, 0, 0, 1>>, <<0, 1, 0, 1, 1, 0>>, <<2, -1, 1, 0, 1, -1>>}), In("jq", {J2, J1}), Ev(st, {"error", "jacobian", "line"}) >>
    [] st.k = "proj" -> << In("m", {M1, M2, M3}), In("p", {<<1, 2, 4>>, <<3, -1, 5>>, <<0, 0, 1>>}), Ev(st, {"gaze", "depth", "image"}) >>
Bound(st) == TRUE
Inv(st) == (st.k = "p6" => st.frame \in {"current", "desired"}) /\ (st.k = "pose" => R(HM(st.des, HI(st.des))) = Id3)
StepOK(st, o, r) ==
  /\ (r.obs[1] = "exc" => r.st = st) /\ (o[1] \in {"get", "getFrame"} => r.st = st)
  /\ (o[1] = "keep" /\ r.obs = <<"ok">> /\ st.k = "p6" => P6Err(r.st) = <<0, 0, 0, 0, 0, 0>>)                                     \* once kept, the error is null
  /\ (o[1] = "keep" /\ st.k = "pose" => PoErr(r.st) = <<0, 0, 0, 0, 0, 0>>)
  /\ (o[1] = "freeze" => RelErr(r.st) = <<0, 0, 0, 0, 0, 0>>)
  /\ (o[1] = "get" /\ o[2] = "error" /\ r.obs[1] = "ok" /\ st.k \in {"p6", "rel", "pose"} => Len(r.obs[2]) = Len(Pick(All, st.sel)))
=============================================================================
