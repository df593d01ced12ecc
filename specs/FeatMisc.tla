------------------------------ MODULE FeatMisc -----------------------------
(* The other kinds of features: half the squared error, a direction carried
   by a frame, a posture, a point in an image, the middle of joint limits.
   Outputs are in eighths.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Profile
Unset == [on |-> FALSE, v |-> <<>>]
On(v) == [on |-> TRUE, v |-> v]
Id3 == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
InitSt == [oe |-> Unset, oj |-> Unset,                                         \* half squared error
           v |-> Unset, R |-> Unset, vj |-> Unset, vd |-> Unset,               \* direction
           q |-> Unset, p |-> Unset, pd |-> Unset, act |-> <<>>, pj |-> <<>>,  \* posture
           xy |-> Unset, z |-> On(1), xj |-> Unset, xb |-> <<>>, xd |-> TRUE, ref |-> 0, rxy |-> Unset,   \* image point
           jq |-> Unset, ju |-> Unset, jl |-> Unset, jb |-> <<>>, jd |-> TRUE]
Signal == <<"exc", "dg">>
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Dot(u, v) == Sum([k \in DOMAIN u |-> u[k] * v[k]], Len(u))
Cols(M) == IF M = <<>> THEN 0 ELSE Len(M[1])
Col(M, j) == [k \in DOMAIN M |-> M[k][j]]
MulV(M, v) == [k \in DOMAIN M |-> Dot(M[k], v)]
Mul(A, B) == [i \in DOMAIN A |-> [j \in 1..Cols(B) |-> Dot(A[i], Col(B, j))]]
Scale(s, v) == [k \in DOMAIN v |-> s * v[k]]
Sub(u, v) == [k \in DOMAIN u |-> u[k] - v[k]]
Add(u, v) == [k \in DOMAIN u |-> u[k] + v[k]]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
At(b, d, i) == IF i <= Len(b) THEN b[i] ELSE d
RECURSIVE From(_, _, _, _)
From(b, d, k, n) == IF k > n THEN <<>> ELSE (IF At(b, d, k) THEN <<k>> ELSE <<>>) \o From(b, d, k + 1, n)
\* ----------------------------------------------------------------- outputs
OneError(e) == <<4 * Dot(e, e)>>
OneJac(e, m) == << [j \in 1..Cols(m) |-> 8 * Dot(e, Col(m, j))] >>
DirError(st) == Scale(8, Sub(MulV(st.R.v, st.v.v), st.vd.v))
\* the frame turns with the angular velocity given, in its own axes, by the three last rows of its Jacobian
DirCol(st, j) == LET c == Col(st.vj.v, j) IN MulV(st.R.v, Cross(<<c[4], c[5], c[6]>>, st.v.v))
DirJac(st) == [i \in 1..3 |-> [j \in 1..Cols(st.vj.v) |-> 8 * DirCol(st, j)[i]]]
Act(st) == From(st.act, FALSE, 1, Len(st.act))
PostError(st) == [k \in DOMAIN Act(st) |-> 8 * (st.q.v[Act(st)[k]] - st.p.v[Act(st)[k]])]
PostDot(st) == [k \in DOMAIN Act(st) |-> -8 * st.pd.v[Act(st)[k]]]
\* the robot has fewer degrees of freedom than when they were selected
Missing(st, v) == Len(v) < Len(st.act)
NoDof == <<"exc", "sot", 302>>
PostJac(act) == LET a == From(act, FALSE, 1, Len(act)) IN [k \in DOMAIN a |-> [j \in 1..Len(act) |-> IF j = a[k] THEN 8 ELSE 0]]
XSel(st) == From(st.xb, st.xd, 1, 2)
\* interaction matrix of the normalised coordinates of a point at depth z, in 1/z
Interaction(x, y, z) == << <<-1, 0, x, z * x * y, -z * (1 + x * x), z * y>>, <<0, -1, y, z * (1 + y * y), -z * x * y, -z * x>> >>
XJac(st) == LET z == st.z.v  L == Interaction(st.xy.v[1], st.xy.v[2], z)  s == XSel(st)
  IN Mul([k \in DOMAIN s |-> [c \in 1..6 |-> (8 * L[s[k]][c]) \div z]], st.xj.v)
JSel(st) == From(st.jb, st.jd, 1, Len(st.ju.v))
W(st, i) == st.ju.v[i] - st.jl.v[i]
JErr(q, st) == [k \in DOMAIN JSel(st) |-> (16 * (q[JSel(st)[k]] - st.jl.v[JSel(st)[k]])) \div W(st, JSel(st)[k]) - 8]
JJac(st) == LET s == JSel(st) IN [k \in DOMAIN s |-> [j \in DOMAIN st.jq.v |-> IF j # s[k] THEN 0 ELSE IF W(st, j) = 0 THEN 8 ELSE 16 \div W(st, j)]]
Need(ss, obs) == IF \A k \in DOMAIN ss : ss[k].on THEN obs ELSE Signal
Get(st, k, w) ==
  CASE k = "one" -> (CASE w = "error" -> IF st.oe.on THEN <<"ok", OneError(st.oe.v)>> ELSE Signal
                       [] w = "jacobian" -> IF st.oe.on /\ st.oj.on THEN <<"ok", OneJac(st.oe.v, st.oj.v)>> ELSE Signal
                       [] w = "dim" -> <<"ok", 1>>)
    [] k = "dir" -> (CASE w = "error" -> IF st.R.on /\ st.v.on /\ st.vd.on THEN <<"ok", DirError(st)>> ELSE Signal
                       [] w = "jacobian" -> IF st.R.on /\ st.v.on /\ st.vj.on THEN <<"ok", DirJac(st)>> ELSE Signal
                       [] w = "dim" -> <<"ok", 3>>)
    [] k = "post" -> (CASE w = "error" -> IF ~st.q.on \/ ~st.p.on THEN Signal ELSE IF Missing(st, st.q.v) \/ Missing(st, st.p.v) THEN NoDof ELSE <<"ok", PostError(st)>>
                        [] w = "errordot" -> IF ~st.pd.on THEN Signal ELSE IF Missing(st, st.pd.v) THEN NoDof ELSE <<"ok", PostDot(st)>>
                        [] w = "jacobian" -> <<"ok", st.pj>>
                        [] w = "dim" -> <<"ok", Len(Act(st))>>)
    [] k = "img" -> (CASE w = "error" -> IF st.ref # 1 THEN <<"exc", "sot", 301>>
                                          ELSE IF XSel(st) = <<>> THEN <<"ok", <<>> >>
                                          ELSE IF st.xy.on /\ st.rxy.on THEN <<"ok", [n \in DOMAIN XSel(st) |-> 8 * (st.xy.v[XSel(st)[n]] - st.rxy.v[XSel(st)[n]])]>> ELSE Signal
                       [] w = "jacobian" -> IF ~st.xy.on THEN Signal ELSE IF st.z.v <= 0 THEN <<"exc", "sot", 301>> ELSE IF ~st.xj.on THEN Signal ELSE <<"ok", XJac(st)>>
                       [] w = "dim" -> <<"ok", Len(XSel(st))>>)
    [] k = "lim" -> (CASE w = "error" -> IF st.jq.on /\ st.ju.on /\ st.jl.on THEN <<"ok", JErr(st.jq.v, st)>> ELSE Signal
                       [] w = "jacobian" -> IF st.jq.on /\ st.ju.on /\ st.jl.on THEN <<"ok", JJac(st)>> ELSE Signal
                       [] w = "dim" -> IF st.ju.on THEN <<"ok", Len(JSel(st))>> ELSE Signal
                       [] w = "width" -> IF st.ju.on /\ st.jl.on THEN <<"ok", Scale(8, Sub(st.ju.v, st.jl.v))>> ELSE Signal)
Put(st) == [st |-> st, obs |-> <<"ok">>]
No(st, obs) == [st |-> st, obs |-> obs]
SelectDof(st, i, on) ==
  IF ~st.q.on \/ ~st.p.on THEN No(st, Signal)
  ELSE IF Len(st.q.v) # Len(st.p.v) THEN No(st, <<"exc", "runtime_error">>)
  ELSE LET n == Len(st.q.v)  a == IF Len(st.act) = n THEN st.act ELSE [k \in 1..n |-> FALSE]
       IN IF i > n THEN No(st, <<"exc", "sot", 700>>)
          ELSE LET b == [a EXCEPT ![i] = on] IN Put([st EXCEPT !.act = b, !.pj = PostJac(b)])
Apply(st, o) ==
  CASE o[1] = "unit" -> Put(st)     \* the values are given, and read, in another unit
    [] o[1] = "oe" -> Put([st EXCEPT !.oe = On(o[2])])   [] o[1] = "oj" -> Put([st EXCEPT !.oj = On(o[2])])
    [] o[1] = "v" -> Put([st EXCEPT !.v = On(o[2])])     [] o[1] = "R" -> Put([st EXCEPT !.R = On(o[2])])
    [] o[1] = "vj" -> Put([st EXCEPT !.vj = On(o[2])])   [] o[1] = "vd" -> Put([st EXCEPT !.vd = On(o[2])])
    [] o[1] = "q" -> Put([st EXCEPT !.q = On(o[2])])     [] o[1] = "p" -> Put([st EXCEPT !.p = On(o[2])])
    [] o[1] = "pd" -> Put([st EXCEPT !.pd = On(o[2])])   [] o[1] = "dof" -> SelectDof(st, o[2] + 1, o[3])
    [] o[1] = "xy" -> Put([st EXCEPT !.xy = On(o[2])])   [] o[1] = "z" -> Put([st EXCEPT !.z = On(o[2])])
    [] o[1] = "xj" -> Put([st EXCEPT !.xj = On(o[2])])   [] o[1] = "rxy" -> Put([st EXCEPT !.rxy = On(o[2])])
    [] o[1] = "xsel" -> Put([st EXCEPT !.xb = o[2], !.xd = o[3]])
    [] o[1] = "ref" -> Put([st EXCEPT !.ref = o[2]])     \* 0 none, 1 an image point, 9 another kind of feature
    [] o[1] = "jq" -> Put([st EXCEPT !.jq = On(o[2])])   [] o[1] = "ju" -> Put([st EXCEPT !.ju = On(o[2])])   [] o[1] = "jl" -> Put([st EXCEPT !.jl = On(o[2])])
    [] o[1] = "jsel" -> Put([st EXCEPT !.jb = o[2], !.jd = o[3]])
    [] o[1] = "actuate" -> Put([st EXCEPT !.jb = <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>, !.jd = TRUE])   \* all but the free-flyer
    [] o[1] = "get" -> No(st, Get(st, o[2], o[3]))
P(x) == Profile = x
Gets(k, ws) == {<<"get", k, w>> : w \in ws}
Id6 == [i \in 1..6 |-> [j \in 1..6 |-> IF i = j THEN 1 ELSE 0]]
J62 == << <<1, 0>>, <<0, 1>>, <<1, 1>>, <<0, 2>>, <<1, -1>>, <<3, 0>> >>
Rz == << <<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>> >>
Rx == << <<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>> >>
Ops(st) ==
  CASE P("one") -> << {<<"oe", e>> : e \in {<<1, 2>>, <<0, 3>>, <<-2, 1>>}}, {<<"oj", m>> : m \in {<< <<1, 2, 0>>, <<3, 4, 1>> >>, << <<5>>, <<6>> >>}}, Gets("one", {"error", "jacobian", "dim"}) >>
    [] P("dir") -> << {<<"v", e>> : e \in {<<1, 0, 0>>, <<1, 2, 3>>}}, {<<"R", m>> : m \in {Id3, Rz, Rx}}, {<<"vj", m>> : m \in {J62, Id6}}, {<<"vd", e>> : e \in {<<0, 0, 1>>, <<2, 1, 0>>}}, Gets("dir", {"error", "jacobian", "dim"}) >>
    [] P("resize") -> << {<<"q", e>> : e \in {<<1, 2, 3>>, <<4, 9>>}}, {<<"p", e>> : e \in {<<0, 1, 5>>, <<2, 2>>}}, {<<"dof", i, x>> : i \in 0..2, x \in BOOLEAN}, Gets("post", {"error", "jacobian", "dim"}) >>
    [] P("post") -> << {<<"q", e>> : e \in {<<1, 2, 3>>, <<4, 4, 9>>}}, {<<"p", e>> : e \in {<<0, 1, 5>>, <<2, 2, 2>>}}, {<<"pd", e>> : e \in {<<1, 2, 3>>}}, {<<"dof", i, x>> : i \in 0..3, x \in BOOLEAN}, Gets("post", {"error", "errordot", "jacobian", "dim"}) >>
    [] P("img") -> << {<<"xy", e>> : e \in {<<1, 2>>, <<0, -1>>}}, {<<"z", e>> : e \in {2, 0, -1}}, {<<"xj", m>> : m \in {J62}}, {<<"rxy", e>> : e \in {<<1, 1>>, <<-2, 3>>}}, {<<"xsel", b, d>> : b \in {<<>>, <<FALSE>>}, d \in BOOLEAN},
                     {<<"ref", i>> : i \in {0, 1, 9}}, Gets("img", {"error", "jacobian", "dim"}) >>
    [] OTHER -> << {<<"jq", e>> : e \in {<<0, 1, 2, 3, 4, 5, 6>>, <<1, 1, 1, 1, 1, 1, 1>>}}, {<<"ju", e>> : e \in {<<4, 4, 4, 4, 4, 8, 8>>, <<2, 2, 2, 2, 2, 8, 4>>}}, {<<"jl", e>> : e \in {<<0, 0, 0, 0, 0, 0, 0>>}},
                     {<<"jsel", b, d>> : b \in {<<>>, <<TRUE, FALSE>>}, d \in BOOLEAN}, {<<"actuate">>}, Gets("lim", {"error", "jacobian", "dim", "width"}) >>
Bound(st) == TRUE
Inv(st) ==
  \* the Jacobian is the derivative of the error
  /\ (st.oe.on /\ st.oj.on /\ Len(st.oj.v) = Len(st.oe.v)) => (\A j \in 1..Cols(st.oj.v) :
        OneError(Add(st.oe.v, Col(st.oj.v, j)))[1] - OneError(st.oe.v)[1] = OneJac(st.oe.v, st.oj.v)[1][j] + 4 * Dot(Col(st.oj.v, j), Col(st.oj.v, j)))
  /\ (st.jq.on /\ st.ju.on /\ st.jl.on /\ Len(st.jq.v) = Len(st.ju.v) /\ Len(st.jl.v) = Len(st.ju.v)) => (\A j \in DOMAIN st.jq.v : \A k \in DOMAIN JSel(st) : (W(st, JSel(st)[k]) > 0 /\ 16 % W(st, JSel(st)[k]) = 0) =>
        JErr([st.jq.v EXCEPT ![j] = @ + 8], st)[k] - JErr(st.jq.v, st)[k] = 8 * JJac(st)[k][j])
  \* turning the frame moves the direction orthogonally to itself
  /\ (st.R.on /\ st.v.on /\ st.vj.on) => (\A j \in 1..Cols(st.vj.v) : Dot(DirCol(st, j), MulV(st.R.v, st.v.v)) = 0)
  /\ Len(st.pj) = Len(Act(st))
StepOK(st, o, r) == o[1] = "get" => r.st = st
=============================================================================
