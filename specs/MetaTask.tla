----------------------------- MODULE MetaTask -----------------------------
(* The ready-made tasks: which entities they create, what is plugged where,
   and what their helper functions change.  A pose is a 4x4 integer matrix
   (angles are quarter turns); vectors are in quarters of a unit.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kinds, MaxInst
Unset == <<"unset">>
V(x) == <<"v", x>>
InitSt == [n |-> 0, inst |-> <<>>]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
Id4 == << <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>> >>
C(k) == CASE k = 0 -> 1 [] k = 1 -> 0 [] k = 2 -> -1 [] k = 3 -> 0
S(k) == CASE k = 0 -> 0 [] k = 1 -> 1 [] k = 2 -> 0 [] k = 3 -> -1
Mul3(A, B) == [i \in 1..3 |-> [j \in 1..3 |-> A[i][1] * B[1][j] + A[i][2] * B[2][j] + A[i][3] * B[3][j]]]
Rpy(r, p, y) == Mul3(<< <<C(y), -S(y), 0>>, <<S(y), C(y), 0>>, <<0, 0, 1>> >>, Mul3(<< <<C(p), 0, S(p)>>, <<0, 1, 0>>, <<-S(p), 0, C(p)>> >>, << <<1, 0, 0>>, <<0, C(r), -S(r)>>, <<0, S(r), C(r)>> >>))
HomoM(A, t) == << <<A[1][1], A[1][2], A[1][3], t[1]>>, <<A[2][1], A[2][2], A[2][3], t[2]>>, <<A[3][1], A[3][2], A[3][3], t[3]>>, <<0, 0, 0, 1>> >>
(* a position given in any of the accepted forms *)
Ref6d(form, d) == CASE form \in {"t3", "a3", "m13", "m31"} -> HomoM(Id4, d) [] form \in {"M44t", "M44a", "M44m"} -> d [] form \in {"p6t", "p6a"} -> HomoM(Rpy(d[4], d[5], d[6]), d)
(* gains are in tenths *)
Gain(g, form, v) == IF form = "none" \/ Len(v) = 2 THEN g ELSE IF Len(v) = 1 THEN <<"constant">> \o v ELSE IF Len(v) = 3 THEN <<"adaptive">> \o v ELSE <<"bypoint">> \o v
Range(limb) == CASE limb = "rleg" -> 6..11 [] limb = "rhip" -> 6..8 [] limb = "rknee" -> {9} [] limb = "rankle" -> 10..11 [] limb = "lleg" -> 12..17 [] limb = "lhip" -> 12..14 [] limb = "lknee" -> {15} [] limb = "lankle" -> 16..17
   [] limb = "chest" -> 18..19 [] limb = "head" -> 20..21 [] limb = "rarm" -> 22..27 [] limb = "rshoulder" -> 22..24 [] limb = "relbow" -> {25} [] limb = "rwrist" -> 26..27 [] limb = "rhand" -> {28}
   [] limb = "larm" -> 29..34 [] limb = "lshoulder" -> 29..31 [] limb = "lelbow" -> {32} [] limb = "lwrist" -> 33..34 [] limb = "lhand" -> {35} [] OTHER -> {}
First(limb) == CHOOSE x \in Range(limb) : \A y \in Range(limb) : x <= y
(* the limbs in turn: [q, sel, err] *)
RECURSIVE Limbs(_, _, _)
Limbs(q, sel, ls) == IF ls = <<>> THEN [q |-> q, sel |-> sel, err |-> ""]
  ELSE LET l == Head(ls)  r == Range(l[1])  v == l[3] IN
    IF r = {} THEN [q |-> q, sel |-> sel, err |-> "KeyError"]
    ELSE IF v # <<>> /\ Len(v) # 1 /\ Len(v) # Cardinality(r) THEN [q |-> q, sel |-> sel, err |-> "ValueError"]
    ELSE Limbs([k \in DOMAIN q |-> IF v = <<>> \/ (k - 1) \notin r THEN q[k] ELSE IF Len(v) = 1 THEN v[1] ELSE v[k - First(l[1])]],
               [k \in DOMAIN sel |-> sel[k] \/ (k - 1) \in r], Tail(ls))
Bits(sel) == Cat([k \in DOMAIN sel |-> IF sel[k] THEN "1" ELSE "0"])
D(st, i) == "dyn" \o ToString(i)
Feat(m) == CASE m.kind = "rel" -> "featureRel" \o m.name [] OTHER -> "feature" \o m.name
Look(m) == LET d == m.dyn  n == m.name
               common == <<m.sel, <<Feat(m)>>, "task" \o n \o ".error", "gain" \o n \o ".gain", m.gain, m.val, m.rjd>>
  IN CASE m.kind = "6d" -> <<m.made, m.pos, m.jac, d \o "." \o m.op, d \o ".J" \o m.op, Feat(m) \o "_ref", "current">> \o common
       [] m.kind = "rel" -> <<m.made, m.pos, m.jac, d \o "." \o m.op, d \o ".J" \o m.op, Feat(m) \o "_ref", "current">> \o common \o <<m.posB, m.jacB, d \o "." \o m.opB, d \o ".J" \o m.opB, m.valB>>
       [] m.kind = "com" -> <<d \o ".com", d \o ".Jcom", "featureDes" \o n>> \o common
       [] m.kind = "posture" -> <<d \o ".position", m.dof, "featureDes" \o n>> \o common
       [] m.kind = "visual" -> <<m.made, m.pos, m.jac, d \o "." \o m.op, d \o ".J" \o m.op, "proj" \o n \o ".point2D", "proj" \o n \o ".depth", Feat(m) \o "_ref">> \o common \o <<m.tgt>>
New(st, kind, n, dof, op, ref, pre, rjd, opB, refB) ==
  LET d == D(st, st.n + 1)  on == kind \in {"6d", "rel", "visual"}
      made1 == IF on /\ pre # 1 THEN << <<op, IF ref = "" THEN "right-wrist" ELSE ref>> >> ELSE <<>>
      made2 == IF kind = "rel" /\ opB # op THEN << <<opB, IF refB = "" THEN "left-wrist" ELSE refB>> >> ELSE <<>>
  IN [kind |-> kind, name |-> n, dyn |-> d, dof |-> dof, op |-> op, opB |-> opB, made |-> made1 \o made2, pos |-> d \o "." \o op, jac |-> d \o ".J" \o op, posB |-> d \o "." \o opB, jacB |-> d \o ".J" \o opB,
      T |-> <<"off">>, TB |-> <<"off">>, val |-> Unset, valB |-> Unset, tgt |-> Unset, rjd |-> <<rjd, 0>>,
      sel |-> CASE kind \in {"6d", "rel"} -> "111111" [] kind = "visual" -> "11" [] OTHER -> "unset", gain |-> IF on THEN <<"adaptive", 1, 1, 1250000>> ELSE <<"unset">>]
Upd(st, i, m) == [st |-> [st EXCEPT !.inst[i] = m], obs |-> Look(m)]
Rjd(r, reset) == IF r[1] /\ reset THEN <<TRUE, r[2] + 1>> ELSE r
OpMod(m, on, T) ==
  [m EXCEPT !.T = IF on THEN <<"on", T>> ELSE <<"off">>, !.pos = IF on THEN "opmodif" \o m.name \o ".position" ELSE m.dyn \o "." \o m.op, !.jac = IF on THEN "opmodif" \o m.name \o ".jacobian" ELSE m.dyn \o ".J" \o m.op]
OpModB(m, on, T) ==
  [m EXCEPT !.TB = IF on THEN <<"on", T>> ELSE <<"off">>, !.posB = IF on THEN "opmodifBase" \o m.name \o ".position" ELSE m.dyn \o "." \o m.opB, !.jacB = IF on THEN "opmodifBase" \o m.name \o ".jacobian" ELSE m.dyn \o ".J" \o m.opB]
Apply(st, o) ==
  IF o[1] = "new" THEN LET m == New(st, o[2], o[3], o[4], o[5], o[6], o[7], o[8], o[9], o[10]) IN [st |-> [n |-> st.n + 1, inst |-> Append(st.inst, m)], obs |-> Look(m)]
  ELSE LET i == o[2]  m == st.inst[i] IN
  CASE o[1] = "opmodif" -> Upd(st, i, IF o[3] = "" THEN OpMod(m, o[4] = "on", o[5]) ELSE OpModB(m, o[4] = "on", o[5]))
    [] o[1] = "getopmodif" -> [st |-> st, obs |-> IF o[3] = "" THEN m.T ELSE m.TB]
    [] o[1] = "ref" -> Upd(st, i, [m EXCEPT !.val = V(o[4])])
    [] o[1] = "getref" -> [st |-> st, obs |-> IF m.val = Unset THEN <<"exc", "RuntimeError">> ELSE <<m.val[2]>>]
    [] o[1] = "target" -> Upd(st, i, [m EXCEPT !.tgt = V(o[3])])
    [] o[1] = "keep" -> [st |-> st, obs |-> << <<"recompute", Feat(m) \o ".position", o[3]>>, <<"keep", Feat(m)>> >>]
    [] o[1] = "look" -> [st |-> st, obs |-> Look(m)]
    [] o[1] = "setgain" -> Upd(st, i, [m EXCEPT !.gain = Gain(@, o[3], o[4])])
    [] o[1] = "goto6d" -> Upd(st, i, [m EXCEPT !.val = V(Ref6d(o[3], o[4])), !.sel = "111111", !.gain = Gain(@, o[5], o[6]), !.rjd = Rjd(@, o[7])])
    [] o[1] = "gotoNd" -> Upd(st, i, [m EXCEPT !.val = V(Ref6d(o[3], o[4])), !.sel = IF o[8] = "none" THEN @ ELSE o[9], !.gain = Gain(@, o[5], o[6]), !.rjd = Rjd(@, o[7])])
    [] o[1] = "goto6dRel" -> Upd(st, i, [m EXCEPT !.val = V(Ref6d(o[3], o[4])), !.valB = V(Ref6d(o[8], o[9])), !.sel = "111111", !.gain = Gain(@, o[5], o[6]), !.rjd = Rjd(@, o[7])])
    [] o[1] = "gotoNdRel" -> Upd(st, i, [m EXCEPT !.val = V(Ref6d(o[3], o[4])), !.valB = V(Ref6d(o[8], o[9])), !.sel = IF o[10] = "none" THEN @ ELSE o[11], !.gain = Gain(@, o[5], o[6]), !.rjd = Rjd(@, o[7])])
    [] o[1] = "goto3D" -> Upd(st, i, [m EXCEPT !.tgt = V(o[3]), !.val = IF o[6] = <<>> THEN @ ELSE V(o[6]), !.sel = IF o[7] = "none" THEN @ ELSE o[8], !.gain = Gain(@, o[4], o[5])])
    [] o[1] = "gotoq" -> LET q0 == IF o[5] = "none" THEN [k \in 1..m.dof |-> 0] ELSE o[6]  r == Limbs(q0, [k \in 1..m.dof |-> FALSE], o[7]) IN
         IF r.err # "" THEN [st |-> st, obs |-> <<"exc", r.err>>]
         ELSE Upd(st, i, [m EXCEPT !.val = V(r.q), !.sel = Bits(r.sel), !.gain = Gain(@, o[3], o[4])])
M1 == HomoM(Rpy(1, 0, 2), <<1, 2, 3>>)
Poses == {<<"t3", <<1, 2, 3>> >>, <<"a3", <<4, 5, 6>> >>, <<"m13", <<7, -8, 9>> >>, <<"m31", <<-1, 2, 0>> >>, <<"M44t", M1>>, <<"M44a", HomoM(Rpy(3, 1, 1), <<0, -1, 5>>)>>, <<"M44m", HomoM(Rpy(0, 2, 1), <<9, 1, 1>>)>>, <<"p6t", <<1, 2, 3, 1, 2, 3>> >>, <<"p6a", <<3, 2, 1, 0, 1, 3>> >>}
Gains == {<<"none", <<>> >>, <<"int", <<20>> >>, <<"float", <<15>> >>, <<"tuple", <<7>> >>, <<"list", <<40, 5, 30>> >>, <<"tuple", <<40, 5, 1, 9>> >>, <<"list", <<1, 2>> >>}
G0 == <<"none", <<>> >>
P(a, b, c, dd, e) == <<a, b[1], b[2], c[1], c[2], dd>> \o e
Q(n) == [k \in 1..n |-> ((k * 7) % 11) - 5]
Ops(st) == << IF st.n < MaxInst THEN {<<"new", k, IF st.n = 0 THEN "a" ELSE "b", 38, "op", "", pre, FALSE, "ob", "">> : k \in Kinds, pre \in {0, 1}}
     \cup {<<"new", k, "c", 36, "op", "hip", pre, pre = 2, "ob", "ankle">> : k \in Kinds \ {"com"}, pre \in {2, 3}} ELSE {} >> \o
   IF st.n = 0 THEN <<>> ELSE LET i == st.n  m == st.inst[i]  k == m.kind IN << {<<"look", j>> : j \in 1..st.n},
    IF k \in {"6d", "rel", "visual"} THEN {<<"getopmodif", i, "">>, <<"opmodif", i, "", "off", Id4>>, <<"opmodif", i, "", "on", M1>>} ELSE {},
    IF k = "rel" THEN {<<"getopmodif", i, "B">>, <<"opmodif", i, "B", "off", Id4>>, <<"opmodif", i, "B", "on", M1>>} ELSE {}, {<<"getref", i>>},
    IF m.val # Unset \/ m.gain[1] \in {"bypoint", "constant"} THEN {} ELSE
    CASE k = "6d" -> {<<"keep", i, 7>>, <<"ref", i, "tuple", M1>>} \cup {P("goto6d", <<i, p[1]>>, <<p[2], g[1]>>, g[2], <<r>>) : p \in Poses, g \in Gains, r \in BOOLEAN} \cup {<<"gotoNd", i, p[1], p[2], "none", <<>>, TRUE, s, "0101">> : p \in Poses, s \in {"none", "flags", "str", "list"}}
      [] k = "rel" -> {<<"keep", i, 7>>, <<"ref", i, "array", M1>>} \cup {<<"goto6dRel", i, p[1], p[2], "int", <<20>>, r, z[1], z[2]>> : p \in Poses, z \in Poses, r \in BOOLEAN} \cup {<<"gotoNdRel", i, "M44t", M1, g[1], g[2], TRUE, p[1], p[2], s, "011">> : p \in Poses, s \in {"none", "flags", "str", "list"}, g \in Gains}
      [] k = "com" -> {<<"ref", i, "tuple", <<1, 2, 3>> >>} \cup {<<"setgain", i, g[1], g[2]>> : g \in Gains}
      [] k = "visual" -> {<<"ref", i, "tuple", <<1, 2>> >>, <<"target", i, <<1, 2, 3>> >>} \cup {<<"goto3D", i, <<3, 2, 1>>, g[1], g[2], r, s, "10">> : g \in Gains, r \in {<<>>, <<2, 4>>}, s \in {"none", "flags", "str", "list"}}
      [] k = "posture" -> {<<"ref", i, "tuple", Q(m.dof)>>} \cup {<<"gotoq", i, "int", <<10>>, f, Q(m.dof), l>> : f \in {"none", "tuple", "array", "colm", "rowm"}, l \in {<<>>, << <<"rknee", "list", <<>> >> >>, << <<"lhand", "list", <<3>> >> >>, << <<"nothing", "list", <<>> >> >>, << <<"head", "list", <<1, 2, 3>> >> >>} }
            \cup {<<"gotoq", i, g[1], g[2], "none", <<>>, << <<"chest", f, <<1, -2>> >>, <<"rarm", "scalar", <<5>> >> >> >> : g \in Gains, f \in {"list", "tuple", "array", "rowm", "colm"}}
            \cup {<<"gotoq", i, "none", <<>>, "ituple", [x \in 1..m.dof |-> 4 * ((x % 5) - 2)], << <<l, "list", [x \in 1..Cardinality(Range(l)) |-> x]>> >> >> : l \in {"rleg", "rhip", "rknee", "rankle", "lleg", "lhip", "lknee", "lankle", "chest", "head", "rarm", "rshoulder", "relbow", "rwrist", "rhand", "larm", "lshoulder", "lelbow", "lwrist", "lhand"}} >>
Bound(st) == TRUE
Inv(st) == \A i \in DOMAIN st.inst : LET m == st.inst[i] IN (m.T[1] = "off") = (m.pos = m.dyn \o "." \o m.op) /\ (m.T[1] = "off") = (m.jac = m.dyn \o ".J" \o m.op)
(* no task changes another one; reading changes nothing *)
StepOK(st, o, r) == (o[1] # "new" => \A i \in DOMAIN st.inst : (i # o[2] => r.st.inst[i] = st.inst[i])) /\ (o[1] \in {"look", "getref", "getopmodif", "keep"} => r.st = st)
=============================================================================
