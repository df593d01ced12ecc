------------------------------- MODULE Sot -------------------------------
(* The hierarchical solver (class Sot): an ordered stack of tasks edited by
   commands, and the control it computes.

   State of the specification: number of joints, stack (sequence of task
   identifiers, highest priority first), definition of every task, inputs.
   A task is a set of scalar equations  c * u[j] = e  (rows <<j, c>>, values e).
   The implementation sees them through orthogonal changes of coordinates of
   the joint space (basis) and of the task space, which the solution of the
   lexicographic least-squares problem is equivariant to; so the oracle stays
   exact integer arithmetic (in units of 1/40) while the code runs its real
   floating-point null-space algorithm on non-diagonal matrices.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Profile
NT == 5
NoRows == [rows |-> <<>>, err |-> <<>>]
InitSt == [n |-> 0, stack |-> <<>>, defs |-> [i \in 1..NT |-> NoRows], on |-> [i \in 1..NT |-> TRUE],
           q0 |-> <<>>, proj |-> <<0>>, damp |-> 0, max |-> -1, accel |-> FALSE,
           post |-> [st |-> <<>>, des |-> <<>>, on |-> <<>>], evald |-> TRUE]
(* proj = <<0>>: not plugged;  <<-1>>: plugged with a wrong number of rows;
   otherwise the joints spanned by the projector                            *)

Name(i) == "t" \o ToString(i)
RECURSIVE IndexOf(_, _)
IndexOf(s, x) == IF s = <<>> THEN 0 ELSE IF Head(s) = x THEN 1 ELSE LET k == IndexOf(Tail(s), x) IN IF k = 0 THEN 0 ELSE k + 1
RemoveAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Swap(s, a, b) == [k \in DOMAIN s |-> IF k = a THEN s[b] ELSE IF k = b THEN s[a] ELSE s[k]]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
ListText(s) == "( " \o Cat([k \in DOMAIN s |-> "\"" \o Name(s[k]) \o "\", "]) \o ")"
Bar == "+-----------------\n"
DisplayText(s) == Bar \o "+   SOT     \n" \o Bar \o Cat([k \in DOMAIN s |-> "| " \o Name(s[k]) \o "\n"]) \o Bar
GraphText(s) == Cat([k \in 1..(IF Len(s) = 0 THEN 0 ELSE Len(s) - 1) |-> "\t\t\t\"" \o Name(s[k]) \o "\" -> \"" \o Name(s[k+1]) \o "\" [color=red]\n"])
   \o "\t\tsubgraph cluster_Tasks {\n\t\t\tsubgraph \"cluster_sot\" {\n\t\t\t\tcolor=lightsteelblue1; label=\"sot\"; style=filled;\n"
   \o Cat([k \in DOMAIN s |-> "\t\t\t\t\"" \o Name(s[k]) \o "\" [ label = \"" \o Name(s[k]) \o "\" ,\n\t\t\t\t   fontcolor = black, color = black, fillcolor = magenta, style=filled, shape=box ]\n"])
   \o "\t\t\t}\n\t\t\t}\n"

-----------------------------------------------------------------------------
(* The control law *)
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Rows(st, t) == IF t = 5
  THEN LET m == Len(st.post.on) IN [k \in 1..m |-> <<st.post.on[k], 1>>]
  ELSE st.defs[t].rows
Errs(st, t) == IF t = 5
  THEN LET m == Len(st.post.on) IN [k \in 1..m |-> -(st.post.st[st.post.on[k]] - st.post.des[st.post.on[k]])]
  ELSE st.defs[t].err
(* sum of the squared coefficients / of the projected errors of task t on joint j *)
SqOn(rows, j) == SumTo([k \in DOMAIN rows |-> IF rows[k][1] = j THEN rows[k][2] * rows[k][2] ELSE 0], Len(rows))
(* update (in 1/40) of joint j when its current control is u (in 1/40) *)
UpdOn(rows, errs, j, u) == SumTo([k \in DOMAIN rows |-> IF rows[k][1] = j THEN rows[k][2] * (40 * errs[k] - rows[k][2] * u) ELSE 0], Len(rows)) \div SqOn(rows, j)
Active(st, t) == t <= 3 \/ st.on[t]
(* joints of F that task t moves: the singular value must exceed the threshold *)
Moved(st, t, F) == IF ~Active(st, t) THEN {} ELSE {j \in F : LET s == SqOn(Rows(st, t), j) IN s > 0 /\ 100 * s > (IF st.damp = 0 THEN 0 ELSE st.damp * st.damp)}
Norm2(upd, n) == SumTo([j \in 1..n |-> upd[j] * upd[j]], n)
RECURSIVE Solve(_, _, _, _, _)
Solve(st, k, u, F, hasK) ==
  IF k > Len(st.stack) \/ (hasK /\ F = {} /\ k > 1) THEN u
  ELSE LET t == st.stack[k]
           rows == Rows(st, t)  errs == Errs(st, t)
           mv == IF st.accel /\ k = Len(st.stack) /\ t = 5 /\ Active(st, t) /\ Len(st.post.on) = st.n - 6 THEN F \cap {st.post.on[x] : x \in DOMAIN st.post.on} ELSE Moved(st, t, F)
           upd == [j \in 1..st.n |-> IF j \in mv THEN UpdOn(rows, errs, j, u[j]) ELSE 0]
           \* the limit is given in 1/3200 (odd numbers), the update in 1/40
           full == k = Len(st.stack) /\ st.accel /\ t = 5 /\ Active(st, t) /\ Len(st.post.on) = st.n - 6
           discard == ~full /\ st.max >= 0 /\ 2 * Norm2(upd, st.n) > st.max
       IN IF discard THEN Solve(st, k + 1, u, F, hasK)
          ELSE Solve(st, k + 1, [j \in 1..st.n |-> u[j] + upd[j]], F \ mv, TRUE)
Control(st) ==
  IF st.q0 # <<>> /\ Len(st.q0) # st.n THEN <<"exc", "length_error">>
  ELSE IF st.q0 = <<>> /\ st.stack = <<>> THEN <<"exc", "logic_error">>
  ELSE LET u0 == IF st.q0 = <<>> THEN [j \in 1..st.n |-> 0] ELSE [j \in 1..st.n |-> 40 * st.q0[j]]
           plugged == st.proj # <<0>> /\ st.proj # <<-1>>
           F0 == IF plugged THEN {st.proj[k] : k \in DOMAIN st.proj} \cap (1..st.n) ELSE 1..st.n
       IN <<"ok", Solve(st, 1, u0, F0, plugged)>>

-----------------------------------------------------------------------------
Ok(st) == [st |-> st, obs |-> <<"ok">>]
Look(st, obs) == [st |-> st, obs |-> obs]
Apply(st, o) ==
  CASE o[1] = "setSize" -> Ok([st EXCEPT !.n = o[2]])
    [] o[1] = "getSize" -> Look(st, <<st.n>>)
    [] o[1] = "push" -> IF o[2] = 0 THEN Look(st, <<"exc", "sot", 401>>)
                        ELSE IF st.n = 0 THEN Look(st, <<"exc", "logic_error">>)
                        ELSE Ok([st EXCEPT !.stack = Append(@, o[2])])
    [] o[1] = "pop" -> [st |-> [st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)], obs |-> <<"ok", Name(st.stack[Len(st.stack)])>>]
    [] o[1] = "remove" -> IF o[2] = 0 THEN Look(st, <<"exc", "sot", 401>>)
                          ELSE LET k == IndexOf(st.stack, o[2]) IN Ok(IF k = 0 THEN st ELSE [st EXCEPT !.stack = RemoveAt(@, k)])
    [] o[1] = "up" -> IF o[2] = 0 THEN Look(st, <<"exc", "sot", 401>>)
                      ELSE LET k == IndexOf(st.stack, o[2]) IN Ok(IF k <= 1 THEN st ELSE [st EXCEPT !.stack = Swap(@, k - 1, k)])
    [] o[1] = "down" -> IF o[2] = 0 THEN Look(st, <<"exc", "sot", 401>>)
                        ELSE LET k == IndexOf(st.stack, o[2]) IN Ok(IF k = 0 \/ k = Len(st.stack) THEN st ELSE [st EXCEPT !.stack = Swap(@, k, k + 1)])
    [] o[1] = "clear" -> Ok([st EXCEPT !.stack = <<>>])
    [] o[1] = "exist" -> Look(st, <<IndexOf(st.stack, o[2]) > 0>>)
    [] o[1] = "list" -> Look(st, <<ListText(st.stack)>>)
    [] o[1] = "display" -> Look(st, <<DisplayText(st.stack)>>)
    [] o[1] = "graph" -> Look(st, <<GraphText(st.stack)>>)
    [] o[1] \in {"basis", "unit"} -> Ok(st)   \* other coordinates, other units: the same law
    [] o[1] = "task" -> Ok([st EXCEPT !.defs[o[2]] = [rows |-> o[3], err |-> o[4]]])
    [] o[1] = "sel" -> Ok([st EXCEPT !.on[o[2]] = o[3]])
    [] o[1] = "q0" -> Ok([st EXCEPT !.q0 = o[2]])
    [] o[1] = "proj" -> Ok([st EXCEPT !.proj = o[2]])
    [] o[1] = "badproj" -> Ok([st EXCEPT !.proj = <<-1>>])
    [] o[1] = "noproj" -> Ok([st EXCEPT !.proj = <<0>>])
    [] o[1] = "damp" -> Ok([st EXCEPT !.damp = o[2]])
    [] o[1] = "max" -> Ok([st EXCEPT !.max = o[2]])
    [] o[1] = "getMax" -> Look(st, <<st.max>>)
    [] o[1] = "accel" -> Ok([st EXCEPT !.accel = o[2]])
    [] o[1] = "getAccel" -> Look(st, <<st.accel>>)
    [] o[1] = "posture" -> Ok([st EXCEPT !.post = [st |-> o[2], des |-> o[3], on |-> o[4]]])
    [] o[1] = "tick" -> Ok(st)
    [] o[1] = "control" -> Look(st, Control(st))

-----------------------------------------------------------------------------
(* Operations offered to the checker, by profile *)
Ids == 1..3
EditOps(st) == << {<<"push", i>> : i \in Ids}, {<<"remove", i>> : i \in Ids}, {<<"up", i>> : i \in Ids}, {<<"down", i>> : i \in Ids},
               {<<"exist", i>> : i \in Ids}, {<<"list">>, <<"clear">>}, {<<"display">>, <<"graph">>},
               {<<"setSize", n>> : n \in {0, 3}}, {<<"getSize">>}, {<<"push", 0>>, <<"remove", 0>>, <<"up", 0>>, <<"down", 0>>},
               IF st.stack = <<>> THEN {} ELSE {<<"pop">>} >>
Distinct(s) == \A a, b \in DOMAIN s : a # b => s[a] # s[b]
(* solver profile: a catalogue of small tasks on three joints *)
Cat1 == {<< <<1, 1>> >>, << <<1, 2>>, <<2, -1>> >>}
Cat2 == {<< <<1, 1>> >>, << <<2, 2>>, <<3, 1>> >>, << <<1, 1>>, <<1, 2>> >>}
ErrOf(rows, e) == [k \in DOMAIN rows |-> e + k]
SolveOps(st) ==
  IF st.n = 0 THEN << {<<"setSize", 3>>} >>
  ELSE IF st.defs[3].rows = <<>> THEN << {<<"task", 3, << <<3, 1>>, <<2, 1>> >>, <<2, 5>> >>} >>
  ELSE IF st.defs[1].rows = <<>> THEN << {<<"task", 1, r, ErrOf(r, 1)>> : r \in Cat1} >>
  ELSE IF st.defs[2].rows = <<>> THEN << {<<"task", 2, r, ErrOf(r, -3)>> : r \in Cat2} >>
  ELSE << {<<"push", i>> : i \in {i \in 1..3 : IndexOf(st.stack, i) = 0}}, {<<"remove", 1>>}, {<<"up", 2>>, <<"down", 1>>},
          {<<"task", 2, r, ErrOf(r, -3)>> : r \in Cat2},
          {<<"q0", <<>> >>, <<"q0", <<1, -2, 3>> >>}, {<<"proj", <<2, 3>> >>, <<"noproj">>, <<"badproj">>},
          {<<"max", -1>>, <<"max", 14401>>}, {<<"control">>} >>
Ops(st) == CASE Profile = "edit" -> EditOps(st)
             [] Profile = "solve" -> SolveOps(st)
             [] OTHER -> <<{}>>
Bound(st) == CASE Profile = "edit" -> Len(st.stack) <= 3
               [] OTHER -> Len(st.stack) <= 3
-----------------------------------------------------------------------------
(* What must be true of every state and of every step *)
Inv(st) == \A k \in DOMAIN st.stack : st.stack[k] \in 1..NT
(* strict priority: the tasks above level k get the same residual whatever is below *)
PrefixKept(st) == \A k \in 1..Len(st.stack) :
   LET full == Control(st)  cut == Control([st EXCEPT !.stack = SubSeq(@, 1, k)])
   IN full[1] = "ok" => \A m \in 1..k : LET t == st.stack[m] IN Active(st, t) =>
        \A r \in DOMAIN Rows(st, t) : LET j == Rows(st, t)[r][1] IN
           (j \in Moved(st, t, 1..st.n) /\ st.max < 0 /\ st.proj[1] <= 0) => full[2][j] = cut[2][j]
StepOK(st, o, r) ==
  /\ o[1] \in {"list", "display", "graph", "exist", "getSize", "control", "getMax", "getAccel"} => r.st = st
  /\ o[1] \in {"up", "down"} => \A i \in 1..NT : Cardinality({k \in DOMAIN st.stack : st.stack[k] = i}) = Cardinality({k \in DOMAIN r.st.stack : r.st.stack[k] = i})
  /\ o[1] = "push" /\ r.obs = <<"ok">> => r.st.stack[Len(r.st.stack)] = o[2] /\ SubSeq(r.st.stack, 1, Len(st.stack)) = st.stack
  /\ o[1] = "control" => PrefixKept(st)
=============================================================================
