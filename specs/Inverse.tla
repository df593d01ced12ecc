-------------------------------- MODULE Inverse --------------------------------
(* Pseudo-inverse and damped inverse of A = U S V^T, where U and V are          *)
(* orthogonal (given five times larger) and S holds the singular values.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Profile
InitSt == 0
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Sum(_, _, _)
Sum(f, i, n) == IF i > n THEN 0 ELSE f[i] + Sum(f, i + 1, n)
Mul(A, B) == [i \in DOMAIN A |-> [j \in DOMAIN B[1] |-> Sum([k \in DOMAIN B |-> A[i][k] * B[k][j]], 1, Len(B))]]
Tra(A) == [j \in DOMAIN A[1] |-> [i \in DOMAIN A |-> A[i][j]]]
\* r x c matrix with d on its diagonal
Diag(d, r, c) == [i \in 1..r |-> [j \in 1..c |-> IF i = j THEN d[i] ELSE 0]]
Prod(U, d, V) == Mul(Mul(U, Diag(d, Len(U), Len(V))), Tra(V))
\* common denominators, and the inverses of singular values: threshold of the pseudo-inverse in halves, damping in units
PL == 60
Pinv(s, h) == IF 2 * s > h THEN PL \div s ELSE 0
DL(k) == CASE k = 0 -> 60 [] k = 1 -> 10 [] k = 2 -> 20 [] k = 3 -> 30
Damp(s, k) == IF s = 0 THEN 0 ELSE (DL(k) * s) \div (s * s + k * k)
Exact(s, k) == (DL(k) * s) % (IF s = 0 THEN 1 ELSE s * s + k * k) = 0
RECURSIVE SortDown(_)
SortDown(s) == IF s = <<>> THEN <<>> ELSE LET m == CHOOSE i \in DOMAIN s : \A j \in DOMAIN s : s[j] <= s[i] IN <<s[m]>> \o SortDown([i \in 1..(Len(s) - 1) |-> IF i < m THEN s[i] ELSE s[i + 1]])
Inv0(U, s, V, f(_)) == Prod(V, [i \in DOMAIN s |-> f(s[i])], U)
Apply(st, o) == LET U == o[2]  s == o[3]  V == o[4]  k == o[5] IN
  CASE o[1] = "pinv" -> [st |-> st, obs |-> <<"ok", Inv0(U, s, V, LAMBDA x : Pinv(x, k))>>]
    [] o[1] = "damp" -> [st |-> st, obs |-> <<"ok", Inv0(U, s, V, LAMBDA x : Damp(x, k))>>]
    [] o[1] = "full" -> [st |-> st, obs |-> <<"ok", Inv0(U, s, V, LAMBDA x : Damp(x, k))>>]                 \* from a decomposition made by the caller
    [] o[1] = "parts" -> [st |-> st, obs |-> <<"ok", Inv0(U, s, V, LAMBDA x : Damp(x, k)), SortDown(s), Prod(U, s, V)>>]
Q1 == << <<5>> >>
Q2 == { << <<5, 0>>, <<0, 5>> >>, << <<0, -5>>, <<5, 0>> >>, << <<3, -4>>, <<4, 3>> >> }
Q3 == { << <<5, 0, 0>>, <<0, 5, 0>>, <<0, 0, 5>> >>, << <<0, 3, 4>>, <<-5, 0, 0>>, <<0, -4, 3>> >>, << <<3, 0, 4>>, <<0, 5, 0>>, <<-4, 0, 3>> >> }
Qs(n) == CASE n = 1 -> {Q1} [] n = 2 -> Q2 [] n = 3 -> Q3
Sv(k) == CASE k = 0 -> {1, 2, 6} [] k = 1 -> {0, 1, 2, 3} [] k = 2 -> {0, 1, 2, 4} [] k = 3 -> {0, 1, 3}
Seqs(n, S) == [1..n -> S]
Shapes == CASE Profile = "flat" -> {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<1, 3>>, <<3, 1>>, <<2, 2>>} [] OTHER -> {<<2, 3>>, <<3, 2>>, <<2, 2>>}
OpsOf(r, c) == UNION {{<<f, U, s, V, k>> : f \in {"damp", "full", "parts"}, U \in Qs(r), V \in Qs(c), s \in Seqs(Min(r, c), Sv(k))} : k \in 0..3}
          \union {<<"pinv", U, s, V, h>> : U \in Qs(r), V \in Qs(c), s \in Seqs(Min(r, c), {0, 1, 2, 5}), h \in {0, 5}}
Ops(st) == <<UNION {OpsOf(x[1], x[2]) : x \in Shapes}>>
Bound(st) == TRUE
Inv(st) == TRUE
(* the four conditions of Penrose, where nothing is cut; and nothing is ever amplified more than by 1/(2 k) *)
Penrose(A, X) == LET s == 25 * 25 * PL IN Mul(Mul(A, X), A) = [i \in DOMAIN A |-> [j \in DOMAIN A[1] |-> s * A[i][j]]] /\ Mul(A, X) = Tra(Mul(A, X)) /\ Mul(X, A) = Tra(Mul(X, A))
StepOK(st, o, r) ==
  /\ (o[1] = "pinv" /\ o[5] = 0 => Penrose(Prod(o[2], o[3], o[4]), r.obs[2]))
  /\ (o[1] = "damp" /\ o[5] > 0 => \A i \in DOMAIN o[3] : Exact(o[3][i], o[5]) /\ 2 * o[5] * Damp(o[3][i], o[5]) <= DL(o[5]))
=============================================================================
