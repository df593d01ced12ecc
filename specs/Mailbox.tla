------------------------------- MODULE Mailbox ------------------------------
(* A mailbox between threads that post and the control that reads.  Neither is
   atomic: a post begins, may be stopped while the message is copied, before
   it is stamped or before the mailbox is released, and ends; a read may be
   stopped while the message is copied.  A reader of a busy mailbox never
   waits, and a message is never seen in part, nor lost, nor seen out of order. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Profile
Empty == <<0, 0>>                                  \* no message: <<value, date>>
Nobody == [v |-> 0, s |-> "", d |-> 0]
InitSt == [box |-> Empty, fresh |-> FALSE, out |-> Empty, holder |-> Nobody, waiting |-> Nobody, reading |-> FALSE, new |-> FALSE]
Put(st) == [st |-> st, obs |-> <<"ok">>]
No(st, obs) == [st |-> st, obs |-> obs]
\* a message becomes available
Deliver(st, v, d) == [st EXCEPT !.box = <<v, d>>, !.fresh = TRUE, !.new = TRUE]
\* what the signals publish after an evaluation
Take(st) == [st EXCEPT !.out = st.box, !.fresh = FALSE, !.new = FALSE]
Read(st) == IF ~st.new THEN st
            ELSE IF st.holder # Nobody THEN [st EXCEPT !.new = FALSE]      \* busy: the previous message again, the one being posted comes next
            ELSE Take(st)
Date(h, d) == IF h.s = "unlock" THEN h.d ELSE d
Shown(what, m) == IF m = Empty THEN <<"ok", "none">> ELSE IF what = "object" THEN <<"ok", m[1]>> ELSE IF what = "timestamp" THEN <<"ok", m[2]>> ELSE <<"ok", m[1], m[2]>>
Apply(st, o) ==
  CASE o[1] = "post" -> Put(Deliver(st, o[2], o[3]))
    [] o[1] = "begin" -> Put([st EXCEPT !.holder = [v |-> o[2], s |-> o[3], d |-> o[4]]])
    [] o[1] = "queue" -> Put([st EXCEPT !.waiting = [v |-> o[2], s |-> o[3], d |-> o[4]]])
    [] o[1] = "end" -> Put([Deliver(st, st.holder.v, Date(st.holder, o[2])) EXCEPT !.holder = st.waiting, !.waiting = Nobody])
    [] o[1] = "beginread" -> Put([st EXCEPT !.reading = TRUE])
    [] o[1] = "endread" -> [st |-> [Take(st) EXCEPT !.reading = FALSE, !.holder = st.waiting, !.waiting = Nobody], obs |-> Shown("sout", st.box)]
    [] o[1] = "read" -> LET s == Read(st) IN [st |-> s, obs |-> Shown(o[2], s.out)]
    [] o[1] = "updated" -> No(st, <<"ok", st.holder = Nobody /\ ~st.reading /\ st.fresh>>)
Two == Profile = "two"
Stages == {"stamp", "unlock"} \cup IF Two THEN {"copy"} ELSE {}
Free(st) == st.holder = Nobody /\ ~st.reading
Ops(st) == << IF Free(st) THEN {<<"post", v, 10 * v + 1>> : v \in 1..2} \cup {<<"begin", 3, s, 4>> : s \in Stages}
              ELSE IF st.reading THEN {<<"endread">>} ELSE {<<"end", d>> : d \in {7}},
              IF ~Free(st) /\ st.waiting = Nobody THEN {<<"queue", 5, s, 6>> : s \in Stages} ELSE {},
              IF Two /\ Free(st) /\ st.new THEN {<<"beginread">>} ELSE {},
              IF st.reading THEN {} ELSE {<<"read", w>> : w \in {"object", "timestamp", "sout"}}, {<<"updated">>} >>
Bound(st) == TRUE
Inv(st) == /\ st.waiting # Nobody => ~Free(st)
           /\ ~(st.reading /\ st.holder # Nobody)
\* a message is never replaced by an older one: what is read is what was read before, or the last one available
StepOK(st, o, r) == /\ o[1] \in {"read", "endread"} => r.st.out \in {st.out, st.box}
                    \* what has been posted and not read is still to be read
                    /\ (o[1] \in {"post", "end"} => r.st.new)
=============================================================================
