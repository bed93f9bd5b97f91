------------------------------- MODULE Future -------------------------------
(***************************************************************************)
(* A future. Its state s has                                               *)
(*   out    "none", "done" or "cancelled": never changes once it is set    *)
(*   task   <<>> while the task runs, then <<its result>>                  *)
(*   calls  the calls that have not returned: what they are, when they     *)
(*          began, and their result r, "" until it is decided              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLE s

NewFuture == [out |-> "none", task |-> <<>>, calls |-> <<>>]

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Call(id, op, d, now) == s' = [s EXCEPT !.calls = With(@, id, [op |-> op, d |-> d, at |-> now, r |-> ""])]

\* The task returns result, some time later the future knows
Finish(result) == s.task = <<>> /\ s' = [s EXCEPT !.task = <<result>>]
Fulfil == s.out = "none" /\ s.task # <<>> /\ s' = [s EXCEPT !.out = "done"]

Open == {id \in DOMAIN s.calls : s.calls[id].r = ""}

Sees(op) == CASE s.out = "cancelled" -> "cancelled"
              [] op = "get" -> "is " \o s.task[1]
              [] OTHER -> "ok"

Cancel(id) ==
  /\ s.calls[id].op = "cancel"
  /\ s' = [s EXCEPT !.out = IF @ = "none" THEN "cancelled" ELSE @,
                    !.calls[id].r = CASE s.out = "none" -> "ok" [] s.out = "done" -> "fulfilled" [] OTHER -> "cancelled"]
Learn(id) ==
  /\ s.calls[id].op # "cancel"
  /\ s.out # "none"
  /\ s' = [s EXCEPT !.calls[id].r = Sees(s.calls[id].op)]
\* now is a time by which it has happened
Timeout(id, now) ==
  /\ s.calls[id].op = "waitfor"
  /\ now >= s.calls[id].at + s.calls[id].d
  /\ s' = [s EXCEPT !.calls[id].r = "timeout"]

Inner(now) == Fulfil \/ \E id \in Open : Cancel(id) \/ Learn(id) \/ Timeout(id, now)

Return(id, r) == s.calls[id].r = r /\ s' = [s EXCEPT !.calls = Without(@, id)]

\* Nothing is left to do until after the time now
Settled(now) ==
  /\ s.out = "none" => s.task = <<>>
  /\ \A id \in DOMAIN s.calls :
       /\ id \in Open
       /\ s.calls[id].op # "cancel"
       /\ s.out = "none"
       /\ s.calls[id].op = "waitfor" => now < s.calls[id].at + s.calls[id].d
=============================================================================
