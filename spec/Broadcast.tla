------------------------------ MODULE Broadcast -----------------------------
(* A broadcaster: set says whether it has its message. *)
EXTENDS Naturals, Integers, Sequences

VARIABLE s

NewBroadcast == [set |-> FALSE, calls |-> <<>>]

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Call(id, op) == s' = [s EXCEPT !.calls = With(@, id, [op |-> op, r |-> ""])]
Open == {id \in DOMAIN s.calls : s.calls[id].r = ""}

\* It is used once
Set(id) == s.calls[id].op = "set" /\ ~s.set /\ s' = [s EXCEPT !.set = TRUE, !.calls[id].r = "ok"]
Get(id) == s.calls[id].op = "get" /\ s.set /\ s' = [s EXCEPT !.calls[id].r = "message"]

Inner == \E id \in Open : Set(id) \/ Get(id)

Return(id, r) == s.calls[id].r = r /\ s' = [s EXCEPT !.calls = Without(@, id)]

Settled == \A id \in DOMAIN s.calls : id \in Open /\ s.calls[id].op = "get" /\ ~s.set
=============================================================================
