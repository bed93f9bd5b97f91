------------------------------- MODULE Channel ------------------------------
(***************************************************************************)
(* A data channel. Its state s has                                         *)
(*   size, exp  how many events it buffers, how long a Send may wait       *)
(*   q          the buffered events in order                               *)
(*   rc, sc     the receiving, the sending side is closed; Close closes    *)
(*              them in this order                                         *)
(*   calls      the calls that have not returned                           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLE s

NewChannel(size, exp) == [size |-> size, exp |-> exp, q |-> <<>>, rc |-> FALSE, sc |-> FALSE, calls |-> <<>>]

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* early: called before the receiving side was closed
Call(id, op, e, now) == s' = [s EXCEPT !.calls = With(@, id, [op |-> op, e |-> e, at |-> now, early |-> ~s.rc, r |-> ""])]

Open == {id \in DOMAIN s.calls : s.calls[id].r = ""}
Is(id, op) == s.calls[id].op = op

Put(id) ==
  /\ Is(id, "send") /\ ~s.sc /\ Len(s.q) < s.size
  /\ s' = [s EXCEPT !.q = Append(@, s.calls[id].e), !.calls[id].r = "success"]
Take(id) ==
  /\ Is(id, "recv") /\ s.calls[id].early /\ ~s.sc /\ s.q # <<>>
  /\ s' = [s EXCEPT !.q = Tail(@), !.calls[id].r = ToString(Head(s.q))]
Pass(a, b) ==
  /\ s.size = 0 /\ Is(a, "send") /\ Is(b, "recv") /\ s.calls[b].early /\ ~s.sc
  /\ s' = [s EXCEPT !.calls[a].r = "success", !.calls[b].r = ToString(s.calls[a].e)]
Expire(id, now) ==
  /\ Is(id, "send") /\ now >= s.calls[id].at + s.exp
  /\ s' = [s EXCEPT !.calls[id].r = "expired"]
SendClosed(id) == Is(id, "send") /\ s.sc /\ s' = [s EXCEPT !.calls[id].r = "closed"]
RecvClosed(id) == Is(id, "recv") /\ s.rc /\ s' = [s EXCEPT !.calls[id].r = "closed"]
CloseRecv(id) == Is(id, "close") /\ ~s.rc /\ s' = [s EXCEPT !.rc = TRUE]
CloseSend(id) == Is(id, "close") /\ s.rc /\ ~s.sc /\ s' = [s EXCEPT !.sc = TRUE]
Closed(id) == Is(id, "close") /\ s.sc /\ s' = [s EXCEPT !.calls[id].r = "ok"]

Inner(now) ==
  \E id \in Open :
     \/ Put(id) \/ Take(id) \/ (\E b \in Open : Pass(id, b))
     \/ Expire(id, now) \/ SendClosed(id) \/ RecvClosed(id)
     \/ CloseRecv(id) \/ CloseSend(id) \/ Closed(id)

Return(id, r) == s.calls[id].r = r /\ s' = [s EXCEPT !.calls = Without(@, id)]

\* Nothing is left to do until after the time now
Settled(now) ==
  \A id \in DOMAIN s.calls :
    /\ id \in Open
    /\ ~Is(id, "close")
    /\ Is(id, "send") => /\ ~s.sc
                         /\ Len(s.q) >= s.size
                         /\ now < s.calls[id].at + s.exp
                         /\ s.size = 0 => ~\E b \in Open : Is(b, "recv")
    /\ Is(id, "recv") => ~s.rc /\ s.q = <<>>
=============================================================================
