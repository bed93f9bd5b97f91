------------------------------- MODULE DataMap ------------------------------
(***************************************************************************)
(* A data map: m maps keys to values, "0" stands for the value nil.        *)
(* Calls take effect one at a time between their start and their return.   *)
(* The length is exact unless changes are in progress: they may count or   *)
(* not.                                                                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLE s

NewMap == [m |-> <<>>, calls |-> <<>>]

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Call(id, op, key, v) == s' = [s EXCEPT !.calls = With(@, id, [op |-> op, key |-> key, v |-> v, r |-> ""])]
Open == {id \in DOMAIN s.calls : s.calls[id].r = ""}
Changing == {id \in DOMAIN s.calls : s.calls[id].op \in {"set", "remove"}}

Has(key) == key \in DOMAIN s.m
Effect(id) ==
  LET c == s.calls[id] IN
  CASE c.op = "set" -> s' = [s EXCEPT !.m = With(@, c.key, c.v), !.calls[id].r = "ok"]
    [] c.op = "remove" -> s' = [s EXCEPT !.m = Without(@, c.key), !.calls[id].r = "ok"]
    [] c.op = "get" -> s' = [s EXCEPT !.calls[id].r = IF Has(c.key) THEN ToString(s.m[c.key]) ELSE "none"]
    [] c.op = "has" -> s' = [s EXCEPT !.calls[id].r = IF Has(c.key) THEN "true" ELSE "false"]
    [] c.op = "len" ->
         LET n == Cardinality(DOMAIN s.m) IN
         \E d \in -Cardinality(Changing)..Cardinality(Changing) :
           n + d >= 0 /\ s' = [s EXCEPT !.calls[id].r = ToString(n + d)]

Inner == \E id \in Open : Effect(id)

Return(id, r) == s.calls[id].r = r /\ s' = [s EXCEPT !.calls = Without(@, id)]

Settled == s.calls = <<>>
=============================================================================
