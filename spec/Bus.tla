--------------------------------- MODULE Bus --------------------------------
(***************************************************************************)
(* The event bus. Its state s has                                          *)
(*   topics  the existing topics: the number of their incarnation          *)
(*   subs    for every incarnation its subscribers: name -> receiver       *)
(*   rcv     the receivers by number, data channels as in Channel          *)
(*   pubs    the publications that are not over: where, what, when, the    *)
(*           names that subscribed before (must), the receivers that may   *)
(*           get it (cand), the names that are dealt with (done), how many *)
(*           got it (n)                                                    *)
(*   uids    the identities of the publications that receivers have seen   *)
(*   calls   the calls that have not returned                              *)
(*   inc     how many topics there were                                    *)
(* A publication deals with every name that subscribed before, and with    *)
(* those who subscribe meanwhile, or not. The removal of a topic is a last *)
(* publication, and returns when it is over.                               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLE s

NewBus == [topics |-> <<>>, subs |-> <<>>, rcv |-> <<>>, pubs |-> <<>>, uids |-> <<>>, whats |-> <<>>, calls |-> <<>>, inc |-> 0]

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Range(f) == {f[x] : x \in DOMAIN f}

\* A call c is a record with op, at, and its arguments
Call(id, c) == s' = [s EXCEPT !.calls = With(@, id, [r |-> ""] @@ c)]
Early(rid) == ~s.rcv[rid].rc

Open == {id \in DOMAIN s.calls : s.calls[id].r = ""}
Is(id, op) == s.calls[id].op = op
Answer(id, r) == s' = [s EXCEPT !.calls[id].r = r]
Bool(b) == IF b THEN "true" ELSE "false"

Exists(topic) == topic \in DOMAIN s.topics

New(id) ==
  /\ Is(id, "new")
  /\ LET t == s.calls[id].topic IN
     IF Exists(t) THEN Answer(id, "false")
     ELSE s' = [s EXCEPT !.topics = With(@, t, s.inc + 1), !.inc = @ + 1, !.subs = Append(@, <<>>), !.calls[id].r = "true"]
Exist(id) == Is(id, "exist") /\ Answer(id, Bool(Exists(s.calls[id].topic)))

Publication(inc, what, at) ==
  [inc |-> inc, at |-> at, must |-> DOMAIN s.subs[inc],
   cand |-> {<<n, s.subs[inc][n]>> : n \in DOMAIN s.subs[inc]}, done |-> {}, n |-> 0, late |-> at]
Nowhere(at) == [inc |-> 0, at |-> at, must |-> {}, cand |-> {}, done |-> {}, n |-> -1, late |-> at]

Publish(id) ==
  /\ Is(id, "publish")
  /\ LET c == s.calls[id] IN
     s' = [s EXCEPT !.pubs = With(@, id, IF Exists(c.topic) THEN Publication(s.topics[c.topic], c.what, c.at) ELSE Nowhere(c.at)),
                    !.whats = With(@, id, c.what),
                    !.calls[id].r = "ok"]
Remove(id) ==
  /\ Is(id, "remove") /\ id \notin DOMAIN s.pubs
  /\ LET c == s.calls[id] IN
     IF ~Exists(c.topic) THEN Answer(id, "false")
     ELSE s' = [s EXCEPT !.topics = Without(@, c.topic),
                         !.pubs = With(@, id, Publication(s.topics[c.topic], c.what, c.at)),
                         !.whats = With(@, id, c.what)]
Subscribe(id) ==
  /\ Is(id, "subscribe")
  /\ LET c == s.calls[id] IN
     IF ~Exists(c.topic) THEN Answer(id, "nosuch")
     ELSE LET i == s.topics[c.topic] IN
          s' = [s EXCEPT !.subs[i] = With(@, c.name, c.rid),
                         !.rcv = With(@, c.rid, [q |-> <<>>, size |-> c.size, exp |-> c.exp, rc |-> FALSE, sc |-> FALSE]),
                         !.pubs = [p \in DOMAIN @ |-> IF @[p].inc = i THEN [@[p] EXCEPT !.cand = @ \cup {<<c.name, c.rid>>}] ELSE @[p]],
                         !.calls[id].r = "ok"]

\* --- delivery ---
Dealt(p, name, k, late) == [s.pubs[p] EXCEPT !.done = @ \cup {name}, !.n = @ + k, !.late = IF late > @ THEN late ELSE @]
Room(r) == ~s.rcv[r].sc /\ Len(s.rcv[r].q) < s.rcv[r].size
Waits(r) == {id \in Open : Is(id, "recv") /\ s.calls[id].rid = r /\ s.calls[id].early}

Deliver(p, name, r, now) ==
  \/ /\ Room(r)
     /\ s' = [s EXCEPT !.rcv[r].q = Append(@, p), !.pubs[p] = Dealt(p, name, 1, 0)]
  \/ /\ s.rcv[r].size = 0 /\ ~s.rcv[r].sc
     /\ \E id \in Waits(r) : s' = [s EXCEPT !.calls[id].r = "event", !.calls[id].p = p, !.pubs[p] = Dealt(p, name, 1, 0)]
  \/ /\ s.rcv[r].sc
     /\ s' = [s EXCEPT !.pubs[p] = Dealt(p, name, 0, 0)]
  \/ /\ now >= s.pubs[p].at + s.rcv[r].exp
     /\ s' = [s EXCEPT !.pubs[p] = Dealt(p, name, 0, s.pubs[p].at + s.rcv[r].exp)]
Removed(id) ==
  /\ Is(id, "remove") /\ id \in DOMAIN s.pubs /\ s.pubs[id].must \subseteq s.pubs[id].done
  /\ s' = [s EXCEPT !.pubs = Without(@, id), !.calls[id].r = "true"]
\* Somebody who waits for a publication learns the number of deliveries
Count(p, n, r, now) ==
  /\ p \in DOMAIN s.pubs
  /\ s.pubs[p].must \subseteq s.pubs[p].done
  /\ n = s.pubs[p].n
  /\ r = IF s.pubs[p].inc = 0 THEN "nosuch" ELSE "nil"
  /\ now >= s.pubs[p].late
  /\ s' = [s EXCEPT !.pubs = Without(@, p)]

\* --- receivers ---
Take(id) ==
  /\ Is(id, "recv") /\ s.calls[id].early
  /\ LET r == s.calls[id].rid IN
     /\ ~s.rcv[r].sc /\ s.rcv[r].q # <<>>
     /\ s' = [s EXCEPT !.rcv[r].q = Tail(@), !.calls[id].r = "event", !.calls[id].p = Head(s.rcv[r].q)]
RecvClosed(id) == Is(id, "recv") /\ s.rcv[s.calls[id].rid].rc /\ Answer(id, "closed")
Close(id) ==
  /\ Is(id, "close")
  /\ LET r == s.calls[id].rid IN
     IF ~s.rcv[r].rc THEN s' = [s EXCEPT !.rcv[r].rc = TRUE]
     ELSE IF ~s.rcv[r].sc THEN s' = [s EXCEPT !.rcv[r].sc = TRUE]
     ELSE Answer(id, "ok")

Undone(p) == {x \in s.pubs[p].cand : x[1] \notin s.pubs[p].done}
Inner(now) ==
  \/ \E id \in Open : New(id) \/ Exist(id) \/ Publish(id) \/ Remove(id) \/ Subscribe(id)
                      \/ Removed(id) \/ Take(id) \/ RecvClosed(id) \/ Close(id)
  \/ \E p \in DOMAIN s.pubs : \E x \in Undone(p) : Deliver(p, x[1], x[2], now)

Return(id, r) == s.calls[id].r = r /\ r # "event" /\ s' = [s EXCEPT !.calls = Without(@, id)]
\* Every publication has an identity of its own
ReturnEvent(id, what, uid) ==
  /\ s.calls[id].r = "event"
  /\ LET p == s.calls[id].p IN
     /\ what = s.whats[p]
     /\ IF p \in DOMAIN s.uids THEN s.uids[p] = uid ELSE uid \notin Range(s.uids)
     /\ s' = [s EXCEPT !.uids = With(@, p, uid), !.calls = Without(@, id)]

\* A delivery that has to wait until after the time now
Blocked(p, r, now) == /\ ~s.rcv[r].sc
                      /\ ~Room(r)
                      /\ s.rcv[r].size = 0 => Waits(r) = {}
                      /\ now < s.pubs[p].at + s.rcv[r].exp
Settled(now) ==
  /\ \A id \in DOMAIN s.calls :
       /\ id \in Open
       /\ s.calls[id].op \in {"recv", "remove"}
       /\ Is(id, "recv") => ~s.rcv[s.calls[id].rid].rc /\ s.rcv[s.calls[id].rid].q = <<>>
       /\ Is(id, "remove") => id \in DOMAIN s.pubs
  /\ \A p \in DOMAIN s.pubs :
       /\ \E x \in Undone(p) : Blocked(p, x[2], now)
       /\ \A name \in s.pubs[p].must \ s.pubs[p].done :
            \E x \in Undone(p) : x[1] = name /\ Blocked(p, x[2], now)
=============================================================================
