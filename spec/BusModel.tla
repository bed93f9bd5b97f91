------------------------------ MODULE BusModel ------------------------------
(***************************************************************************)
(* Every use of the event bus of up to MaxSteps steps, see FutureModel. If *)
(* Calm, a step is taken only when everything that goes on by itself has   *)
(* happened, which allows more steps.                                      *)
(***************************************************************************)
EXTENDS Bus

CONSTANTS MaxSteps, Emit, Calm

VARIABLES now, script, got, counted, after
\* got: per receiver the publications it has received; counted: the number of deliveries that was reported
\* after: per publication those whose number had been reported when it began
vars == <<s, now, script, got, counted, after>>

Milli == 1000
Rids == Len(got)

Init == s = NewBus /\ now = 0 /\ script = <<>> /\ got = <<>> /\ counted = <<>> /\ after = <<>>
Step(name) == Len(script) < MaxSteps /\ script' = Append(script, name)
Id == Len(script)
Begin ==
  \/ \E op \in {"new", "remove", "exist"} :
       /\ Step(op \o ":x")
       /\ Call(Id, IF op = "remove" THEN [op |-> op, topic |-> "x", what |-> "removed", at |-> now] ELSE [op |-> op, topic |-> "x"])
       /\ after' = IF op = "remove" THEN With(after, Id, DOMAIN counted) ELSE after
       /\ UNCHANGED <<now, got, counted>>
  \/ /\ Step("publish:x") /\ Call(Id, [op |-> "publish", topic |-> "x", what |-> Id, at |-> now])
     /\ after' = With(after, Id, DOMAIN counted)
     /\ UNCHANGED <<now, got, counted>>
  \/ \E c \in {<<"a", 0>>, <<"a", 1>>, <<"b", 1>>} :
       /\ Step("subscribe:x:" \o c[1] \o ":" \o ToString(c[2]) \o ":1")
       /\ Call(Id, [op |-> "subscribe", topic |-> "x", name |-> c[1], rid |-> Rids + 1, size |-> c[2], exp |-> Milli])
       /\ got' = Append(got, <<>>)
       /\ UNCHANGED <<now, counted, after>>
  \/ \E r \in DOMAIN s.rcv :
       \/ Step("recv:" \o ToString(r)) /\ Call(Id, [op |-> "recv", rid |-> r, early |-> Early(r), p |-> 0])
          /\ UNCHANGED <<now, got, counted, after>>
       \/ Step("close:" \o ToString(r)) /\ Call(Id, [op |-> "close", rid |-> r]) /\ UNCHANGED <<now, got, counted, after>>
Tick == Step("tick") /\ Settled(now) /\ now' = now + Milli /\ UNCHANGED <<s, got, counted, after>>
Internal == Inner(now) /\ UNCHANGED <<now, script, got, counted, after>>
Returns ==
  /\ UNCHANGED <<now, script, after>>
  /\ \/ \E id \in DOMAIN s.calls \ Open :
          /\ UNCHANGED counted
          /\ IF s.calls[id].r = "event"
             THEN LET p == s.calls[id].p IN ReturnEvent(id, s.whats[p], p) /\ got' = [got EXCEPT ![s.calls[id].rid] = Append(@, p)]
             ELSE Return(id, s.calls[id].r) /\ UNCHANGED got
     \/ \E p \in DOMAIN s.pubs :
          /\ p \in DOMAIN s.calls => s.calls[p].op # "remove"
          /\ Count(p, s.pubs[p].n, IF s.pubs[p].inc = 0 THEN "nosuch" ELSE "nil", now)
          /\ counted' = With(counted, p, s.pubs[p].n)
          /\ UNCHANGED got

Use == Begin \/ Tick
Next == IF Calm /\ ENABLED (Internal \/ Returns) THEN Internal \/ Returns ELSE Use \/ Internal \/ Returns
Spec == Init /\ [][Next]_vars /\ WF_vars(Internal) /\ WF_vars(Returns)

\* What a receiver has, and what is on the way to it
Taken(r) == {s.calls[id].p : id \in {i \in DOMAIN s.calls : Is(i, "recv") /\ s.calls[i].rid = r /\ s.calls[i].r = "event"}}
Has(r) == {got[r][i] : i \in DOMAIN got[r]} \cup {s.rcv[r].q[i] : i \in DOMAIN s.rcv[r].q} \cup Taken(r)
Once == \A r \in DOMAIN s.rcv : \A i, j \in DOMAIN got[r] : i # j => got[r][i] # got[r][j]
\* The number that is reported is the number of receivers that get it, whatever they do with it
Right == \A p \in DOMAIN counted :
           counted[p] = -1 \/ counted[p] = Cardinality({r \in DOMAIN s.rcv : p \in Has(r)})
\* A publication that begins when the number of another is known comes after it
Ordered == \A r \in DOMAIN s.rcv : \A i, j \in DOMAIN got[r] :
             i < j => got[r][j] \notin after[got[r][i]]
\* The removal is the last that a receiver of the topic gets from it
Gone == \A t \in DOMAIN s.topics : s.topics[t] <= s.inc
Rest == []<>(Settled(now))
View == <<s, now, got, counted, after, Len(script)>>
EmitScript == Emit => (script' # script => PrintT("SCRIPT " \o ToString(script')))
=============================================================================
