------------------------------ MODULE BusTrace ------------------------------
(* Which recorded histories of the real event bus are behaviours of Bus? *)
EXTENDS Bus, PrimTrace

TInit == TraceInit /\ s = NewBus

Started ==
  CASE Ev.op = "publish" -> [op |-> "publish", topic |-> Ev.topic, what |-> <<Ev.topic, Ev.data, Ev.err, Ev.source>>, at |-> Ev.t]
    [] Ev.op = "remove" -> [op |-> "remove", topic |-> Ev.topic, what |-> <<Ev.topic, "nil", "removed", "anonymous">>, at |-> Ev.t]
    [] Ev.op \in {"new", "exist"} -> [op |-> Ev.op, topic |-> Ev.topic]
    [] Ev.op = "subscribe" -> [op |-> "subscribe", topic |-> Ev.topic, name |-> Ev.name, rid |-> Ev.rid, size |-> Ev.size, exp |-> Ev.exp]
    [] Ev.op = "recv" -> [op |-> "recv", rid |-> Ev.rid, early |-> Early(Ev.rid), p |-> 0]
    [] Ev.op = "close" -> [op |-> "close", rid |-> Ev.rid]

Event == /\ Consume
         /\ CASE Ev.k = "call" -> Call(Ev.id, Started)
              [] Ev.k = "ret" -> IF Ev.r = "event" THEN ReturnEvent(Ev.id, Ev.e, Ev.uid) ELSE Return(Ev.id, Ev.r)
              [] Ev.k = "count" -> Count(Ev.id, Ev.n, Ev.r, Now)
              [] OTHER -> UNCHANGED s

TNext == More /\ (Event \/ (Arrive(Settled(Lately)) /\ UNCHANGED s) \/ (Inner(Now) /\ Stay))
TSpec == TInit /\ [][TNext]_<<s, h, l, there>>
=============================================================================
