--------------------------- MODULE BroadcastTrace ---------------------------
(* Which recorded histories of real broadcasters are behaviours of Broadcast? *)
EXTENDS Broadcast, PrimTrace

TInit == TraceInit /\ s = NewBroadcast

Event == /\ Consume
         /\ CASE Ev.k = "call" -> Call(Ev.id, Ev.op)
              [] Ev.k = "ret" -> Return(Ev.id, Ev.r)
              [] OTHER -> UNCHANGED s

TNext == More /\ (Event \/ (Arrive(Settled) /\ UNCHANGED s) \/ (Inner /\ Stay))
TSpec == TInit /\ [][TNext]_<<s, h, l, there>>
=============================================================================
