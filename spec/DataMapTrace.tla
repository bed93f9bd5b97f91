---------------------------- MODULE DataMapTrace ----------------------------
(* Which recorded histories of real data maps are behaviours of DataMap? *)
EXTENDS DataMap, PrimTrace

TInit == TraceInit /\ s = NewMap

Event == /\ Consume
         /\ Ev.k = "end" => Settled
         /\ CASE Ev.k = "call" -> Call(Ev.id, Ev.op, Ev.key, Ev.v)
              [] Ev.k = "ret" -> Return(Ev.id, Ev.r)
              [] OTHER -> UNCHANGED s

TNext == More /\ (Event \/ (Arrive(Settled) /\ UNCHANGED s) \/ (Inner /\ Stay))
TSpec == TInit /\ [][TNext]_<<s, h, l, there>>
=============================================================================
