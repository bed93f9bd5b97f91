---------------------------- MODULE ChannelTrace ----------------------------
(* Which recorded histories of real data channels are behaviours of Channel? *)
EXTENDS Channel, PrimTrace

TInit == TraceInit /\ s = NewChannel(Hists[h].size, Hists[h].exp)

Event == /\ Consume
         /\ CASE Ev.k = "call" -> Call(Ev.id, Ev.op, Ev.e, Ev.t)
              [] Ev.k = "ret" -> Return(Ev.id, Ev.r)
              [] OTHER -> UNCHANGED s

TNext == More /\ (Event \/ (Arrive(Settled(Past)) /\ UNCHANGED s) \/ (Inner(Now) /\ Stay))
TSpec == TInit /\ [][TNext]_<<s, h, l, there>>
=============================================================================
