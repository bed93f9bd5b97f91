------------------------------ MODULE ConnTrace -----------------------------
(* Which recorded histories of real connections are behaviours of Conn? *)
EXTENDS Conn, PrimTrace

TInit == TraceInit /\ s = NewConn(Hists[h].expire, Hists[h].space, Hists[h].out)

Peer == CASE Ev.op = "send" -> Send(Ev.s)
          [] Ev.op = "gone" -> Gone
          [] Ev.op = "drain" -> Drain
          [] OTHER -> Send(Ev.op)

Event == /\ Consume
         /\ CASE Ev.k = "call" -> Call(Ev.id, Ev.op, Ev.s, Ev.t)
              [] Ev.k = "ret" -> Return(Ev.id, Ev.r)
              [] Ev.k = "peer" -> Peer
              [] Ev.k = "end" -> Complete /\ UNCHANGED s
              [] OTHER -> UNCHANGED s

TNext == More /\ (Event \/ (Arrive(Settled(Lately)) /\ UNCHANGED s) \/ (Inner(Now) /\ Stay))
TSpec == TInit /\ [][TNext]_<<s, h, l, there>>
=============================================================================
