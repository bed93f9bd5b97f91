----------------------------- MODULE FutureTrace ----------------------------
(* Which recorded histories of real futures are behaviours of Future? *)
EXTENDS Future, PrimTrace

TInit == TraceInit /\ s = NewFuture

Event == /\ Consume
         /\ CASE Ev.k = "call" -> Call(Ev.id, Ev.op, Ev.d, Ev.t)
              [] Ev.k = "ret" -> Return(Ev.id, Ev.r)
              [] Ev.k = "finish" -> Finish(Ev.r)
              [] OTHER -> UNCHANGED s

TNext == More /\ (Event \/ (Arrive(Settled(Past)) /\ UNCHANGED s) \/ (Inner(Now) /\ Stay))
TSpec == TInit /\ [][TNext]_<<s, h, l, there>>
=============================================================================
