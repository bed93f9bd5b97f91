---------------------------- MODULE BufFileTrace ----------------------------
(* Which recorded histories of real buffered files are behaviours of       *)
(* BufFile?  A call event says what the call will return (g).              *)
EXTENDS BufFile, PrimTrace

TInit == TraceInit /\ s = NewFile(Hist.old, Hist.size)

Event == /\ Consume
         /\ Ev.k = "end" => Settled
         /\ CASE Ev.k = "call" -> Call(Ev.id, Ev.op, Ev.p, Ev.n)
              [] Ev.k = "ret" -> Return(Ev.id, Ev.r)
              [] Ev.k = "read" -> Read(Ev.runs)
              [] OTHER -> UNCHANGED s

Later(id) == {i \in l..Events : Hist.ev[i].k = "ret" /\ Hist.ev[i].id = id}
Inner == \E id \in Open : \E i \in Later(id) : Effect(id, Hist.ev[i].r)
TNext == More /\ (Event \/ (Arrive(Settled) /\ UNCHANGED s) \/ (Inner /\ Stay))
TSpec == TInit /\ [][TNext]_<<s, h, l, there>>
=============================================================================
