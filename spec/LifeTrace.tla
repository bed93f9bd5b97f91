------------------------------ MODULE LifeTrace ------------------------------
(***************************************************************************)
(* Which recorded lives of real servers are behaviours of Life?  The file  *)
(* named by TRACE has one per line: ev, the events in real-time order, with*)
(* k their kind, c a client, n a number.                                   *)
(***************************************************************************)
EXTENDS Life, Sequences, Json, IOUtils, TLC

VARIABLES h, l
Hists == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Hists)
ASSUME \A i \in 1..N : TLCSet(i, 0)
Ev == Hists[h].ev[l]

TInit == h \in 1..N /\ l = 1 /\ s = Down

TNext == /\ l <= Len(Hists[h].ev)
         /\ l' = l + 1
         /\ UNCHANGED h
         /\ \/ Ev.k = "start" /\ Start
            \/ Ev.k = "ready" /\ Ready
            \/ Ev.k = "ask" /\ Ask(Ev.n)
            \/ Ev.k = "stopped" /\ StopReturns
            \/ Ev.k = "served" /\ Served
            \/ Ev.k = "exit" /\ Exit(Ev.n)
            \/ Ev.k = "dial" /\ Dial(Ev.c)
            \/ Ev.k = "connected" /\ Connected(Ev.c)
            \/ Ev.k = "refused" /\ Refused(Ev.c)
            \/ Ev.k = "gone" /\ Gone(Ev.c)
            \/ Ev.k = "leave" /\ Leave(Ev.c)
            \/ Ev.k = "quiet" /\ Quiet

TSpec == TInit /\ [][TNext]_<<s, h, l>>
Mark == TLCGet(h) <= Len(Hists[h].ev) /\ (IF TLCGet(h) < l THEN TLCSet(h, l) ELSE TRUE)
Accepted == \A i \in 1..N : TLCGet(i) = Len(Hists[i].ev) + 1 \/ PrintT(<<"REJECTED", i, TLCGet(i)>>)
==============================================================================
