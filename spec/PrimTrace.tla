----------------------------- MODULE PrimTrace ------------------------------
(***************************************************************************)
(* What the trace specifications of the primitives share. The file named   *)
(* by TRACE has one history per line: slack, ev, the events in real-time   *)
(* order, each with its kind k and the time t.  When more than slack       *)
(* passes between two events, everything that could happen has happened    *)
(* (Pass, after which the time of the next event is reached: there).       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, Json, IOUtils, TLC

VARIABLES h, l, there
Hists == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Hists)
ASSUME \A i \in 1..2 * N : TLCSet(i, 0)
Hist == Hists[h]
Events == Len(Hist.ev)
More == l <= Events
Ev == Hist.ev[l]
Before == IF l = 1 THEN 0 ELSE Hist.ev[l - 1].t
Pause == Ev.t > Before + Hist.slack
\* by this time what happens now has happened
Now == (IF Pause /\ ~there THEN Before + Hist.slack ELSE Ev.t) + 1
\* and what had to happen by this time has happened
Past == Ev.t - Hist.slack
\* where things happen unseen in a pause, this is known only for its start
Lately == Before - Hist.slack

TraceInit == h \in 1..N /\ l = 1 /\ there = FALSE
Arrive(settled) == Pause /\ ~there /\ settled /\ there' = TRUE /\ UNCHANGED <<h, l>>
Consume == (Pause => there) /\ l' = l + 1 /\ there' = FALSE /\ UNCHANGED h
Stay == UNCHANGED <<h, l, there>>

\* A history with too many states stays undecided, which is reported
Budget == 100000
Deadline == atoi(IOEnv.DEADLINE)
Mark == /\ TLCGet(h) <= Events
        /\ IF TLCGet(h) < l THEN TLCSet(h, l) ELSE TRUE
        /\ TLCSet(N + h, TLCGet(N + h) + 1)
        /\ TLCGet(N + h) < Budget
        /\ TLCGet("duration") < Deadline
Accepted == \A i \in 1..N :
              \/ TLCGet(i) = Len(Hists[i].ev) + 1
              \/ PrintT(<<IF TLCGet(N + i) >= Budget \/ TLCGet("duration") >= Deadline THEN "UNDECIDED" ELSE "REJECTED", i, TLCGet(i)>>)
==============================================================================
