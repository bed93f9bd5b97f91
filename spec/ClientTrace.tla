----------------------------- MODULE ClientTrace -----------------------------
(***************************************************************************)
(* Does the real client do what Client says?  TRACE has one history per    *)
(* line: what its functions do with lines ("in") and values ("show"), or   *)
(* what is seen of a session of the whole program.                         *)
(***************************************************************************)
EXTENDS Client, Json, IOUtils

VARIABLES h, l

Hists == ndJsonDeserialize(IOEnv.TRACE)
ASSUME \A i \in 1..Len(Hists) : TLCSet(i, 0)
Ev == Hists[h].ev[l]

Allowed ==
  CASE Ev.k = "in" -> (IF Ev.ok THEN Sends(Ev.line, Ev.out) ELSE ~Words(Ev.line).proper) /\ UNCHANGED s
    [] Ev.k = "show" -> Ev.out = Show(Ev.v) /\ UNCHANGED s
    [] Ev.k = "type" -> Type(Ev.lines, Ev.eof)
    [] Ev.k = "arrived" -> Arrived(Ev.out)
    [] Ev.k = "reply" -> Reply(Ev.v)
    [] Ev.k = "break" -> Break
    [] Ev.k = "printed" -> Printed(Ev.out)
    [] Ev.k = "exit" -> Exit(Ev.n)

TInit == h \in 1..Len(Hists) /\ l = 1 /\ s = Start
TNext == l <= Len(Hists[h].ev) /\ Allowed /\ l' = l + 1 /\ UNCHANGED h
TSpec == TInit /\ [][TNext]_<<s, h, l>>
Mark == IF TLCGet(h) < l THEN TLCSet(h, l) ELSE TRUE
Accepted == \A i \in 1..Len(Hists) :
              \/ TLCGet(i) = Len(Hists[i].ev) + 1
              \/ PrintT(<<"REJECTED", i, TLCGet(i)>>)
=============================================================================
