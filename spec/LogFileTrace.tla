---------------------------- MODULE LogFileTrace ----------------------------
(***************************************************************************)
(* Does the real code read and write log files as LogFile says?  TRACE has *)
(* one list of events per line:                                            *)
(*   new   an entry for the request v (see Resp) was made: its raw request *)
(*         and its arguments                                               *)
(*   pack  the entry log became the bytes out                              *)
(*   body  what is read from a file with this body alone                   *)
(*   file  the bytes that the following events are about                   *)
(*   read  of that, the first cut bytes were read: the entries, whether an *)
(*         error was returned, and the offset                              *)
(*   fail  the reader failed after cut bytes                               *)
(***************************************************************************)
EXTENDS LogFile, Resp, Json, IOUtils

VARIABLES h, l, file, meaning

Hists == ndJsonDeserialize(IOEnv.TRACE)
ASSUME \A i \in 1..Len(Hists) : TLCSet(i, 0)
Ev == Hists[h].ev[l]

Learn(body, m) == meaning' = [b \in DOMAIN meaning \cup {body} |-> IF b = body THEN m ELSE meaning[b]]
Known(body, m) == body \in DOMAIN meaning => meaning[body] = m

Allowed ==
  CASE Ev.k = "new" -> /\ Ev.raw = Enc(Ev.v)
                       /\ Len(Ev.args) = Len(Ev.v.a) - 1
                       /\ \A i \in 1..Len(Ev.args) : Ev.args[i] = Enc(Ev.v.a[i + 1])
                       /\ Ev.same
                       /\ UNCHANGED <<file, meaning>>
    [] Ev.k = "pack" -> LET p == File(Ev.out) IN
                        /\ Len(p.bodies) = 1 /\ p.end = "ok"
                        /\ Known(p.bodies[1], Ev.log)
                        /\ Learn(p.bodies[1], Ev.log)
                        /\ UNCHANGED file
    [] Ev.k = "body" -> Known(Ev.body, Ev.log) /\ Learn(Ev.body, Ev.log) /\ UNCHANGED file
    [] Ev.k = "file" -> file' = Ev.bytes /\ UNCHANGED meaning
    [] Ev.k = "read" -> LET p == File(SubSeq(file, 1, Ev.cut)) IN
                        /\ Ev.logs = Entries(p.bodies, meaning)
                        /\ Ev.err = (p.end = "cut")
                        /\ Ev.off = p.off
                        /\ UNCHANGED <<file, meaning>>
    [] Ev.k = "fail" -> LET p == File(SubSeq(file, 1, Ev.cut)) IN
                        /\ Ev.logs \in {<<>>, Entries(p.bodies, meaning)}
                        /\ Ev.err
                        /\ UNCHANGED <<file, meaning>>

TInit == h \in 1..Len(Hists) /\ l = 1 /\ file = <<>> /\ meaning = <<>>
TNext == l <= Len(Hists[h].ev) /\ Allowed /\ l' = l + 1 /\ UNCHANGED h
TSpec == TInit /\ [][TNext]_<<h, l, file, meaning>>
Mark == IF TLCGet(h) < l THEN TLCSet(h, l) ELSE TRUE
Accepted == \A i \in 1..Len(Hists) :
              \/ TLCGet(i) = Len(Hists[i].ev) + 1
              \/ PrintT(<<"REJECTED", i, TLCGet(i)>>)
=============================================================================
