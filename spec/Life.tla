-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* The life of a server, seen from outside.                                *)
(*   phase  "down", "starting", "up", or "stopping" once it was asked to   *)
(*   shut   its ports are certainly closed                                 *)
(*   calls  how many calls of Stop have not returned                       *)
(*   dials  clients that try to connect: the phases they may have met      *)
(*   conns  clients that are connected                                     *)
(* A server stops only when it is asked to. When the time is up that a     *)
(* stop may take, there is nothing left of it (Quiet).                     *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

VARIABLE s

Down == [phase |-> "down", shut |-> TRUE, calls |-> 0, dials |-> {}, conns |-> {}]

\* A client that is trying to connect meets every state of the port meanwhile
Port(phase, shut) == IF phase = "up" THEN "open" ELSE IF shut THEN "closed" ELSE "closing"

To(phase, shut, calls, conns) ==
  [phase |-> phase, shut |-> shut, calls |-> calls, conns |-> conns,
   dials |-> {[d EXCEPT !.met = @ \cup {Port(phase, shut)}] : d \in s.dials}]

\* The port opens somewhere while the server starts
Start == s.phase = "down" /\ s' = To("starting", FALSE, s.calls, s.conns)

Ready == s.phase = "starting" /\ s' = To("up", FALSE, s.calls, s.conns)

Ask(n) == /\ s.phase \in {"up", "stopping", "down"}
          /\ s' = To(IF s.phase = "up" THEN "stopping" ELSE s.phase, s.shut, s.calls + n, s.conns)

StopReturns == /\ s.calls > 0
               /\ s.phase \in {"stopping", "down"}
               /\ s' = To(s.phase, TRUE, s.calls - 1, s.conns)

Served == s.phase = "stopping" /\ s' = To("down", TRUE, s.calls, s.conns)

\* The process of a server that was stopped with a signal ends with Serve
Exit(code) == s.phase \in {"stopping", "down"} /\ code = 0 /\ s' = To("down", TRUE, 0, s.conns)

Dial(c) == s' = [s EXCEPT !.dials = @ \cup {[c |-> c, met |-> {Port(s.phase, s.shut)}]}]

Connected(c) ==
  \E d \in s.dials :
    /\ d.c = c
    /\ d.met # {"closed"}
    /\ s' = [s EXCEPT !.dials = @ \ {d}, !.conns = @ \cup {c}]

Refused(c) ==
  \E d \in s.dials :
    /\ d.c = c
    /\ d.met # {"open"}
    /\ s' = [s EXCEPT !.dials = @ \ {d}]

\* The server closes the connection of c
Gone(c) ==
  /\ c \in s.conns
  /\ s.phase \in {"stopping", "down"}
  /\ s' = [s EXCEPT !.conns = @ \ {c}]

Leave(c) == c \in s.conns /\ s' = [s EXCEPT !.conns = @ \ {c}]

Settled == s.phase = "up" \/ (s.phase = "down" /\ s.calls = 0 /\ s.conns = {} /\ s.shut)

Quiet == Settled /\ UNCHANGED s
=============================================================================
