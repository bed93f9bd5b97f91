--------------------------- MODULE ResourcesTrace ---------------------------
(***************************************************************************)
(* Which recorded lives of real servers are behaviours of Resources?       *)
(* Visitors come in groups: come and leave have a number of them (n) of    *)
(* which the first is c.  A measurement is taken when the usage has        *)
(* settled, or long after everybody left.                                  *)
(***************************************************************************)
EXTENDS Resources, Sequences, Json, IOUtils

VARIABLES h, l

Hists == ndJsonDeserialize(IOEnv.TRACE)
ASSUME \A i \in 1..Len(Hists) : TLCSet(i, 0)
Ev == Hists[h].ev[l]

Allowed ==
  CASE Ev.k = "start" -> Start(Ev.n)
    [] Ev.k = "stop" -> Stop
    [] Ev.k = "come" -> s.up # 0 /\ s' = [s EXCEPT !.present = @ \cup (Ev.c..Ev.c + Ev.n - 1), !.held = @ \cup (Ev.c..Ev.c + Ev.n - 1)]
    [] Ev.k = "leave" -> s' = [s EXCEPT !.present = @ \ (Ev.c..Ev.c + Ev.n - 1)]
    [] Ev.k = "usage" -> IF s.present = {} THEN Measure(Ev) \/ Grow(Ev) ELSE Meanwhile(Ev, Cardinality(s.present))

TInit == h \in 1..Len(Hists) /\ l = 1 /\ s = NewProcess
TNext == /\ l <= Len(Hists[h].ev)
         /\ UNCHANGED h
         /\ \/ Allowed /\ l' = l + 1
            \/ Ev.k = "usage" /\ FreeAll /\ UNCHANGED l
TSpec == TInit /\ [][TNext]_<<h, l, s>>
Mark == IF TLCGet(h) < l THEN TLCSet(h, l) ELSE TRUE
Accepted == \A i \in 1..Len(Hists) :
              \/ TLCGet(i) = Len(Hists[i].ev) + 1
              \/ PrintT(<<"REJECTED", i, TLCGet(i)>>)
=============================================================================
