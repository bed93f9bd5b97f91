---------------------------- MODULE StoreTrace ----------------------------
(***************************************************************************)
(* Which recorded histories of real servers are behaviours of Store?       *)
(*                                                                         *)
(* The file named by TRACE has one history per line:                       *)
(*   nodes    the number of nodes                                          *)
(*   kl       whether the log matters (a crash, a damaged file, a replica)  *)
(*   clients  for each client the requests it sent, in order:              *)
(*              [n, q, ns, r, at]: node, request, non-string positions,    *)
(*              reply ("none" if it never came), index of the "inv" event  *)
(*   ev       the events, in real-time order                               *)
(* "c" is a request whose reply came before anything else happened.        *)
(* Requests of one client take effect in their order.  When nothing forces *)
(* a pending request to have taken effect it is left pending, which loses  *)
(* no behaviour and keeps the search small.                                *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils

VARIABLES h, l, done
vars == <<nd, h, l, done>>

Hists == ndJsonDeserialize(IOEnv.TRACE)

\* Registers: i is the furthest event of history i, N + i the number of its states
N == Len(Hists)
ASSUME \A i \in 1..(2 * N) : TLCSet(i, 0)
Budget == 400000
Deadline == atoi(IOEnv.DEADLINE)

H == Hists[h]
Ev == H.ev[l]
NClients == Len(H.clients)
NsOf(x) == Range(x.ns)

TInit == /\ h \in 1..Len(Hists)
         /\ l = 1
         /\ nd = [n \in 1..Hists[h].nodes |-> NewNode]
         /\ done = [c \in 1..Len(Hists[h].clients) |-> 0]

Alive(c) == done[c] < Len(H.clients[c]) /\ H.clients[c][done[c] + 1].at < l
NextOp(c) == H.clients[c][done[c] + 1]

\* An event before which pending requests may have to take effect
Barrier == \/ Ev.k = "ret" /\ done[Ev.c] < Ev.i
           \/ Ev.k \in {"c", "stop", "crash", "fetched", "own"}

\* A node that has begun to apply a log
Applying == Ev.k \in {"fetched", "crash"} /\ Len(nd[Ev.n].win) = 3

Silent == /\ l <= Len(H.ev)
          /\ Barrier
          /\ ~Applying
          /\ \E c \in 1..NClients :
               /\ Alive(c)
               /\ LET o == NextOp(c) IN Execute(o.n, o.q, NsOf(o), o.r, H.kl)
               /\ done' = [done EXCEPT ![c] = @ + 1]
          /\ UNCHANGED <<h, l>>

Applies ==
  /\ l <= Len(H.ev)
  /\ Ev.k \in {"fetched", "crash"}
  /\ IF Ev.k = "fetched" THEN FetchStart(Ev.n) \/ More(Ev.n) ELSE CrashStart(Ev.n) \/ More(Ev.n)
  /\ UNCHANGED <<h, l, done>>

\* Requests to n that are pending when it goes down never take effect
Drop(n) == done' = [c \in DOMAIN done |->
                      IF Len(H.clients[c]) > 0 /\ H.clients[c][1].n = n
                      THEN Max2(done[c], Cardinality({i \in DOMAIN H.clients[c] : H.clients[c][i].at < l}))
                      ELSE done[c]]

Step == /\ l <= Len(H.ev)
        /\ l' = l + 1
        /\ UNCHANGED h
        /\ \/ /\ Ev.k = "c"
              /\ Execute(Ev.n, Ev.q, NsOf(Ev), Ev.r, H.kl)
              /\ UNCHANGED done
           \/ Ev.k = "inv" /\ UNCHANGED <<nd, done>>
           \/ Ev.k = "ret" /\ done[Ev.c] >= Ev.i /\ UNCHANGED <<nd, done>>
           \/ Ev.k = "stop" /\ Stop(Ev.n) /\ Drop(Ev.n)
           \/ Ev.k = "crash" /\ CrashEnd(Ev.n) /\ Drop(Ev.n)
           \/ Ev.k = "own" /\ Own(Ev.n) /\ Drop(Ev.n)
           \/ Ev.k = "cut" /\ Cut(Ev.n, Ev.p) /\ UNCHANGED done
           \/ Ev.k = "damage" /\ Damage(Ev.n, Ev.p) /\ UNCHANGED done
           \/ Ev.k = "fetch" /\ FetchBegin(Ev.n, Ev.m) /\ UNCHANGED done
           \/ Ev.k = "fetched" /\ FetchEnd(Ev.n) /\ UNCHANGED done
           \/ Ev.k = "nofetch" /\ FetchFailed(Ev.n) /\ UNCHANGED done

TNext == Silent \/ Applies \/ Step
TSpec == TInit /\ [][TNext]_vars

\* Once all of a history is explained, the rest of its states need not be explored. A history with
\* too many states stays undecided, which is reported.
Mark == /\ TLCGet(h) <= Len(H.ev)
        /\ IF TLCGet(h) < l THEN TLCSet(h, l) ELSE TRUE
        /\ TLCSet(N + h, TLCGet(N + h) + 1)
        /\ TLCGet(N + h) < Budget
        /\ TLCGet("duration") < Deadline

Accepted == \A i \in 1..N :
              \/ TLCGet(i) = Len(Hists[i].ev) + 1
              \/ PrintT(<<IF TLCGet(N + i) >= Budget \/ TLCGet("duration") >= Deadline THEN "UNDECIDED" ELSE "REJECTED", i, TLCGet(i)>>)
===========================================================================
