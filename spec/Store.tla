------------------------------ MODULE Store ------------------------------
(***************************************************************************)
(* The system seen from outside: nodes with a key space and a log, clients *)
(* whose requests take effect one at a time between request and reply,     *)
(* graceful stops, crashes, damaged files and replicas.                    *)
(*                                                                         *)
(* nd[n] is a node:                                                        *)
(*   ks    its key space                                                   *)
(*   log   the requests it logged, in the order they took effect           *)
(*   safe  how many of them are certainly on the disk                      *)
(*   win   <<>>, or <<m, k>> while the node fetches the log of node m,     *)
(*         which had k entries when the node started, or <<m, k, "some">>  *)
(*         when it has applied k of them (its own, after a crash)          *)
(* The key space of a node that has no master is what its log rebuilds.    *)
(***************************************************************************)
EXTENDS Keyspace

VARIABLE nd

NewNode == [ks |-> EmptyKS, log |-> <<>>, safe |-> 0, win |-> <<>>]

\* The request q takes effect on node n of f and is answered with r
Executed(f, n, q, ns, r, keeplog) ==
  LET e == Effect(f[n].ks, q, ns)
  IN [f EXCEPT ![n].ks = Next(e, r),
               ![n].log = IF keeplog THEN @ \o Logged(e, r, q, ns) ELSE @]

\* A reply "none" was never received: anything the request may be answered with
Replies(f, n, q, ns, r) ==
  LET e == Effect(f[n].ks, q, ns)
  IN IF r.t = "none" THEN Outcomes(e) ELSE IF Matches(e, r) THEN {r} ELSE {}

Execute(n, q, ns, r, keeplog) ==
  \E x \in Replies(nd, n, q, ns, r) : nd' = Executed(nd, n, q, ns, x, keeplog)

Rebuilt(log) == Replay(EmptyKS, log)

Stop(n) ==       \* and start again: everything that took effect is there
  nd' = [nd EXCEPT ![n].safe = Len(nd[n].log)]

\* Crash and start again: the effects of a prefix are there, which holds at least what is safe
CrashStart(n) ==
  /\ nd[n].win = <<>>
  /\ nd' = [nd EXCEPT ![n].ks = Rebuilt(SubSeq(nd[n].log, 1, nd[n].safe)), ![n].win = <<n, nd[n].safe, "some">>]

\* The log that is being applied is that of m, entry k was the last
More(n) ==
  LET w == nd[n].win
      k == w[2] + 1
  IN /\ Len(w) = 3
     /\ k <= Len(nd[w[1]].log)
     /\ nd' = [nd EXCEPT ![n].ks = Replay(@, SubSeq(nd[w[1]].log, k, k)), ![n].win = <<w[1], k, "some">>]

CrashEnd(n) ==
  LET k == nd[n].win[2]
  IN /\ Len(nd[n].win) = 3
     /\ nd' = [nd EXCEPT ![n].log = SubSeq(@, 1, k), ![n].safe = k, ![n].win = <<>>]

Cut(n, p) ==     \* while n is down its file loses everything after the first p records
  /\ p <= Len(nd[n].log)
  /\ nd' = [nd EXCEPT ![n].log = SubSeq(@, 1, p), ![n].safe = p, ![n].ks = Rebuilt(SubSeq(nd[n].log, 1, p))]

Without(log, i) == SubSeq(log, 1, i - 1) \o SubSeq(log, i + 1, Len(log))

Damage(n, i) ==  \* while n is down the content of record i becomes unreadable
  /\ i <= Len(nd[n].log)
  /\ nd' = [nd EXCEPT ![n].log = Without(@, i), ![n].safe = Len(nd[n].log) - 1, ![n].ks = Rebuilt(Without(nd[n].log, i))]

Own(n) ==        \* n starts again without a master
  nd' = [nd EXCEPT ![n].ks = Rebuilt(nd[n].log), ![n].safe = Len(nd[n].log)]

FetchBegin(n, m) == \* n starts, and from now on may fetch the log of m
  nd' = [nd EXCEPT ![n].ks = Rebuilt(nd[n].log), ![n].win = <<m, Len(nd[m].log)>>]

\* n has started with its own log and then that of m, as it was at some moment since it began:
\* the part that m had from the beginning, any number of the later requests one by one, the end
FetchStart(n) ==
  LET w == nd[n].win
      k == Min2(w[2], Len(nd[w[1]].log))
  IN /\ Len(w) = 2
     /\ nd' = [nd EXCEPT ![n].ks = Replay(@, SubSeq(nd[w[1]].log, 1, k)), ![n].win = <<w[1], k, "some">>]

\* What a replica got was on the disk of m, so it survives every crash
FetchEnd(n) ==
  LET m == nd[n].win[1]
      k == nd[n].win[2]
  IN /\ Len(nd[n].win) = 3
     /\ nd' = [nd EXCEPT ![n].win = <<>>, ![m].safe = Max2(@, k)]

FetchFailed(n) ==   \* the master could not be reached, or the transfer broke: nothing is applied
  nd' = [nd EXCEPT ![n].win = <<>>]
==========================================================================
