----------------------------- MODULE Resources ------------------------------
(***************************************************************************)
(* What a process with servers holds: things are held for every server     *)
(* that is up and for everybody who is connected to it, and are freed some *)
(* time after the server has stopped or the visitor has left.              *)
(*   up       the server that runs, 0 if none does                         *)
(*   present  who is connected                                             *)
(*   held     who has been, and something is still held for                *)
(*   base     what is used while nobody is connected, for the first server *)
(*            that runs and for none (0), once it is known                 *)
(*   grown    how often the heap of the base has been raised: the runtime  *)
(*            keeps what the largest crowd so far has needed               *)
(* Usage is a record of goroutines g, file descriptors fd, files that      *)
(* exist, and heap in KB.                                                   *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC

VARIABLE s

Slack == 2000     \* KB of the heap: what the runtime keeps for threads and the like

MaxGrown == 3     \* how often the base of the heap may rise

NewProcess == [up |-> 0, present |-> {}, held |-> {}, base |-> <<>>, grown |-> 0]

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Phase == IF s.up = 0 THEN "down" ELSE "up"

Start(n) == s.up = 0 /\ s' = [s EXCEPT !.up = n]
Stop == s.up # 0 /\ s' = [s EXCEPT !.up = 0, !.present = {}]
Come(v) == s.up # 0 /\ s' = [s EXCEPT !.present = @ \cup {v}, !.held = @ \cup {v}]
Leave(v) == s' = [s EXCEPT !.present = @ \ {v}]
\* What is held for those who have gone is freed at some time
Free == \E v \in s.held \ s.present : s' = [s EXCEPT !.held = @ \ {v}]
FreeAll == s.held # s.present /\ s' = [s EXCEPT !.held = s.present]

Within(u, b) == /\ u.g <= b.g
                /\ u.fd <= b.fd
                /\ u.files <= b.files
                /\ u.heap <= b.heap + Slack

\* Nobody is connected: as much as ever is used
Measure(u) ==
  /\ s.present = {} /\ s.held = {}
  /\ IF Phase \in DOMAIN s.base THEN Within(u, s.base[Phase]) /\ UNCHANGED s
     ELSE s' = [s EXCEPT !.base = With(@, Phase, u)]

\* More than ever on the heap. This may happen a few times, but not again and again when the same
\* crowd comes again and again
Grow(u) ==
  /\ s.present = {} /\ s.held = {} /\ Phase \in DOMAIN s.base /\ s.grown < MaxGrown
  /\ LET b == s.base[Phase] IN
     /\ u.heap > b.heap + Slack
     /\ Within([u EXCEPT !.heap = 0], b)
     /\ s' = [s EXCEPT !.grown = @ + 1,
                       !.base = [p \in DOMAIN @ |-> [@[p] EXCEPT !.heap = @ + (u.heap - b.heap)]]]

\* Some are connected: at most one descriptor is held for each, and two more for a replica
Meanwhile(u, n) ==
  /\ Cardinality(s.present) = n
  /\ u.fd <= s.base[Phase].fd + 3 * Cardinality(s.held)
  /\ UNCHANGED s
=============================================================================
