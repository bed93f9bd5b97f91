----------------------------- MODULE StoreModel -----------------------------
(***************************************************************************)
(* Every life of up to MaxSteps steps of a master (node 1) and of a node 2 *)
(* that may become its replica: requests one by one or in progress at the  *)
(* same time, graceful stops, crashes, files that lose records, transfers  *)
(* of the log that succeed or break.  TLC checks what users rely on, and   *)
(* prints the steps for the replay on real servers.                        *)
(***************************************************************************)
EXTENDS Store

CONSTANTS MaxSteps, Emit, Acts, Calm      \* Calm: see BusModel

VARIABLES pend,     \* requests in progress: what is known of each
          script,
          going,    \* the event that goes on, with its node
          got,      \* the log that a replica was sent
          before    \* of the node that is concerned: its log when the event began
vars == <<nd, pend, script, going, got, before>>

Nodes == {1, 2}
Requests == {<<"append", "k", "1">>, <<"append", "k", "2">>, <<"set", "k", "">>, <<"sadd", "z", "a", "b">>, <<"spop", "z">>, <<"lpop", "l">>}
Join(q) == IF Len(q) = 2 THEN q[1] \o "," \o q[2] ELSE IF Len(q) = 3 THEN q[1] \o "," \o q[2] \o "," \o q[3]
           ELSE q[1] \o "," \o q[2] \o "," \o q[3] \o "," \o q[4]
Log(n) == nd[n].log

Init == /\ nd = [n \in Nodes |-> NewNode] /\ pend = {} /\ script = <<>> /\ going = <<"", 0>> /\ got = <<>> /\ before = <<>>

Step(name) == Len(script) < MaxSteps /\ going[1] = "" /\ script' = Append(script, name)
Idle(n) == \A x \in pend : x.n # n

\* A request and its reply; others may be in progress
Do(n, q) ==
  /\ Step("do:" \o ToString(n) \o ":" \o Join(q))
  /\ Execute(n, q, {}, Reply("none", "", <<>>), TRUE)
  /\ UNCHANGED <<pend, going, got, before>>
\* A request without waiting for its reply
Go(n, q) ==
  /\ Step("go:" \o ToString(n) \o ":" \o Join(q))
  /\ Cardinality(pend) < 2
  /\ pend' = pend \cup {[id |-> Len(script), n |-> n, q |-> q]}
  /\ UNCHANGED <<nd, going, got, before>>
Works == /\ going[1] \in {"kill", "fetch"} => Len(nd[going[2]].win) < 3
         /\ \E x \in pend :
              Execute(x.n, x.q, {}, Reply("none", "", <<>>), TRUE) /\ pend' = pend \ {x} /\ UNCHANGED <<script, going, got, before>>
Wait == pend # {} /\ Step("wait:0") /\ going' = <<"wait", 0>> /\ UNCHANGED <<nd, pend, got, before>>
Waited == going[1] = "wait" /\ pend = {} /\ going' = <<"", 0>> /\ UNCHANGED <<nd, pend, script, got, before>>

Begin(what, n, m) ==
  /\ what \in Acts
  /\ Step(what \o ":" \o ToString(n))
  /\ going' = <<what, n>>
  /\ before' = nd[m].log
  /\ UNCHANGED <<nd, pend, got>>
Over == going' = <<"", 0>> /\ UNCHANGED <<script, before>>
Drop(n) == pend' = {x \in pend : x.n # n}

\* The requests in progress at a graceful stop may take effect or not
Stopped == LET n == going[2] IN
           /\ going[1] = "stop"
           /\ IF nd[n].ks = Rebuilt(Log(n)) THEN Stop(n) ELSE Own(n)
           /\ Drop(n) /\ Over /\ UNCHANGED got
Crashing == /\ going[1] = "kill" /\ (CrashStart(going[2]) \/ More(going[2])) /\ UNCHANGED <<pend, script, going, got, before>>
Crashed == /\ going[1] = "kill" /\ CrashEnd(going[2]) /\ Drop(going[2]) /\ Over /\ UNCHANGED got
\* The number of records that remain, of how many
Cuts == \E n \in Nodes, p \in 0..MaxSteps :
          /\ "cut" \in Acts /\ Idle(n) /\ p < Len(Log(n))
          /\ Step("cut:" \o ToString(n) \o ":" \o ToString(p) \o ":" \o ToString(Len(Log(n))))
          /\ Cut(n, p) /\ got' = (IF n = 1 THEN SubSeq(got, 1, Min2(p, Len(got))) ELSE got)
          /\ UNCHANGED <<pend, going, before>>
Damages == \E n \in Nodes, p \in 1..MaxSteps :
          /\ "damage" \in Acts /\ Idle(n) /\ p <= Len(Log(n))
          /\ Step("damage:" \o ToString(n) \o ":" \o ToString(p) \o ":" \o ToString(Len(Log(n))))
          /\ Damage(n, p) /\ got' = (IF n = 1 THEN <<>> ELSE got)
          /\ UNCHANGED <<pend, going, before>>
Fetches == /\ "fetch" \in Acts /\ Idle(2) /\ Step("fetch:2") /\ going' = <<"fetch", 2>> /\ before' = nd[1].log
           /\ FetchBegin(2, 1) /\ UNCHANGED <<pend, got>>
Fetching == /\ going[1] = "fetch" /\ (FetchStart(2) \/ More(2)) /\ UNCHANGED <<pend, script, going, got, before>>
Fetched == /\ going[1] = "fetch" /\ FetchEnd(2) /\ got' = SubSeq(Log(1), 1, nd[2].win[2]) /\ Over /\ UNCHANGED pend
Breaks == /\ "break" \in Acts /\ Idle(2) /\ Step("break:2") /\ FetchBegin(2, 1) /\ going' = <<"break", 2>> /\ UNCHANGED <<pend, got, before>>
Broken == /\ going[1] = "break" /\ FetchFailed(2) /\ Over /\ UNCHANGED <<pend, got>>

Use == \/ \E n \in Nodes, q \in Requests : Do(n, q)
       \/ "go" \in Acts /\ \E q \in Requests : Go(1, q)
       \/ Wait
       \/ \E n \in Nodes : Begin("stop", n, n) \/ Begin("kill", n, n)
       \/ Cuts \/ Damages \/ Fetches \/ Breaks
Internal == Works \/ Waited \/ Stopped \/ Crashing \/ Crashed \/ Fetching \/ Fetched \/ Broken
Moves == IF Calm /\ ENABLED Internal THEN Internal ELSE Use \/ Internal
Spec == Init /\ [][Moves]_vars /\ WF_vars(Internal)

Whole(n) == nd[n].win = <<>>
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
\* A master is always what its log rebuilds, and so is what it stays after any restart
Rebuildable == Whole(1) => nd[1].ks = Rebuilt(Log(1))
SafeIs == \A n \in Nodes : nd[n].safe <= Len(Log(n))
\* What replicas were sent the master never loses, but with its file
Sent == Whole(1) => IsPrefix(got, Log(1))
\* Nothing that happens to a node changes another
Apart == [][/\ nd'[1].ks # nd[1].ks \/ nd'[1].log # nd[1].log => nd'[2] = nd[2]
            /\ nd'[2].ks # nd[2].ks \/ nd'[2].log # nd[2].log => nd'[1] = nd[1]]_vars
\* A graceful stop loses nothing; a crash leaves what a prefix of the effects leads to
Stops == [][going[1] = "stop" /\ going'[1] = "" => nd'[going[2]].log = Log(going[2]) /\ nd'[going[2]].ks = Rebuilt(Log(going[2]))]_vars
Crashes == [][going[1] = "kill" /\ going'[1] = "" =>
                LET n == going[2] IN /\ IsPrefix(nd'[n].log, Log(n)) /\ nd'[n].ks = Rebuilt(nd'[n].log)
                                     /\ nd[n].safe <= Len(nd'[n].log)]_vars
\* A replica has its own effects and then those of its master, all that were there when it began
Replicas == [][going[1] = "fetch" /\ going'[1] = "" =>
                 /\ nd'[2].ks = Replay(Rebuilt(Log(2)), got') /\ IsPrefix(got', Log(1)) /\ IsPrefix(before, got')
                 /\ nd'[2].log = Log(2)]_vars
\* A transfer that breaks has no effect
Unharmed == [][going[1] = "break" /\ going'[1] = "" => nd'[2].ks = Rebuilt(Log(2)) /\ nd'[2].log = Log(2)]_vars
Rest == []<>(going[1] = "" /\ pend = {})
View == <<nd, {[n |-> x.n, q |-> x.q] : x \in pend}, going, got, before, Len(script)>>
EmitScript == Emit => (script' # script => PrintT("SCRIPT " \o ToString(script')))
=============================================================================
