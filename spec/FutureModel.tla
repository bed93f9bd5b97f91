----------------------------- MODULE FutureModel ----------------------------
(***************************************************************************)
(* Every use of a future of up to MaxSteps steps: the calls that begin,    *)
(* the end of the task, and the time that passes.  TLC checks what users   *)
(* rely on in all states, and prints the steps for the replay against real *)
(* futures.                                                                *)
(***************************************************************************)
EXTENDS Future, TLC

CONSTANTS MaxSteps, Emit, Calm     \* see BusModel

VARIABLES now,      \* microseconds
          script,   \* the steps so far
          seen      \* what the calls returned, in this order
vars == <<s, now, script, seen>>

Uses == {<<"cancel", 0>>, <<"get", 0>>, <<"wait", 0>>, <<"waitfor", 0>>, <<"waitfor", 1>>, <<"waitfor", 2>>}
Name(u) == IF u[1] = "waitfor" THEN "waitfor:" \o ToString(u[2]) ELSE u[1]
Milli == 1000

Init == s = NewFuture /\ now = 0 /\ script = <<>> /\ seen = <<>>

Step(name) == Len(script) < MaxSteps /\ script' = Append(script, name) /\ UNCHANGED seen
Begin == \E u \in Uses : Step(Name(u)) /\ Call(Len(script), u[1], u[2] * Milli, now) /\ UNCHANGED now
End == Step("finish") /\ Finish("v") /\ UNCHANGED now
Tick == Step("tick") /\ Settled(now) /\ now' = now + Milli /\ UNCHANGED s
Internal == Inner(now) /\ UNCHANGED <<now, script, seen>>
Returns == \E id \in DOMAIN s.calls \ Open :
             Return(id, s.calls[id].r) /\ seen' = Append(seen, <<s.calls[id].op, s.calls[id].r>>) /\ UNCHANGED <<now, script>>

Use == Begin \/ End \/ Tick
Next == IF Calm /\ ENABLED (Internal \/ Returns) THEN Internal \/ Returns ELSE Use \/ Internal \/ Returns
Spec == Init /\ [][Next]_vars /\ WF_vars(Internal) /\ WF_vars(Returns)

Saw(S) == {i \in DOMAIN seen : seen[i] \in S}
Success == {<<"get", "is v">>, <<"wait", "ok">>, <<"waitfor", "ok">>, <<"cancel", "fulfilled">>}
Cancelled == {<<op, "cancelled">> : op \in {"get", "wait", "waitfor", "cancel"}}

\* One outcome for everybody
Agree == /\ Saw(Success) = {} \/ Saw(Cancelled \cup {<<"cancel", "ok">>}) = {}
         /\ Cardinality(Saw({<<"cancel", "ok">>})) <= 1
         /\ Saw(Cancelled) # {} => s.out = "cancelled"
         /\ Saw(Success) # {} => s.out = "done" /\ s.task # <<>>
Known == {seen[i] : i \in DOMAIN seen} \subseteq Success \cup Cancelled \cup {<<"cancel", "ok">>, <<"waitfor", "timeout">>}
Kept == [][s.out # "none" => s'.out = s.out]_vars
\* Something always comes to rest, and with an outcome nobody waits
Rest == []<>(Settled(now))
View == <<s, now, seen, Len(script)>>
EmitScript == Emit => (script' # script => PrintT("SCRIPT " \o ToString(script')))
=============================================================================
