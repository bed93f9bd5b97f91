--------------------------- MODULE BroadcastModel ---------------------------
(* Every use of a broadcaster of up to MaxSteps steps, see FutureModel *)
EXTENDS Broadcast, TLC, FiniteSets

CONSTANTS MaxSteps, Emit, Calm     \* see BusModel

VARIABLES script, seen
vars == <<s, script, seen>>

Init == s = NewBroadcast /\ script = <<>> /\ seen = <<>>
Step(name) == Len(script) < MaxSteps /\ script' = Append(script, name) /\ UNCHANGED seen
\* it is set once
Begin == \E op \in {"get", "set"} : /\ op = "set" => \A i \in DOMAIN script : script[i] # "set"
                                    /\ Step(op) /\ Call(Len(script), op)
Tick == Step("tick") /\ Settled /\ UNCHANGED s
Internal == Inner /\ UNCHANGED <<script, seen>>
Returns == \E id \in DOMAIN s.calls \ Open :
             Return(id, s.calls[id].r) /\ seen' = Append(seen, s.calls[id].op) /\ UNCHANGED script
Use == Begin \/ Tick
Next == IF Calm /\ ENABLED (Internal \/ Returns) THEN Internal \/ Returns ELSE Use \/ Internal \/ Returns
Spec == Init /\ [][Next]_vars /\ WF_vars(Internal) /\ WF_vars(Returns)

\* Nobody has a message that was not set, and once it is set everybody gets it
Sound == (\E i \in DOMAIN seen : seen[i] = "get") => s.set
Rest == []<>Settled
View == <<s, seen, Len(script)>>
EmitScript == Emit => (script' # script => PrintT("SCRIPT " \o ToString(script')))
=============================================================================
