---------------------------- MODULE DataMapModel ----------------------------
(***************************************************************************)
(* Every use of a data map of up to MaxSteps calls, one after the other    *)
(* (a step "!") or while others are in progress, see FutureModel.          *)
(***************************************************************************)
EXTENDS DataMap

CONSTANTS MaxSteps, Emit, Calm     \* see BusModel

VARIABLES script, seen
vars == <<s, script, seen>>

Uses == {<<"set", "a", 1>>, <<"set", "a", 2>>, <<"set", "b", 0>>, <<"remove", "a", 0>>, <<"remove", "b", 0>>,
         <<"get", "a", 0>>, <<"get", "b", 0>>, <<"has", "a", 0>>, <<"len", "", 0>>}
Name(u) == u[1] \o ":" \o u[2] \o ":" \o ToString(u[3])

Init == s = NewMap /\ script = <<>> /\ seen = {}
Step(name) == Len(script) < MaxSteps /\ script' = Append(script, name) /\ UNCHANGED seen
Begin == \E u \in Uses : Step(Name(u)) /\ Call(Len(script), u[1], u[2], u[3])
Internal == Inner /\ UNCHANGED <<script, seen>>
Returns == \E id \in DOMAIN s.calls \ Open :
             /\ Return(id, s.calls[id].r)
             /\ seen' = seen \cup {<<s.calls[id].op, s.calls[id].key, s.calls[id].r>>}
             /\ UNCHANGED script
Next == IF Calm /\ ENABLED (Internal \/ Returns) THEN Internal \/ Returns ELSE Begin \/ Internal \/ Returns
Spec == Init /\ [][Next]_vars /\ WF_vars(Internal) /\ WF_vars(Returns)

Began(key, v) == \E i \in DOMAIN script : script[i] = "set:" \o key \o ":" \o v
\* What is read was set; the length is never wrong by more than the changes in progress
Sound == \A x \in seen : x[1] = "get" /\ x[3] # "none" => Began(x[2], x[3])
Exact == \A id \in DOMAIN s.calls :
           s.calls[id].op = "len" /\ s.calls[id].r = "" /\ Changing = {} =>
             ENABLED (Effect(id) /\ s'.calls[id].r = ToString(Cardinality(DOMAIN s.m)))
Rest == []<>Settled
View == <<s, seen, Len(script)>>
EmitScript == Emit => (script' # script => PrintT("SCRIPT " \o ToString(script')))
=============================================================================
