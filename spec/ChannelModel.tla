---------------------------- MODULE ChannelModel ----------------------------
(* Every use of a data channel of up to MaxSteps steps, see FutureModel *)
EXTENDS Channel

CONSTANTS MaxSteps, Emit, Calm     \* see BusModel

VARIABLES now, script, sent, got, shut
\* sent: the event and the result of every Send that has returned
\* got: what the Receives have returned, in this order; shut: a Close has returned
vars == <<s, now, script, sent, got, shut>>

Milli == 1000
Configs == {<<0, 1>>, <<1, 1>>, <<2, 2>>, <<1, 0>>}

Init == \E c \in Configs : s = NewChannel(c[1], c[2] * Milli) /\ now = 0 /\ sent = <<>> /\ got = <<>> /\ shut = FALSE
                           /\ script = <<ToString(c[1]) \o ":" \o ToString(c[2])>>

Sends == Cardinality({i \in DOMAIN script : script[i] = "send"})
Step(name) == Len(script) <= MaxSteps /\ script' = Append(script, name) /\ UNCHANGED <<sent, got, shut>>
Begin == \E op \in {"send", "recv", "close"} :
           Step(op) /\ Call(Len(script), op, IF op = "send" THEN Sends + 1 ELSE 0, now) /\ UNCHANGED now
Tick == Step("tick") /\ Settled(now) /\ now' = now + Milli /\ UNCHANGED s
Internal == Inner(now) /\ UNCHANGED <<now, script, sent, got, shut>>
Returns == \E id \in DOMAIN s.calls \ Open :
             /\ Return(id, s.calls[id].r)
             /\ sent' = IF Is(id, "send") THEN With(sent, s.calls[id].e, s.calls[id].r) ELSE sent
             /\ got' = IF Is(id, "recv") THEN Append(got, s.calls[id].r) ELSE got
             /\ shut' = (shut \/ Is(id, "close"))
             /\ UNCHANGED <<now, script>>

Use == Begin \/ Tick
Next == IF Calm /\ ENABLED (Internal \/ Returns) THEN Internal \/ Returns ELSE Use \/ Internal \/ Returns
Spec == Init /\ [][Next]_vars /\ WF_vars(Internal) /\ WF_vars(Returns)

Events(S) == {ToString(e) : e \in S}
With_r(r) == {e \in DOMAIN sent : sent[e] = r}
Received == {got[i] : i \in DOMAIN got} \ {"closed"}
Pending(op) == {id \in DOMAIN s.calls : Is(id, op)}
\* Nothing is received twice, and nothing that was not sent, or whose sender was told that it is lost
Once == /\ \A i, j \in DOMAIN got : i # j /\ got[i] # "closed" => got[i] # got[j]
        /\ Received \cap Events(With_r("expired") \cup With_r("closed")) = {}
        /\ Received \subseteq Events(1..Sends)
\* Nothing that was sent successfully is lost, unless the channel is closed
Conserved == s.rc \/ Events(With_r("success")) \subseteq
               Received \cup Events({s.q[i] : i \in DOMAIN s.q}) \cup {s.calls[id].r : id \in Pending("recv")}
Bounded == Len(s.q) <= s.size
\* After Close has returned nothing gets in or out
Ended == shut => s.sc
Rest == []<>(Settled(now))
View == <<s, now, sent, got, shut, Len(script)>>
EmitScript == Emit => (script' # script => PrintT("SCRIPT " \o ToString(script')))
=============================================================================
