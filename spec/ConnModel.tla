------------------------------ MODULE ConnModel -----------------------------
(***************************************************************************)
(* Every use of a connection of up to MaxSteps steps, see FutureModel.     *)
(* What the client gets in the end is chosen at the start; behaviours that *)
(* chose wrong get stuck, so there is nothing about progress here.         *)
(***************************************************************************)
EXTENDS Conn

CONSTANTS MaxSteps, Emit, Calm     \* see BusModel

VARIABLES now, script, sent, got, ok, ends
\* sent: what the client sent; got: what was read; ok: successful writes; ends: successful closes
vars == <<s, now, script, sent, got, ok, ends>>

Milli == 1000
Text == "<0>"
Times(k) == IF k = 0 THEN "" ELSE IF k = 1 THEN Text ELSE Text \o Text
Outs == {Times(k) \o SubSeq(Text, 1, c) \o SubSeq(Farewell, 1, j) : k \in 0..2, c \in 0..1, j \in {0, 1, Len(Farewell)}}

Init == /\ \E e \in {1, 2}, sp \in {-1, 4}, out \in Outs :
             s = NewConn(e * Milli, sp, out) /\ script = <<ToString(e) \o ":" \o ToString(sp)>>
        /\ now = 0 /\ sent = <<>> /\ got = <<>> /\ ok = 0 /\ ends = 0

Step(name) == Len(script) <= MaxSteps /\ script' = Append(script, name) /\ UNCHANGED <<got, ok, ends>>
Over == "eof" \in {sent[i] : i \in DOMAIN sent}
Begin == \E op \in {"read", "write", "close", "isclosed"} :
           /\ op = "read" => \A id \in DOMAIN s.calls : ~Is(id, "read")
           /\ Step(op) /\ Call(Len(script), op, IF op = "write" THEN Text ELSE "", now) /\ UNCHANGED <<now, sent>>
Peer == /\ ~Over /\ UNCHANGED now
        /\ \/ Step("peer:send") /\ Send(":" \o ToString(Len(sent))) /\ sent' = Append(sent, ":" \o ToString(Len(sent)))
           \/ Step("peer:bad") /\ Send("bad") /\ sent' = Append(sent, "bad")
           \/ Step("peer:eof") /\ Send("eof") /\ sent' = Append(sent, "eof")
           \/ Step("peer:gone") /\ Gone /\ sent' = Append(sent, "eof")
           \/ s.space # -1 /\ Step("peer:drain") /\ Drain /\ UNCHANGED sent
Tick == Step("tick") /\ Settled(now) /\ now' = now + Milli /\ UNCHANGED <<s, sent>>
Internal == Inner(now) /\ UNCHANGED <<now, script, sent, got, ok, ends>>
Returns == \E id \in DOMAIN s.calls \ Open :
             LET r == s.calls[id].r IN
             /\ Return(id, r)
             /\ got' = IF Is(id, "read") /\ r # "fail" THEN Append(got, r) ELSE got
             /\ ok' = IF Is(id, "write") /\ r = "ok" THEN ok + 1 ELSE ok
             /\ ends' = IF Is(id, "close") /\ r = "ok" THEN ends + 1 ELSE ends
             /\ UNCHANGED <<now, script, sent>>

Use == Begin \/ Peer \/ Tick
Moves == IF Calm /\ ENABLED (Internal \/ Returns) THEN Internal \/ Returns ELSE Use \/ Internal \/ Returns
Spec == Init /\ [][Moves]_vars

Good(q) == SelectSeq(q, LAMBDA x : x # "bad" /\ x # "eof")
\* What is read is what was sent, in order
InOrder == LET g == Good(sent) IN Len(got) <= Len(g) /\ got = SubSeq(g, 1, Len(got))
\* Every successful write arrives completely, and only one Close is the first
Written == ok * Len(Text) <= s.pos
First == ends <= 1
Silent == [][s.state = "closed" => s'.pos = s.pos /\ s'.state = "closed"]_vars
NeverOpen == [][s.state # "open" => s'.state # "open"]_vars
\* Without a Close, an end of the client or a rest of the expire time nothing closes it
Reason == s.state # "open" => \/ s.eof \/ now >= s.expire
                              \/ \E i \in DOMAIN script : script[i] = "close"
View == <<s, now, sent, got, ok, ends, Len(script)>>
EmitScript == Emit => (script' # script => PrintT("SCRIPT " \o ToString(script')))
=============================================================================
