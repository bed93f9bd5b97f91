--------------------------------- MODULE Conn -------------------------------
(***************************************************************************)
(* A connection with a client. Its state s has                             *)
(*   state     "open", "closing" or "closed"                               *)
(*   act       when the last Read or Write began                           *)
(*   inq       what the client has sent and nobody has read                *)
(*   eof       somebody has read that the client sends no more             *)
(*   gone      the client does not take anything anymore                   *)
(*   space     how much the client takes without reading, -1: everything   *)
(*   pos       how much of out has been written                            *)
(*   since     when it began to close                                      *)
(*   calls     the calls that have not returned; a Read or Write first     *)
(*             restarts the time (on)                                      *)
(* Constant for one connection: expire, the time without activity after    *)
(* which it closes, and out, all that the client gets in the end.          *)
(* A closing connection says farewell, and after that writes nothing.      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLE s

Farewell == "TTL expired"
\* How long a client that does not read may delay the end of a closing connection
Patience == 10000000

NewConn(expire, space, out) ==
  [state |-> "open", act |-> 0, inq |-> <<>>, eof |-> FALSE, gone |-> FALSE, space |-> space, pos |-> 0,
   since |-> 0, calls |-> <<>>, expire |-> expire, out |-> out]

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Call(id, op, text, now) ==
  s' = [s EXCEPT !.calls = With(@, id, [op |-> op, s |-> text, at |-> now, early |-> s.state = "open",
                                        late |-> s.state = "closed", on |-> FALSE, mine |-> FALSE, r |-> ""])]

Open == {id \in DOMAIN s.calls : s.calls[id].r = ""}
Is(id, op) == s.calls[id].op = op
Answer(id, r) == s' = [s EXCEPT !.calls[id].r = r]

\* The bytes x are next in out
Next(x) == Len(x) <= Len(s.out) - s.pos /\ x = SubSeq(s.out, s.pos + 1, s.pos + Len(x))
Fits(x) == s.space = -1 \/ s.pos + Len(x) <= s.space

Restart(id) ==
  /\ s.calls[id].op \in {"read", "write"} /\ ~s.calls[id].on /\ s.state # "closed"
  /\ s' = [s EXCEPT !.calls[id].on = TRUE, !.act = IF s.calls[id].at > @ THEN s.calls[id].at ELSE @]
Fail(id) ==
  /\ s.calls[id].op \in {"read", "write"}
  /\ s.state # "open" \/ (Is(id, "write") /\ s.gone)
  /\ \/ Answer(id, "fail")
     \* a write that began before the end may be cut
     \/ /\ Is(id, "write") /\ s.calls[id].on /\ s.calls[id].early /\ s.state # "closed"
        /\ \E k \in 1..Len(s.calls[id].s) :
             LET x == SubSeq(s.calls[id].s, 1, k) IN
             Next(x) /\ s' = [s EXCEPT !.pos = @ + k, !.calls[id].r = "fail"]
Read(id) ==
  /\ Is(id, "read") /\ s.calls[id].on /\ ~s.calls[id].late /\ s.inq # <<>>
  /\ CASE Head(s.inq) = "eof" -> s' = [s EXCEPT !.eof = TRUE, !.calls[id].r = "fail"]
       [] Head(s.inq) = "bad" -> \E skip \in BOOLEAN : s' = [s EXCEPT !.inq = IF skip THEN Tail(@) ELSE @, !.calls[id].r = "fail"]
       [] OTHER -> s' = [s EXCEPT !.inq = Tail(@), !.calls[id].r = Head(s.inq)]
Write(id) ==
  /\ Is(id, "write") /\ s.calls[id].on /\ s.calls[id].early /\ s.state # "closed" /\ ~s.gone
  /\ LET x == s.calls[id].s IN
     Fits(x) /\ Next(x) /\ s' = [s EXCEPT !.pos = @ + Len(x), !.calls[id].r = "ok"]
IsClosed(id) == Is(id, "isclosed") /\ Answer(id, IF s.state = "open" THEN "false" ELSE "true")

Closing(now) == [s EXCEPT !.state = "closing", !.since = now]
Expire(now) == s.state = "open" /\ now >= s.act + s.expire /\ s' = Closing(now)
Hangup(now) == s.state = "open" /\ s.eof /\ s' = Closing(now)
Close(id, now) ==
  /\ Is(id, "close")
  /\ IF s.calls[id].mine THEN s.state = "closed" /\ Answer(id, "ok")
     ELSE IF s.state = "open" THEN s' = [Closing(now) EXCEPT !.calls[id].mine = TRUE]
     ELSE Answer(id, "fail")
\* The end: the client gets as much of the farewell as it takes
End ==
  /\ s.state = "closing"
  /\ \E k \in 0..Len(Farewell) :
       LET x == SubSeq(Farewell, 1, k) IN
       /\ Fits(x) /\ Next(x)
       /\ s' = [s EXCEPT !.pos = @ + k, !.state = "closed"]

Inner(now) ==
  \/ \E id \in Open : Restart(id) \/ Fail(id) \/ Read(id) \/ Write(id) \/ IsClosed(id) \/ Close(id, now)
  \/ Expire(now) \/ Hangup(now) \/ End

\* The client sends an object x, something else ("bad") or the end ("eof")
Send(x) == s' = [s EXCEPT !.inq = Append(@, x)]
Gone == s' = [s EXCEPT !.inq = Append(@, "eof"), !.gone = TRUE]
Drain == s' = [s EXCEPT !.space = -1]

Return(id, r) == s.calls[id].r = r /\ s' = [s EXCEPT !.calls = Without(@, id)]

Waiting(now) ==
  \A id \in DOMAIN s.calls :
    /\ id \in Open
    /\ CASE s.state = "closed" -> FALSE
         [] s.state = "closing" -> s.calls[id].op # "isclosed" /\ (Is(id, "close") => s.calls[id].mine)
         [] OTHER -> \/ Is(id, "read") /\ s.calls[id].on /\ s.inq = <<>>
                     \/ Is(id, "write") /\ s.calls[id].on /\ ~s.gone
\* A write that does not fit is what the other writes wait for
Stalled == LET W == {id \in Open : Is(id, "write")} IN
           W = {} \/ \E id \in W : ~Fits(s.calls[id].s)
Settled(now) ==
  /\ Waiting(now)
  /\ s.state = "open" => Stalled /\ now < s.act + s.expire /\ ~s.eof
  /\ s.state = "closing" => s.space # -1 /\ ~s.gone /\ now < s.since + Patience
\* At the end of a history the client has got everything in out
Complete == s.pos = Len(s.out)
=============================================================================
