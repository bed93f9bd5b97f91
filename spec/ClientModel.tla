----------------------------- MODULE ClientModel -----------------------------
(***************************************************************************)
(* Mode "lines": every line over a small alphabet; each is printed, so the *)
(* real client takes each of them too.  Mode "words": every short list of  *)
(* words, written as a line and read again.  Mode "session": small         *)
(* sessions.                                                               *)
(***************************************************************************)
EXTENDS Client

CONSTANTS Mode, MaxLen, Emit

VARIABLES x, ws, log

vars == <<s, x, ws, log>>

Letters == {"a", "b", Space, Quote}
WordSet == {"", "a", "b", "a b", " ", "aa"}
Lists == UNION {[1..n -> WordSet] : n \in 0..MaxLen}
Values == {Val("str", "OK", <<>>), Val("int", "1", <<>>), Val("nil", "", <<>>), Val("arr", "", <<>>), Val("err", "x", <<>>),
           Val("arr", "", <<Val("bulk", "a", <<>>), Val("nil", "", <<>>)>>), Val("nilarr", "", <<>>), Val("bulk", "", <<>>)}

\* A word may always be quoted
RECURSIVE Join(_, _, _, _)
Join(w, k, all, gap) ==
  IF k > Len(w) THEN ""
  ELSE (IF k = 1 THEN "" ELSE gap)
       \o (IF all \/ w[k] = "" \/ \E j \in 1..Len(w[k]) : Ch(w[k], j) = Space THEN Quote \o w[k] \o Quote ELSE w[k])
       \o Join(w, k + 1, all, gap)

Init == /\ s = Start
        /\ log = <<>>
        /\ x = ""
        /\ IF Mode = "words" THEN ws \in Lists ELSE ws = <<>>

Some == {"a", "", "quit", "a \"\"", "QUIT\r"}
Next ==
  \/ Mode = "lines" /\ Len(x) < MaxLen /\ (\E c \in Letters : x' = x \o c) /\ UNCHANGED <<s, ws, log>>
  \/ /\ Mode = "session"
     /\ UNCHANGED <<x, ws>>
     /\ \/ Len(log) < MaxLen /\ \E line \in Some, e \in BOOLEAN : Type(<<line>>, e) /\ log' = Append(log, line)
        \/ s.wire # "" /\ Arrived(s.wire) /\ UNCHANGED log
        \/ (\E v \in Values : Reply(v)) /\ UNCHANGED log
        \/ Break /\ UNCHANGED log
        \/ s.owed # "" /\ Printed(s.owed) /\ UNCHANGED log
        \/ Exit(s.code) /\ UNCHANGED log
Spec == Init /\ [][Next]_vars /\ WF_s(Next /\ UNCHANGED log)

\* What a word list makes is what a server reads
Sound ==
  /\ Mode = "words" =>
       \A all \in BOOLEAN, gap \in {" ", "  "} :
          LET w == Words(Join(ws, 1, all, gap))
          IN w.proper /\ w.ws = ws /\ IsRequest(Enc(Bulks(ws))) /\ Request(Dec(Enc(Bulks(ws)), 1, 0).v).q = ws
  /\ Mode = "lines" =>
       LET w == Words(x)
       IN w.proper => /\ \A k \in DOMAIN w.ws : \A j \in 1..Len(w.ws[k]) : Ch(w.ws[k], j) # Quote
                      /\ Words(" " \o x \o " ") = w
                      /\ (\A j \in 1..Len(x) : Ch(x, j) # Quote) =>
                           Words(x \o " \"" \o x \o "\"") = [w EXCEPT !.ws = Append(@, x)]

\* Values of different kinds look different, but for the empty ones
ASSUME \A v, w \in Values : v # w /\ Show(v) = Show(w) => {v.t, w.t} = {"arr", "nilarr"}

\* A client waits for one reply at a time, and is gone only when there is nothing left to do
Steps == /\ s.at \in {"done", "gone"} /\ s.code = 0 => s.eof \/ \E k \in DOMAIN log : log[k] \in {"quit", "QUIT\r"}
         /\ s.at = "prompt" => s.todo = <<>>
         /\ s.wire # "" => s.at = "wait"

\* With no further input the client comes to rest
Rests == <>[](s.at \in {"prompt", "gone"} /\ s.owed = "" /\ s.wire = "")

RECURSIVE Coded(_)
Coded(y) == IF y = "" THEN ""
            ELSE LET c == Ch(y, 1) IN (IF c = Space THEN "s" ELSE IF c = Quote THEN "q" ELSE c) \o Coded(SubSeq(y, 2, Len(y)))
EmitLine == Mode = "lines" /\ Emit => PrintT("STR " \o Coded(x))
=============================================================================
