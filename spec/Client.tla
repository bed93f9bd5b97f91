------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* The console client: the words of a typed line, the request they make,   *)
(* the printed form of a reply, and a session.                             *)
(*                                                                         *)
(* A session s is                                                          *)
(*   at    "prompt", "wait" for a reply, "lost" after the connection broke *)
(*         or an unreadable reply, "done"                                  *)
(*   todo  typed lines that the client has not taken yet                   *)
(*   eof   no more lines will be typed                                     *)
(*   owed  text that is printed but was not seen yet                       *)
(*   wire  bytes that are sent but did not arrive yet                      *)
(*   code  the exit code                                                   *)
(***************************************************************************)
EXTENDS Resp, SequencesExt

VARIABLE s

Prompt == ">>> "
Space == " "
Quote == "\""

Marks(x) == SetToSortSeq({k \in 1..Len(x) : Ch(x, k) \in {Space, Quote}}, LAMBDA a, b : a < b)

Improper == [proper |-> FALSE, ws |-> <<>>]

\* in: "gap" between words, "quote" in a quoted word, "after" one; from: where the current piece starts
RECURSIVE Tok(_, _, _, _, _, _)
Tok(x, ps, k, in, from, acc) ==
  LET last == k > Len(ps)
      p == IF last THEN Len(x) + 1 ELSE ps[k]
      piece == SubSeq(x, from, p - 1)
      more == IF piece = "" THEN acc ELSE Append(acc, piece)
      c == IF last THEN "" ELSE Ch(x, p)
  IN IF in = "quote"
     THEN IF last THEN Improper
          ELSE IF c = Quote THEN Tok(x, ps, k + 1, "after", p + 1, Append(acc, piece))
          ELSE Tok(x, ps, k + 1, "quote", from, acc)
     ELSE IF in = "after" /\ piece # "" THEN Improper
     ELSE IF last THEN [proper |-> TRUE, ws |-> more]
     ELSE IF c = Space THEN Tok(x, ps, k + 1, "gap", p + 1, more)
     ELSE IF in = "after" \/ piece # "" THEN Improper
     ELSE Tok(x, ps, k + 1, "quote", p + 1, acc)

\* The words of a line, if it is made of words and complete quoted words with spaces between them
Words(x) == Tok(x, Marks(x), 1, "gap", 1, <<>>)

Bulks(ws) == Val("arr", "", [k \in DOMAIN ws |-> Val("bulk", ws[k], <<>>)])

\* What may be sent for the line: the request of its words; for other lines some complete request
IsRequest(b) == LET r == Dec(b, 1, 0)
                IN r.st = "ok" /\ ~r.lax /\ r.n = Len(b) + 1 /\ r.v.t = "arr" /\ \A k \in DOMAIN r.v.a : r.v.a[k].t = "bulk"
Sends(x, b) == LET w == Words(x) IN IF w.proper THEN b = Enc(Bulks(w.ws)) ELSE IsRequest(b)

RECURSIVE Show(_), ShowAll(_, _)
ShowAll(a, k) == ToString(k) \o ") " \o Show(a[k]) \o (IF k = Len(a) THEN "" ELSE "\n" \o ShowAll(a, k + 1))
Show(v) ==
  CASE v.t \in {"str", "bulk"} -> Quote \o v.v \o Quote
    [] v.t = "int" -> "(integer) " \o v.v
    [] v.t = "err" -> "Server error: " \o v.v
    [] v.t = "nil" -> "(nil)"
    [] v.t = "nilarr" -> "(empty list or set)"
    [] v.t = "arr" -> IF v.a = <<>> THEN "(empty list or set)" ELSE ShowAll(v.a, 1)

(******************************* a session *********************************)
\* A carriage return before the end of a line belongs to the line's end
Chomp(x) == IF x # "" /\ Ch(x, Len(x)) = "\r" THEN SubSeq(x, 1, Len(x) - 1) ELSE x

\* The client takes lines as long as it is at its prompt
Take(x) ==
  IF x.at # "prompt" THEN x
  ELSE IF x.todo = <<>> THEN IF x.eof THEN [x EXCEPT !.at = "done"] ELSE x
  ELSE LET line == Chomp(Head(x.todo))
       IN IF line \in {"quit", "QUIT"} THEN [x EXCEPT !.at = "done"]
          ELSE [x EXCEPT !.at = "wait", !.todo = Tail(@), !.wire = Enc(Bulks(Words(line).ws))]

Start == [at |-> "prompt", todo |-> <<>>, eof |-> FALSE, owed |-> Prompt, wire |-> "", code |-> 0]

Type(lines, eof) ==
  /\ ~s.eof
  /\ \A k \in DOMAIN lines : Words(Chomp(lines[k])).proper
  /\ s' = Take([s EXCEPT !.todo = @ \o lines, !.eof = eof])

StartsWith(x, y) == Len(y) <= Len(x) /\ SubSeq(x, 1, Len(y)) = y

Arrived(b) == b # "" /\ StartsWith(s.wire, b) /\ s' = [s EXCEPT !.wire = SubSeq(@, Len(b) + 1, Len(@))]

Reply(v) == /\ s.at = "wait"
            /\ s.wire = ""
            /\ s' = Take([s EXCEPT !.at = "prompt", !.owed = @ \o Show(v) \o "\n" \o Prompt])

\* The connection breaks, or what comes is no value
Break == /\ s.at = "wait"
         /\ s.wire = ""
         /\ s' = [s EXCEPT !.at = "lost", !.code = 1]

Printed(x) ==
  IF s.at = "lost" /\ Len(x) > Len(s.owed) THEN StartsWith(x, s.owed) /\ s' = [s EXCEPT !.owed = ""]
  ELSE StartsWith(s.owed, x) /\ s' = [s EXCEPT !.owed = SubSeq(@, Len(x) + 1, Len(@))]

Exit(code) == s.at \in {"done", "lost"} /\ s.owed = "" /\ s.wire = "" /\ code = s.code /\ s' = [s EXCEPT !.at = "gone"]
=============================================================================
