----------------------------- MODULE RespModel -----------------------------
(***************************************************************************)
(* Every byte string over a small alphabet that is no complete value yet,  *)
(* extended by every byte (mode "bytes"), and every value of a small       *)
(* universe (mode "values").  The complete and the defective strings are   *)
(* printed, so the real reader reads each of them too.                     *)
(***************************************************************************)
EXTENDS Resp

CONSTANTS Mode, MaxLen, Emit

VARIABLES s, v

Alphabet == {"+", "-", ":", "$", "*", "0", "1", "2", "\r", "\n", "a"}
\* What makes a difference where x ends
Letters(x) ==
  CASE Dec(x, 1, 0).v.t \in {"line", "body"} -> {"a", "\r", "\n"}
    [] Dec(x, 1, 0).v.t = "number" -> IF \E k \in Max2(1, Len(x) - 1)..Len(x) : Ch(x, k) \in {"a", "\r", "\n", "+"}
                                      THEN {"\r", "\n", "1"} ELSE {"-", "+", "0", "1", "2", "\r", "\n", "a"}
    [] OTHER -> Alphabet

RECURSIVE HasLoneIn(_)
HasLoneIn(x) == \/ x.t \in {"str", "err"} /\ HasLone(x.v, 1, Len(x.v))
                \/ \E k \in DOMAIN x.a : HasLoneIn(x.a[k])

\* Strings are printed with r and n for CR and LF
RECURSIVE Hex(_, _)
Hex(x, i) == IF i > Len(x) THEN ""
             ELSE (IF Ch(x, i) = "\r" THEN "r" ELSE IF Ch(x, i) = "\n" THEN "n" ELSE Ch(x, i)) \o Hex(x, i + 1)

Strings == {"", "a", "\r", "\n", "$-1", "a\r\nb"}
Lines == {"", "a", "a b", "-1"}
Numbers == {"0", "-1", "10", "9223372036854775807", "-9223372036854775808"}
Leaves == {Val("str", x, <<>>) : x \in Lines} \cup {Val("err", x, <<>>) : x \in Lines}
     \cup {Val("int", x, <<>>) : x \in Numbers} \cup {Val("bulk", x, <<>>) : x \in Strings}
     \cup {Val("nil", "", <<>>), Val("nilarr", "", <<>>), Val("arr", "", <<>>)}
Few == {Val("str", "a", <<>>), Val("bulk", "", <<>>), Val("bulk", "\r\n", <<>>), Val("nil", "", <<>>), Val("arr", "", <<>>)}
One(S) == {Val("arr", "", <<x>>) : x \in S}
Two(S) == {Val("arr", "", <<x, y>>) : x \in S, y \in S}
Values == Leaves \cup One(Leaves) \cup Two(Leaves) \cup One(One(Few)) \cup Two(Two(Few) \cup One(Few) \cup Few)

RECURSIVE Nested(_)
Nested(n) == IF n = 0 THEN Val("int", "1", <<>>) ELSE Val("arr", "", <<Nested(n - 1)>>)

Init == IF Mode = "values" THEN v \in Values \cup {Nested(MaxDepth), Nested(MaxDepth - 1)} /\ s = Enc(v)
        ELSE v = NoVal /\ s = ""

Next == /\ Mode = "bytes"
        /\ Len(s) < MaxLen
        /\ Dec(s, 1, 0).st = "more"
        /\ \E c \in Letters(s) : s' = s \o c
        /\ UNCHANGED v
Spec == Init /\ [][Next]_<<s, v>>

\* Decoding is stable under more bytes, and a value that is read strictly has one encoding
Sound ==
  LET r == Dec(s, 1, 0)
  IN /\ r.st = "ok" => /\ r.n = Len(s) + 1
                       /\ ~r.lax => Enc(r.v) = s
                       /\ Dec(Enc(r.v), 1, 0) = Res("ok", r.v, Len(Enc(r.v)) + 1, HasLoneIn(r.v))
     /\ r.st \in {"ok", "bad"} => \A c \in {"+", "1", "\r", "\n"} : LET x == Dec(s \o c, 1, 0) IN x.st = r.st /\ x.v = r.v /\ (r.st = "ok" => x.n = r.n)

RoundTrip ==
  Mode = "values" =>
    /\ Dec(s, 1, 0) = Res("ok", v, Len(s) + 1, FALSE)
    /\ \A k \in 1..Min2(40, Len(s) - 1) : Dec(SubSeq(s, 1, k), 1, 0).st = "more"
    /\ DecStream(s \o s, 1) = <<Res("ok", v, Len(s) + 1, FALSE), Res("ok", v, 2 * Len(s) + 1, FALSE), More(2 * Len(s) + 1, FALSE, "start")>>
    /\ Dec("*1\r\n" \o s, 1, 0).st = IF v = Nested(MaxDepth) THEN "bad" ELSE "ok"

EmitString == IF Emit /\ Mode = "bytes" /\ (Dec(s, 1, 0).st # "more" \/ Len(s) = MaxLen)
              THEN PrintT("STR " \o Hex(s, 1)) ELSE TRUE
============================================================================
