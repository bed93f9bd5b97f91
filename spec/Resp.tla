------------------------------- MODULE Resp -------------------------------
(***************************************************************************)
(* The wire format.  A value is [t, v, a]:                                 *)
(*   "str" "err" "bulk"  with the bytes v                                  *)
(*   "int"               with the canonical decimal text v                 *)
(*   "nil" "nilarr"      the two nulls                                     *)
(*   "arr"               with the values a                                 *)
(* Enc is what a writer writes.  Dec reads the value that starts at byte i *)
(* of s, at nesting depth d; its result is [st, v, n, lax]:                *)
(*   "ok"    the value v, the next byte is n                               *)
(*   "more"  s is too short                                                *)
(*   "bad"   no continuation makes it a value                              *)
(* lax: RESP leaves open whether a reader takes this (numbers that are not *)
(* canonical, a lone CR or LF in a line); a reader may also reject it.     *)
(***************************************************************************)
EXTENDS Bytes

MaxDepth == 128

Val(t, v, a) == [t |-> t, v |-> v, a |-> a]
CRLF == "\r\n"

RECURSIVE Enc(_), EncAll(_, _)
EncAll(a, i) == IF i > Len(a) THEN "" ELSE Enc(a[i]) \o EncAll(a, i + 1)
Enc(v) ==
  CASE v.t = "str"    -> "+" \o v.v \o CRLF
    [] v.t = "err"    -> "-" \o v.v \o CRLF
    [] v.t = "int"    -> ":" \o v.v \o CRLF
    [] v.t = "bulk"   -> "$" \o ToString(Len(v.v)) \o CRLF \o v.v \o CRLF
    [] v.t = "nil"    -> "$-1" \o CRLF
    [] v.t = "nilarr" -> "*-1" \o CRLF
    [] v.t = "arr"    -> "*" \o ToString(Len(v.a)) \o CRLF \o EncAll(v.a, 1)

Res(st, v, n, lax) == [st |-> st, v |-> v, n |-> n, lax |-> lax]
NoVal == Val("none", "", <<>>)
\* ph: what is being read when s ends
More(i, lax, ph) == Res("more", Val(ph, "", <<>>), i, lax)
Bad(i, lax) == Res("bad", NoVal, i, lax)

\* The first byte of the first CR LF from byte i on, 0 if there is none; looks at w bytes at a time
RECURSIVE EndFrom(_, _, _)
EndFrom(s, i, w) ==
  LET last == IF i + w < Len(s) THEN i + w ELSE Len(s) - 1
      ends == {k \in i..last : SubSeq(s, k, k + 1) = CRLF}
  IN IF ends # {} THEN CHOOSE k \in ends : \A j \in ends : k <= j
     ELSE IF last + 1 >= Len(s) THEN 0
     ELSE EndFrom(s, last + 1, 2 * w)
LineEnd(s, i) == EndFrom(s, i, 8)

HasLone(s, i, j) == \E k \in i..j : Ch(s, k) \in {"\r", "\n"}

RECURSIVE Dec(_, _, _), DecAll(_, _, _, _, _, _)

Dec(s, i, d) ==
  IF i > Len(s) THEN More(i, FALSE, "start")
  ELSE
  LET t == Ch(s, i)
      e == LineEnd(s, i + 1)
      known == t \in {"+", "-", ":", "$", "*"}
  IN IF ~known THEN Bad(i, FALSE)
     ELSE IF e = 0 THEN More(i, HasLone(s, i + 1, Len(s)), IF t \in {"+", "-"} THEN "line" ELSE "number")
     ELSE
     LET text == SubSeq(s, i + 1, e - 1)
         num == ParseNum(text)
         canon == NumStr(num) = text
         n == ToInt(num)
     IN IF t \in {"+", "-"}
        THEN Res("ok", Val(IF t = "+" THEN "str" ELSE "err", text, <<>>), e + 2, HasLone(s, i + 1, e - 1))
        ELSE IF ~num.ok THEN Bad(i, FALSE)
        ELSE IF t = ":" THEN Res("ok", Val("int", NumStr(num), <<>>), e + 2, ~canon)
        ELSE IF n = -1 THEN Res("ok", Val(IF t = "$" THEN "nil" ELSE "nilarr", "", <<>>), e + 2, ~canon)
        ELSE IF n < 0 THEN Bad(i, FALSE)
        ELSE IF t = "$"
        THEN IF Len(s) < e + 2 + n THEN More(i, ~canon, "body")
             ELSE IF Ch(s, e + 2 + n) # "\r" THEN Bad(i, FALSE)
             ELSE IF Len(s) < e + 3 + n THEN More(i, ~canon, "body")
             ELSE IF Ch(s, e + 3 + n) # "\n" THEN Bad(i, FALSE)
             ELSE Res("ok", Val("bulk", SubSeq(s, e + 2, e + 1 + n), <<>>), e + 4 + n, ~canon)
        ELSE IF d >= MaxDepth THEN Bad(i, FALSE)
        ELSE DecAll(s, e + 2, d + 1, n, <<>>, ~canon)

DecAll(s, i, d, n, acc, lax) ==
  IF n = 0 THEN Res("ok", Val("arr", "", acc), i, lax)
  ELSE LET r == Dec(s, i, d)
       IN IF r.st # "ok" THEN [r EXCEPT !.lax = @ \/ lax]
          ELSE DecAll(s, r.n, d, n - 1, Append(acc, r.v), lax \/ r.lax)

\* The values that a stream holds before its end or its first defect
RECURSIVE DecStream(_, _)
DecStream(s, i) ==
  LET r == Dec(s, i, 0)
  IN IF r.st = "ok" THEN <<r>> \o DecStream(s, r.n) ELSE <<r>>

\* A value as the request that Keyspace knows
IsString(v) == v.t \in {"str", "bulk", "nil"}
Request(v) ==
  IF v.t # "arr" THEN [q |-> <<>>, ns |-> {}]
  ELSE [q |-> [k \in DOMAIN v.a |-> IF IsString(v.a[k]) THEN v.a[k].v ELSE ""],
        ns |-> {k \in DOMAIN v.a : ~IsString(v.a[k])}]
===========================================================================
