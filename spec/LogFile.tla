------------------------------ MODULE LogFile -------------------------------
(***************************************************************************)
(* The log file.  It is a sequence of bytes (numbers); a record is its     *)
(* length in four bytes, the lowest first, and a body.  Parse says which   *)
(* bodies a file holds, how it ends                                        *)
(*   "ok"   after a record                                                 *)
(*   "cut"  within one                                                     *)
(* and where its last complete record ends.  What a body means, or whether *)
(* it means anything, depends on the body only.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Huge == 1073741824
LenAt(s, i) == IF s[i + 3] >= 64 THEN Huge
               ELSE s[i] + 256 * s[i + 1] + 65536 * s[i + 2] + 16777216 * s[i + 3]
Length(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Record(body) == Length(Len(body)) \o body

RECURSIVE Parse(_, _, _)
Parse(s, i, acc) ==
  IF i > Len(s) THEN [bodies |-> acc, end |-> "ok", off |-> i - 1]
  ELSE IF i + 3 > Len(s) \/ LenAt(s, i) > Len(s) - i - 3 THEN [bodies |-> acc, end |-> "cut", off |-> i - 1]
  ELSE Parse(s, i + 4 + LenAt(s, i), Append(acc, SubSeq(s, i + 4, i + 3 + LenAt(s, i))))
File(s) == Parse(s, 1, <<>>)

RECURSIVE Records(_)
Records(bodies) == IF bodies = <<>> THEN <<>> ELSE Record(Head(bodies)) \o Records(Tail(bodies))

\* meaning: the entry of a body, "" if there is none
RECURSIVE Entries(_, _)
Entries(bodies, meaning) ==
  IF bodies = <<>> THEN <<>>
  ELSE LET m == meaning[Head(bodies)] IN (IF m = "" THEN <<>> ELSE <<m>>) \o Entries(Tail(bodies), meaning)

\* What is done to a file with a cut record before more is written
Repaired(s) == SubSeq(s, 1, File(s).off)
=============================================================================
