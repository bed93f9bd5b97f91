------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings, one character (U+0000..U+00FF) per byte, and decimal      *)
(* arithmetic on them: TLC's integers have 32 bits only.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(f) == {f[i] : i \in DOMAIN f}

(*************************** byte strings and numbers **********************)
Ch(s, i) == SubSeq(s, i, i)

DigitVal == "0" :> 0 @@ "1" :> 1 @@ "2" :> 2 @@ "3" :> 3 @@ "4" :> 4 @@
            "5" :> 5 @@ "6" :> 6 @@ "7" :> 7 @@ "8" :> 8 @@ "9" :> 9
DigitChar == [d \in 0..9 |-> ToString(d)]
IsDigit(c) == c \in DOMAIN DigitVal

Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lowers == "abcdefghijklmnopqrstuvwxyz"
LowerOf == [c \in {Ch(Uppers, i) : i \in 1..26} |->
              LET i == CHOOSE j \in 1..26 : Ch(Uppers, j) = c IN Ch(Lowers, i)]

RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE LET c == Ch(s, i)
       IN (IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE c) \o LowerFrom(s, i + 1)
\* No command has a name of more than 11 characters
Lower(s) == IF Len(s) > 11 THEN s ELSE LowerFrom(s, 1)

\* Magnitudes are digit strings without leading zeros ("0" for zero)
Strip(d) == LET k == CHOOSE k \in 1..Len(d) : /\ k = Len(d) \/ Ch(d, k) # "0"
                                              /\ \A j \in 1..(k - 1) : Ch(d, j) = "0"
            IN SubSeq(d, k, Len(d))

MagLT(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE \E i \in 1..Len(a) : /\ DigitVal[Ch(a, i)] < DigitVal[Ch(b, i)]
                            /\ \A j \in 1..(i - 1) : Ch(a, j) = Ch(b, j)
MagLE(a, b) == a = b \/ MagLT(a, b)

DAt(a, i) == IF i > Len(a) THEN 0 ELSE DigitVal[Ch(a, Len(a) + 1 - i)]   \* i-th from the right
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
  IF i > Max2(Len(a), Len(b)) THEN IF c = 0 THEN "" ELSE "1"
  ELSE LET x == DAt(a, i) + DAt(b, i) + c
       IN AddFrom(a, b, i + 1, x \div 10) \o DigitChar[x % 10]
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) ==
  IF i > Len(a) THEN ""
  ELSE LET x == DAt(a, i) - DAt(b, i) - c
       IN SubFrom(a, b, i + 1, IF x < 0 THEN 1 ELSE 0) \o DigitChar[(x + 10) % 10]

MaxPos == "9223372036854775807"
MaxNeg == "9223372036854775808"
InRange(n) == MagLE(n.mag, IF n.neg THEN MaxNeg ELSE MaxPos)

Num(neg, mag) == [ok |-> TRUE, neg |-> neg /\ mag # "0", mag |-> mag]
NotNum == [ok |-> FALSE, neg |-> FALSE, mag |-> "0"]

\* A base 10 signed 64 bit integer, with an optional sign
ParseNum(s) ==
  IF s = "" THEN NotNum
  ELSE LET signed == Ch(s, 1) \in {"+", "-"}
           d == IF signed THEN SubSeq(s, 2, Len(s)) ELSE s
       IN IF d = "" \/ \E i \in 1..Len(d) : ~IsDigit(Ch(d, i)) THEN NotNum
          ELSE LET n == Num(Ch(s, 1) = "-", Strip(d))
               IN IF InRange(n) THEN n ELSE NotNum

NumStr(n) == IF n.neg THEN "-" \o n.mag ELSE n.mag
Neg(n) == Num(~n.neg, n.mag)
Add(x, y) ==
  IF x.neg = y.neg THEN Num(x.neg, AddFrom(x.mag, y.mag, 1, 0))
  ELSE IF MagLE(y.mag, x.mag) THEN Num(x.neg, Strip(SubFrom(x.mag, y.mag, 1, 0)))
  ELSE Num(y.neg, Strip(SubFrom(y.mag, x.mag, 1, 0)))

\* Indices and counts: no object is longer than Big, so a larger number behaves like Big
Big == 1000000000
RECURSIVE MagToInt(_, _)
MagToInt(m, i) == IF i = 0 THEN 0 ELSE MagToInt(m, i - 1) * 10 + DigitVal[Ch(m, i)]
ToInt(n) == LET m == IF Len(n.mag) > 9 THEN Big ELSE MagToInt(n.mag, Len(n.mag))
            IN IF n.neg THEN -m ELSE m
IntOf(s) == ToInt(ParseNum(s))
IsInt(s) == ParseNum(s).ok
============================================================================
