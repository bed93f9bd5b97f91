---------------------------- MODULE LogFileModel ----------------------------
(***************************************************************************)
(* All files of up to MaxLen bytes over a few bytes, and what becomes of   *)
(* them when they are cut, repaired and written to.                        *)
(***************************************************************************)
EXTENDS LogFile, TLC

CONSTANTS MaxLen, Emit

VARIABLE s

Bytes == {0, 1, 2, 255}
Init == s = <<>>
\* a body is not looked into
Letters == LET p == File(s) IN
           IF p.end = "cut" /\ Len(s) - p.off >= 4 THEN {1, 255} ELSE Bytes
Next == Len(s) < MaxLen /\ \E b \in Letters : s' = Append(s, b)
Spec == Init /\ [][Next]_s

IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))

\* The records up to the offset are all of them, and what follows is less than a record
Sound ==
  LET p == File(s) IN
  /\ Records(p.bodies) = SubSeq(s, 1, p.off)
  /\ (p.end = "ok") = (p.off = Len(s))
  /\ \A k \in p.off..Len(s) : File(SubSeq(s, 1, k)).bodies = p.bodies
\* Every cut has a prefix of the records
Cuts == \A k \in 0..Len(s) :
          LET p == File(SubSeq(s, 1, k)) IN
          /\ IsPrefix(p.bodies, File(s).bodies)
          /\ p.off <= k
\* After the repair nothing is lost, neither before nor behind
Repairs ==
  LET r == Repaired(s) IN
  /\ File(r) = [File(s) EXCEPT !.end = "ok"]
  /\ \A b \in {<<>>, <<1>>, <<255, 0>>} : File(r \o Record(b)) = [bodies |-> Append(File(s).bodies, b), end |-> "ok", off |-> Len(r) + 4 + Len(b)]
\* Without it something may be
Grows == \A k \in 0..Len(s) : IsPrefix(File(SubSeq(s, 1, k)).bodies, File(s).bodies)

EmitFile == IF Emit /\ Len(s) >= 4 THEN PrintT("FILE " \o ToString(s)) ELSE TRUE
=============================================================================
