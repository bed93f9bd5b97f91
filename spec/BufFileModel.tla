---------------------------- MODULE BufFileModel ----------------------------
(***************************************************************************)
(* Every use of a buffered file of up to MaxSteps calls, see DataMapModel, *)
(* by a real buffer of Size bytes: what it does must be what BufFile says. *)
(* disk and buf are the bytes in the file and in the buffer, as pieces     *)
(* that may be cut.                                                        *)
(***************************************************************************)
EXTENDS BufFile

CONSTANTS MaxSteps, Emit, Calm

VARIABLES script, disk, buf, ok
vars == <<s, script, disk, buf, ok>>

Size == 4
Uses == {<<"write", 1>>, <<"write", 3>>, <<"write", 6>>, <<"text", 3>>, <<"text", 6>>, <<"byte", 1>>,
         <<"flush", 0>>, <<"flushsize", 0>>, <<"buffered", 0>>, <<"available", 0>>, <<"read", 0>>}
Name(u) == u[1] \o ":" \o ToString(u[2])

RECURSIVE Drop(_, _), Take(_, _)
\* the first n bytes of the pieces, and the others
Take(ps, n) == IF ps = <<>> \/ n = 0 THEN <<>>
               ELSE IF Head(ps).n <= n THEN <<Head(ps)>> \o Take(Tail(ps), n - Head(ps).n)
               ELSE <<[p |-> Head(ps).p, n |-> n]>>
Drop(ps, n) == IF ps = <<>> \/ n = 0 THEN ps
               ELSE IF Head(ps).n <= n THEN Drop(Tail(ps), n - Head(ps).n)
               ELSE <<[p |-> Head(ps).p, n |-> Head(ps).n - n]>> \o Tail(ps)
\* pieces of the same bytes in a row are one
RECURSIVE Join(_, _)
Join(a, b) == IF a = <<>> THEN b
              ELSE IF b = <<>> THEN a
              ELSE IF Len(a) > 1 THEN <<Head(a)>> \o Join(Tail(a), b)
              ELSE IF a[1].p = b[1].p THEN <<[p |-> a[1].p, n |-> a[1].n + b[1].n]>> \o Tail(b)
              ELSE a \o b

Init == s = NewFile(0, Size) /\ script = <<>> /\ disk = <<>> /\ buf = <<>> /\ ok = TRUE
Step(name) == Len(script) < MaxSteps /\ script' = Append(script, name)
Begin == \E u \in Uses :
           /\ Step(Name(u))
           /\ IF u[1] = "read"
              THEN /\ ok' = (ok /\ ENABLED Read(disk))
                   /\ IF ENABLED Read(disk) THEN Read(disk) ELSE UNCHANGED s
              ELSE Call(Len(script), u[1], Len(script), u[2]) /\ UNCHANGED ok
           /\ UNCHANGED <<disk, buf>>

\* What the real buffer does and returns
Works(id) ==
  LET c == s.calls[id]
      new == <<[p |-> c.p, n |-> c.n]>>
      have == Total(buf)
      all == Join(buf, new)
  IN CASE c.op = "write" ->
            LET b == IF c.n > Size - have THEN <<>> ELSE buf
                d == IF c.n > Size - have THEN Join(disk, buf) ELSE disk
            IN IF c.n > Size THEN <<c.n, Join(d, new), <<>>>>
               ELSE <<c.n, d, Join(b, new)>>
       [] c.op = "text" ->
            \* the buffer is filled, written, filled ...
            LET k == IF have + c.n <= Size THEN 0 ELSE Size * ((have + c.n - 1) \div Size)
            IN <<c.n, Join(disk, Take(all, k)), Drop(all, k)>>
       [] c.op = "byte" -> IF have = Size THEN <<0, Join(disk, buf), new>> ELSE <<0, disk, all>>
       [] c.op = "flush" -> <<0, Join(disk, buf), <<>>>>
       [] c.op = "flushsize" -> <<Total(disk) + have, Join(disk, buf), <<>>>>
       [] c.op = "buffered" -> <<have, disk, buf>>
       [] c.op = "available" -> <<Size - have, disk, buf>>

Internal == \E id \in Open :
              LET w == Works(id) IN
              /\ disk' = w[2] /\ buf' = w[3]
              /\ UNCHANGED script
              /\ IF ENABLED Effect(id, w[1]) THEN Effect(id, w[1]) /\ UNCHANGED ok
                 ELSE ok' = FALSE /\ UNCHANGED s
Returns == \E id \in DOMAIN s.calls \ Open : Return(id, s.calls[id].r) /\ UNCHANGED <<script, disk, buf, ok>>
Next == IF Calm /\ ENABLED (Internal \/ Returns) THEN Internal \/ Returns ELSE Begin \/ Internal \/ Returns
Spec == Init /\ [][Next]_vars /\ WF_vars(Internal) /\ WF_vars(Returns)

\* The real buffer is allowed
Allows == ok
\* Nothing is lost, doubled or reordered
Conserved == Total(disk) + Total(buf) = s.total /\ Starts(Join(disk, buf), s.pieces) /\ Total(disk) >= s.low
\* Whoever only uses Write never finds a part of a piece
Whole == (\A k \in DOMAIN s.pieces : ~Split(k)) => Quiet(Total(disk))
Rest == []<>Settled
View == <<s, disk, buf, ok, Len(script)>>
EmitScript == Emit => (script' # script => PrintT("SCRIPT " \o ToString(script')))
=============================================================================
