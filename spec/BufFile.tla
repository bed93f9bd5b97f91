------------------------------ MODULE BufFile -------------------------------
(***************************************************************************)
(* The buffered file that the log is written through.  Calls take effect   *)
(* one at a time between their start and their return.  A piece that is    *)
(* written is [p, n]: n bytes, all equal p.  What is written goes to the   *)
(* file in order, at the latest with a flush: `low` bytes are there.       *)
(* A piece given to Write is never split ("whole"); others may be.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLE s

\* Results are numbers, 0 for success; this is none
None == -99

\* old: the bytes the file had before; size: the size of the buffer
\* bounds: from where to where it may be when nobody writes
NewFile(old, size) ==
  [old |-> old, pieces |-> <<>>, total |-> 0, low |-> 0, bounds |-> {<<0, 0>>}, size |-> size, calls |-> <<>>]

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Call(id, op, p, n) == s' = [s EXCEPT !.calls = With(@, id, [op |-> op, p |-> p, n |-> n, r |-> None])]
Open == {id \in DOMAIN s.calls : s.calls[id].r = None}
Writing == {id \in DOMAIN s.calls : s.calls[id].op \in {"write", "text", "byte", "flush", "flushsize"}}

\* May so much be in the file when nobody writes?
Quiet(n) == n >= s.low /\ \E b \in s.bounds : b[1] <= n /\ n <= b[2]
\* A piece that may be split
Split(k) == s.pieces[k].op # "write"

Put(c) == [s EXCEPT !.pieces = Append(@, [p |-> c.p, n |-> c.n, op |-> c.op]),
                    !.total = @ + c.n,
                    !.bounds = IF c.op = "write" THEN @ \cup {<<s.total + c.n, s.total + c.n>>}
                                ELSE @ \cup {<<s.total, s.total + c.n>>}]
Flushed(x) == [x EXCEPT !.low = x.total, !.bounds = {<<x.total, x.total>>}]

\* Runs of bytes that are the first of the pieces
RECURSIVE Starts(_, _)
Starts(runs, pieces) ==
  IF runs = <<>> THEN TRUE
  ELSE IF pieces = <<>> THEN FALSE
  ELSE LET r == Head(runs)
           q == Head(pieces)
       IN IF q.n = 0 THEN Starts(runs, Tail(pieces))
          ELSE IF r.p # q.p THEN FALSE
          ELSE IF Len(runs) = 1 THEN r.n <= q.n
          ELSE r.n = q.n /\ Starts(Tail(runs), Tail(pieces))

RECURSIVE Total(_)
Total(runs) == IF runs = <<>> THEN 0 ELSE Head(runs).n + Total(Tail(runs))

Result(x, id, r) == s' = [x EXCEPT !.calls[id].r = r]
\* g: what the call is seen to return
Effect(id, g) ==
  LET c == s.calls[id] IN
  CASE c.op \in {"write", "text"} -> g = c.n /\ Result(Put(c), id, g)
    [] c.op = "byte" -> g = 0 /\ Result(Put(c), id, g)
    [] c.op = "flush" -> g = 0 /\ Result(Flushed(s), id, g)
    [] c.op = "flushsize" -> g = s.old + s.total /\ Result(Flushed(s), id, g)
    [] c.op = "size" -> g = s.size /\ Result(s, id, g)
    [] c.op = "buffered" -> g >= 0 /\ Quiet(s.total - g) /\ Result([s EXCEPT !.low = s.total - g], id, g)
    [] c.op = "available" -> LET d == s.total - (s.size - g) IN
                             d <= s.total /\ Quiet(d) /\ Result([s EXCEPT !.low = d], id, g)

\* The file is read: runs is what is behind the old content
Read(runs) ==
  /\ Starts(runs, s.pieces)
  /\ LET n == Total(runs) IN
     /\ n >= s.low /\ n <= s.total
     /\ Writing = {} => Quiet(n)
     /\ s' = [s EXCEPT !.low = n]

Return(id, r) == s.calls[id].r = r /\ s' = [s EXCEPT !.calls = Without(@, id)]
Settled == s.calls = <<>>
=============================================================================
