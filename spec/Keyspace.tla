---------------------------- MODULE Keyspace ----------------------------
(***************************************************************************)
(* The sequential meaning of every command of the server: the state of one *)
(* database and, for a request, the reply and the next state.              *)
(*                                                                         *)
(* A byte string is a TLA+ string with one character (U+0000..U+00FF) per  *)
(* byte.  A key space is a record of four independent collections of named *)
(* objects:                                                                *)
(*    s : key -> byte string          (SET, GET, INCR, ...)                *)
(*    l : key -> sequence of strings  (LPUSH, LRANGE, ...)                 *)
(*    h : key -> (field -> value)     (HSET, HGET, ...)                    *)
(*    z : key -> set of strings       (SADD, SMEMBERS, ...)                *)
(*                                                                         *)
(* A request is a sequence of strings (name first) and the set of the      *)
(* positions whose value was sent as something else than a string.         *)
(*                                                                         *)
(* A reply is [t, v, a]: t is the kind, v the text of a scalar, a the      *)
(* elements of an array, each written "$" \o bytes, ":" \o digits, "~" for *)
(* null, "?" for anything else.                                            *)
(***************************************************************************)
EXTENDS Bytes

EmptyKS == [s |-> <<>>, l |-> <<>>, h |-> <<>>, z |-> <<>>]

\* Indices count from 0, negative ones from the end
Norm(i, size) == IF i < 0 THEN i + size ELSE i
\* The inclusive range l..r of 0..size-1, as [ok, lo, hi] counted from 1
Slice(l, r, size) ==
  LET a == Norm(l, size)
      b == Norm(r, size)
  IN IF a < 0 \/ b < 0 \/ a >= size \/ a > b THEN [ok |-> FALSE, lo |-> 1, hi |-> 0]
     ELSE [ok |-> TRUE, lo |-> a + 1, hi |-> Min2(b, size - 1) + 1]

(********************************* replies *********************************)
Reply(t, v, a) == [t |-> t, v |-> v, a |-> a]
OK == Reply("str", "OK", <<>>)
RInt(n) == Reply("int", ToString(n), <<>>)
IntS(s) == Reply("int", s, <<>>)
Bulk(s) == Reply("bulk", s, <<>>)
Nil == Reply("nil", "", <<>>)
NilArr == Reply("nilarr", "", <<>>)
Arr(a) == Reply("arr", "", a)
Err(s) == Reply("err", s, <<>>)

NoCommand == "ERR no such command"
BadArg == "ERR invalid argument"
NotInt == "ERR value is not an integer or out of range"
NoKey == "ERR no such key"
BadIndex == "ERR index out of range"
Documented == {NoCommand, BadArg, NotInt, NoKey, BadIndex}

El(s) == "$" \o s
Els(seq) == [i \in DOMAIN seq |-> El(seq[i])]

(********************************* effects *********************************)
(* What a request may do, as a description that Matches and Next interpret:*)
(*   "x"     exactly the reply rep and the next key space ks               *)
(*   "any"   any error that is not one of the documented ones              *)
(*   "bag"   an array with the elements of rep.a in any order              *)
(*   "pairs" an array field, value, field, value, ... in any order of pairs*)
(*   "pick"  n distinct members of src; "pick1": one member, as a string   *)
(*   "pop", "pop1": the same, and the members leave the set `key`          *)
(***************************************************************************)
Eff(m, rep, ks, n, src, key) == [m |-> m, rep |-> rep, ks |-> ks, n |-> n, src |-> src, key |-> key]
X(rep, ks) == Eff("x", rep, ks, 0, {}, "")
AnyErr(ks) == Eff("any", Nil, ks, 0, {}, "")
Bag(rep, ks) == Eff("bag", rep, ks, 0, {}, "")

Put(f, k, v) == (k :> v) @@ f
SetS(ks, k, v) == [ks EXCEPT !.s = Put(@, k, v)]
SetL(ks, k, v) == [ks EXCEPT !.l = Put(@, k, v)]
SetH(ks, k, v) == [ks EXCEPT !.h = Put(@, k, v)]
SetZ(ks, k, v) == [ks EXCEPT !.z = Put(@, k, v)]

Has(f, k) == k \in DOMAIN f
Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
\* the elements of seq at odd / even positions
Odds(q) == [i \in 1..(Len(q) \div 2) |-> q[2 * i - 1]]
Evens(q) == [i \in 1..(Len(q) \div 2) |-> q[2 * i]]
From(q, i) == SubSeq(q, i, Len(q))

RECURSIVE SetAll(_, _, _)
SetAll(f, ks, vs) == IF ks = <<>> THEN f ELSE SetAll(Put(f, Head(ks), Head(vs)), Tail(ks), Tail(vs))

RECURSIVE SeqOf(_)      \* a sequence of all members
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

\* Remove at most n occurrences of v, from the head; n = -1: all
RECURSIVE RemFrom(_, _, _)
RemFrom(q, v, n) ==
  IF q = <<>> \/ n = 0 THEN q
  ELSE IF Head(q) = v THEN RemFrom(Tail(q), v, n - 1)
  ELSE <<Head(q)>> \o RemFrom(Tail(q), v, n)
CountOf(q, v) == Cardinality({i \in DOMAIN q : q[i] = v})
Remove(q, v, n) == IF n = 0 THEN RemFrom(q, v, -1)
                   ELSE IF n > 0 THEN RemFrom(q, v, n)
                   ELSE Reverse(RemFrom(Reverse(q), v, -n))

Counter(ks, k, n) ==          \* add the number n to the value of k
  IF ~Has(ks.s, k) THEN X(Err(NoKey), ks)
  ELSE LET cur == ParseNum(ks.s[k]) IN
       IF ~cur.ok THEN X(Err(NotInt), ks)
       ELSE LET new == Add(cur, n) IN
            IF ~InRange(new) THEN X(Err(NotInt), ks)
            ELSE X(IntS(NumStr(new)), SetS(ks, k, NumStr(new)))

One == Num(FALSE, "1")

Push(ks, k, vs, left) ==
  IF k = "" THEN AnyErr(ks)
  ELSE LET old == IF Has(ks.l, k) THEN ks.l[k] ELSE <<>>
           new == IF left THEN Reverse(vs) \o old ELSE old \o vs
       IN X(RInt(Len(new)), SetL(ks, k, new))

Pop(ks, k, left) ==
  IF ~Has(ks.l, k) \/ ks.l[k] = <<>> THEN X(Nil, ks)
  ELSE LET q == ks.l[k] IN
       IF left THEN X(Bulk(Head(q)), SetL(ks, k, Tail(q)))
       ELSE X(Bulk(q[Len(q)]), SetL(ks, k, SubSeq(q, 1, Len(q) - 1)))

Insert(ks, k, before, pivot, v) ==
  IF ~Has(ks.l, k) THEN X(RInt(0), ks)
  ELSE LET q == ks.l[k]
           at == {i \in DOMAIN q : q[i] = pivot}
       IN IF at = {} THEN X(RInt(-1), ks)
          ELSE LET i == CHOOSE i \in at : \A j \in at : i <= j
                   c == IF before THEN i - 1 ELSE i
                   new == SubSeq(q, 1, c) \o <<v>> \o SubSeq(q, c + 1, Len(q))
               IN X(RInt(Len(new)), SetL(ks, k, new))

SetOf(ks, k) == IF Has(ks.z, k) THEN ks.z[k] ELSE {}
SetReply(S, ks) == IF S = {} THEN X(NilArr, ks)
                   ELSE Bag(Arr(Els(SeqOf(S))), ks)
RECURSIVE InterAll(_, _), UnionAll(_, _)
InterAll(ks, q) == IF Len(q) = 1 THEN SetOf(ks, q[1]) ELSE SetOf(ks, q[1]) \cap InterAll(ks, Tail(q))
UnionAll(ks, q) == IF q = <<>> THEN {} ELSE SetOf(ks, q[1]) \cup UnionAll(ks, Tail(q))

\* SPOP and SRANDMEMBER: any distinct members, as many as asked for or as there are
Random(ks, k, hasCount, c, pop) ==
  LET S == SetOf(ks, k)
      n == Min2(IF c < 0 THEN -c ELSE c, Cardinality(S))
  IN IF ~hasCount
     THEN IF S = {} THEN X(Nil, ks) ELSE Eff(IF pop THEN "pop1" ELSE "pick1", Nil, ks, 1, S, k)
     ELSE IF n = 0 THEN X(NilArr, ks)
     ELSE Eff(IF pop THEN "pop" ELSE "pick", Nil, ks, n, S, k)

(************************** arity and argument types ***********************)
Names == {"set", "get", "mset", "mget", "exists", "strlen", "append", "incr", "incrby", "decr",
          "decrby", "getrange", "lpop", "rpop", "lindex", "linsert", "llen", "lpush", "rpush",
          "lrange", "ltrim", "lrem", "lset", "hset", "hget", "hexists", "hdel", "hmget", "hkeys",
          "hvals", "hgetall", "hstrlen", "hlen", "sadd", "srem", "sismember", "smembers",
          "srandmember", "spop", "sdiff", "sinter", "sunion", "scard"}

Modifying == {"set", "mset", "append", "incr", "incrby", "decr", "decrby", "lpop", "rpop",
              "linsert", "lpush", "rpush", "ltrim", "lrem", "lset", "hset", "hdel", "sadd",
              "srem", "spop"}

\* A: the arguments, ns: the positions in A that are no strings
ValidArgs(c, A, ns) ==
  LET n == Len(A) IN
  CASE c \in {"incr", "decr"} -> n >= 1 /\ 1 \notin ns
    [] c \in {"get", "strlen", "lpop", "rpop", "llen", "hkeys", "hvals", "hgetall", "hlen",
              "smembers", "scard"} -> n = 1 /\ ns = {}
    [] c \in {"set", "append", "hget", "hexists", "hstrlen", "sismember"} -> n = 2 /\ ns = {}
    [] c \in {"mget", "exists", "sdiff", "sinter", "sunion"} -> n >= 1 /\ ns = {}
    [] c = "mset" -> n % 2 = 0 /\ ns = {}
    [] c \in {"incrby", "decrby"} -> n \in 1..2 /\ ns = {}
    [] c \in {"lpush", "rpush", "hmget", "hdel", "sadd", "srem"} -> n >= 2 /\ ns = {}
    [] c = "hset" -> n >= 3 /\ n % 2 = 1 /\ ns = {}
    [] c \in {"getrange", "lrange", "ltrim"} -> n = 3 /\ ns = {} /\ IsInt(A[2]) /\ IsInt(A[3])
    [] c = "lindex" -> n = 2 /\ ns = {} /\ IsInt(A[2])
    [] c \in {"lset", "lrem"} -> n = 3 /\ ns = {} /\ IsInt(A[2])
    [] c = "linsert" -> n = 4 /\ ns = {} /\ Lower(A[2]) \in {"before", "after"}
    [] c \in {"spop", "srandmember"} -> n \in 1..2 /\ ns = {} /\ (n = 2 => IsInt(A[2]))

(********************************* commands ********************************)
StringCmd(ks, c, A) ==
  LET k == IF A = <<>> THEN "" ELSE A[1] IN
  CASE c = "set" -> X(OK, SetS(ks, k, A[2]))
    [] c = "get" -> X(IF Has(ks.s, k) THEN Bulk(ks.s[k]) ELSE Nil, ks)
    [] c = "mset" -> IF A = <<>> THEN AnyErr(ks)
                     ELSE X(OK, [ks EXCEPT !.s = SetAll(@, Odds(A), Evens(A))])
    [] c = "mget" -> X(Arr([i \in DOMAIN A |-> IF Has(ks.s, A[i]) THEN El(ks.s[A[i]]) ELSE "~"]), ks)
    [] c = "exists" -> X(RInt(Cardinality({i \in DOMAIN A : Has(ks.s, A[i])})), ks)
    [] c = "strlen" -> X(RInt(IF Has(ks.s, k) THEN Len(ks.s[k]) ELSE 0), ks)
    [] c = "append" -> LET new == (IF Has(ks.s, k) THEN ks.s[k] ELSE "") \o A[2]
                       IN X(RInt(Len(new)), SetS(ks, k, new))
    [] c = "getrange" ->
         LET v == IF Has(ks.s, k) THEN ks.s[k] ELSE ""
             r == Slice(IntOf(A[2]), IntOf(A[3]), Len(v))
         IN X(Bulk(IF r.ok THEN SubSeq(v, r.lo, r.hi) ELSE ""), ks)
    [] c = "incr" -> Counter(ks, k, One)
    [] c = "decr" -> Counter(ks, k, Neg(One))
    [] c \in {"incrby", "decrby"} ->
         LET by == IF Len(A) = 1 THEN One ELSE ParseNum(A[2]) IN
         IF ~by.ok THEN AnyErr(ks)
         ELSE Counter(ks, k, IF c = "incrby" THEN by ELSE Neg(by))

ListCmd(ks, c, A) ==
  LET k == A[1]
      has == Has(ks.l, k)
      q == IF has THEN ks.l[k] ELSE <<>>
  IN
  CASE c = "lpush" -> Push(ks, k, Tail(A), TRUE)
    [] c = "rpush" -> Push(ks, k, Tail(A), FALSE)
    [] c = "lpop" -> Pop(ks, k, TRUE)
    [] c = "rpop" -> Pop(ks, k, FALSE)
    [] c = "llen" -> X(RInt(Len(q)), ks)
    [] c = "lindex" -> LET i == Norm(IntOf(A[2]), Len(q)) IN
                       X(IF i >= 0 /\ i < Len(q) THEN Bulk(q[i + 1]) ELSE Nil, ks)
    [] c = "linsert" -> Insert(ks, k, Lower(A[2]) = "before", A[3], A[4])
    [] c = "lset" -> IF ~has THEN X(Err(NoKey), ks)
                     ELSE LET i == Norm(IntOf(A[2]), Len(q)) IN
                          IF i >= 0 /\ i < Len(q) THEN X(OK, SetL(ks, k, [q EXCEPT ![i + 1] = A[3]]))
                          ELSE X(Err(BadIndex), ks)
    [] c = "lrem" -> IF ~has THEN X(RInt(0), ks)
                     ELSE LET new == Remove(q, A[3], IntOf(A[2]))
                          IN X(RInt(Len(q) - Len(new)), SetL(ks, k, new))
    [] c = "lrange" -> LET r == Slice(IntOf(A[2]), IntOf(A[3]), Len(q)) IN
                       X(IF r.ok THEN Arr(Els(SubSeq(q, r.lo, r.hi))) ELSE NilArr, ks)
    [] c = "ltrim" -> LET r == Slice(IntOf(A[2]), IntOf(A[3]), Len(q)) IN
                      X(OK, IF has /\ r.ok THEN SetL(ks, k, SubSeq(q, r.lo, r.hi)) ELSE ks)

HashCmd(ks, c, A) ==
  LET k == A[1]
      has == Has(ks.h, k)
      f == IF has THEN ks.h[k] ELSE <<>>
      fields == SeqOf(DOMAIN f)
  IN
  CASE c = "hset" -> IF k = "" THEN AnyErr(ks)
                     ELSE LET new == SetAll(f, Odds(Tail(A)), Evens(Tail(A)))
                          IN X(RInt(Cardinality(DOMAIN new) - Cardinality(DOMAIN f)), SetH(ks, k, new))
    [] c = "hget" -> X(IF Has(f, A[2]) THEN Bulk(f[A[2]]) ELSE Nil, ks)
    [] c = "hexists" -> X(RInt(IF Has(f, A[2]) THEN 1 ELSE 0), ks)
    [] c = "hstrlen" -> X(RInt(IF Has(f, A[2]) THEN Len(f[A[2]]) ELSE 0), ks)
    [] c = "hmget" -> X(Arr([i \in 1..(Len(A) - 1) |-> IF Has(f, A[i + 1]) THEN El(f[A[i + 1]]) ELSE "~"]), ks)
    [] c = "hdel" -> LET gone == {A[i] : i \in 2..Len(A)} \cap DOMAIN f IN
                     X(RInt(Cardinality(gone)),
                       IF has THEN SetH(ks, k, [x \in DOMAIN f \ gone |-> f[x]]) ELSE ks)
    [] c = "hlen" -> X(RInt(Cardinality(DOMAIN f)), ks)
    [] c = "hkeys" -> IF ~has THEN X(NilArr, ks) ELSE Bag(Arr(Els(fields)), ks)
    [] c = "hvals" -> IF ~has THEN X(NilArr, ks)
                      ELSE Bag(Arr([i \in DOMAIN fields |-> El(f[fields[i]])]), ks)
    [] c = "hgetall" -> IF ~has THEN X(NilArr, ks)
                        ELSE Eff("pairs", Arr(<<>>), ks, 0, {}, k)

SetCmd(ks, c, A) ==
  LET k == A[1]
      has == Has(ks.z, k)
      S == SetOf(ks, k)
  IN
  CASE c = "sadd" -> IF k = "" THEN AnyErr(ks)
                     ELSE LET new == S \cup Range(Tail(A))
                          IN X(RInt(Cardinality(new) - Cardinality(S)), SetZ(ks, k, new))
    [] c = "srem" -> LET new == S \ Range(Tail(A))
                     IN X(RInt(Cardinality(S) - Cardinality(new)), IF has THEN SetZ(ks, k, new) ELSE ks)
    [] c = "sismember" -> X(RInt(IF A[2] \in S THEN 1 ELSE 0), ks)
    [] c = "smembers" -> IF ~has THEN X(NilArr, ks) ELSE Bag(Arr(Els(SeqOf(S))), ks)
    [] c = "scard" -> X(RInt(Cardinality(S)), ks)
    [] c = "sdiff" -> SetReply(S \ UnionAll(ks, Tail(A)), ks)
    [] c = "sinter" -> SetReply(InterAll(ks, A), ks)
    [] c = "sunion" -> SetReply(UnionAll(ks, A), ks)
    [] c = "srandmember" -> Random(ks, k, Len(A) = 2, IF Len(A) = 2 THEN IntOf(A[2]) ELSE 1, FALSE)
    [] c = "spop" -> Random(ks, k, Len(A) = 2, IF Len(A) = 2 THEN IntOf(A[2]) ELSE 1, TRUE)

StringNames == {"set", "get", "mset", "mget", "exists", "strlen", "append", "incr", "incrby",
                "decr", "decrby", "getrange"}
ListNames == {"lpop", "rpop", "lindex", "linsert", "llen", "lpush", "rpush", "lrange", "ltrim",
              "lrem", "lset"}
HashNames == {"hset", "hget", "hexists", "hdel", "hmget", "hkeys", "hvals", "hgetall", "hstrlen", "hlen"}

(***************************************************************************)
(* Effect(ks, req, ns): req is the whole request as strings, ns the        *)
(* positions that were no strings.  A request without a name (an empty or  *)
(* null array, or no array: req = <<>>) or whose name is no string gets    *)
(* some error.                                                             *)
(***************************************************************************)
Effect(ks, req, ns) ==
  IF req = <<>> \/ 1 \in ns THEN AnyErr(ks)
  ELSE LET c == Lower(req[1])
           A == Tail(req)
       IN IF c \notin Names THEN X(Err(NoCommand), ks)
          ELSE IF ~ValidArgs(c, A, {i - 1 : i \in ns}) THEN X(Err(BadArg), ks)
          ELSE IF c \in StringNames THEN StringCmd(ks, c, A)
          ELSE IF c \in ListNames THEN ListCmd(ks, c, A)
          ELSE IF c \in HashNames THEN HashCmd(ks, c, A)
          ELSE SetCmd(ks, c, A)

IsBag(x, y) == /\ Len(x) = Len(y)
               /\ \A i \in DOMAIN y : CountOf(x, y[i]) = CountOf(y, y[i])

IsPairs(a, f) ==
  /\ Len(a) = 2 * Cardinality(DOMAIN f)
  /\ {<<a[2 * i - 1], a[2 * i]>> : i \in 1..(Len(a) \div 2)} = {<<El(x), El(f[x])>> : x \in DOMAIN f}

Distinct(a) == Cardinality(Range(a)) = Len(a)
Members(S) == {El(x) : x \in S}

\* Is the reply r one that the effect e allows?
Matches(e, r) ==
  CASE e.m = "x" -> r = e.rep
    [] e.m = "any" -> r.t = "err" /\ r.v \notin Documented
    [] e.m = "bag" -> r.t = "arr" /\ IsBag(r.a, e.rep.a)
    [] e.m = "pairs" -> r.t = "arr" /\ IsPairs(r.a, e.ks.h[e.key])
    [] e.m \in {"pick1", "pop1"} -> r.t = "bulk" /\ r.v \in e.src
    [] e.m \in {"pick", "pop"} -> /\ r.t = "arr"
                                  /\ Len(r.a) = e.n
                                  /\ Distinct(r.a)
                                  /\ Range(r.a) \subseteq Members(e.src)

\* What left the set, given the reply
Popped(e, r) == IF e.m = "pop1" THEN {r.v} ELSE {x \in e.src : El(x) \in Range(r.a)}

\* The key space after the effect e was answered with r
Next(e, r) ==
  IF e.m \in {"pop", "pop1"} THEN SetZ(e.ks, e.key, e.src \ Popped(e, r)) ELSE e.ks

\* All the replies of an effect (for small models; one representative order of unordered arrays)
Outcomes(e) ==
  CASE e.m = "x" -> {e.rep}
    [] e.m = "any" -> {Err("ERR vertex server internal error")}
    [] e.m = "bag" -> {e.rep}
    [] e.m = "pairs" -> LET f == e.ks.h[e.key]
                            q == SeqOf(DOMAIN f)
                        IN {Arr([i \in 1..(2 * Len(q)) |->
                               IF i % 2 = 1 THEN El(q[(i + 1) \div 2]) ELSE El(f[q[i \div 2]])])}
    [] e.m \in {"pick1", "pop1"} -> {Bulk(x) : x \in e.src}
    [] e.m \in {"pick", "pop"} ->
         {Arr(Els(SeqOf(S))) : S \in {T \in SUBSET e.src : Cardinality(T) = e.n}}

IsError(e) == e.m = "any" \/ (e.m = "x" /\ e.rep.t = "err")

\* What the server appends to its log: a request that modifies, a random one as what it did.
\* <<>> if nothing is appended.
Logged(e, r, req, ns) ==
  IF req = <<>> \/ 1 \in ns THEN <<>>
  ELSE LET c == Lower(req[1]) IN
       IF c \notin Modifying \/ ~ValidArgs(c, Tail(req), {i - 1 : i \in ns}) THEN <<>>
       ELSE IF c # "spop" THEN <<[a |-> req, ns |-> ns]>>
       ELSE IF e.m \notin {"pop", "pop1"} THEN <<>>
       ELSE <<[a |-> <<"srem", req[2]>> \o SeqOf(Popped(e, r)), ns |-> {}]>>

\* Executing one logged request: no reply is sent, and none of them is random
Apply(ks, rec) == LET e == Effect(ks, rec.a, rec.ns) IN e.ks

RECURSIVE Replay(_, _)
Replay(ks, log) == IF log = <<>> THEN ks ELSE Replay(Apply(ks, Head(log)), Tail(log))
=========================================================================
