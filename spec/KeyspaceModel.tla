--------------------------- MODULE KeyspaceModel ---------------------------
(***************************************************************************)
(* Every state a few small requests can reach, every request in each of    *)
(* them.  TLC checks the frame and the log properties on all transitions,  *)
(* and prints each transition as the requests that lead to it, for the     *)
(* replay against the real server.                                         *)
(***************************************************************************)
EXTENDS Keyspace, Json

CONSTANTS Family,    \* which commands
          MaxLen,    \* bound of lists
          MaxPath,   \* bound of the number of requests
          Emit       \* whether to print

VARIABLES ks, path, log
vars == <<ks, path, log>>

Keys == IF Family \in {"string", "set"} THEN {"K1", "K2"} ELSE {"K1"}
Vals == IF Family = "string" THEN {"", "a", "bc"}
        ELSE IF Family = "counter" THEN {"0", "9223372036854775806", "-9223372036854775808", "x"}
        ELSE {"a", "b"}
Idx == {ToString(i) : i \in -(MaxLen + 1)..(MaxLen + 1)}
Two(S) == {<<x, y>> : x \in S, y \in S}
Ones(S) == {<<x>> : x \in S}
Upto2(S) == Ones(S) \cup Two(S)

Cmds ==
  CASE Family = "string" ->
         {<<"set", k, v>> : k \in Keys, v \in Vals} \cup {<<"get", k>> : k \in Keys}
         \cup {<<"append", k, v>> : k \in Keys, v \in Vals} \cup {<<"strlen", k>> : k \in Keys}
         \cup {<<"mset", "K1", v, "K2", w>> : v \in Vals, w \in Vals}
         \cup {<<"mset", k, v>> : k \in Keys, v \in Vals} \cup {<<"mset", "K1", "a", "K1", "">>}
         \cup {<<"mget">> \o q : q \in Upto2(Keys)} \cup {<<"exists">> \o q : q \in Upto2(Keys)}
         \cup {<<"getrange", "K1", i, j>> : i \in Idx, j \in Idx}
         \cup {<<"mset">>, <<"mset", "K1">>, <<"set", "K1">>, <<"get">>, <<"mget">>, <<"append", "K1">>, <<"getrange", "K1", "a", "1">>}
    [] Family = "counter" ->
         {<<"set", "K1", v>> : v \in Vals}
         \cup {<<c, "K1">> : c \in {"incr", "decr", "incrby", "decrby", "get"}}
         \cup {<<c, "K1", v>> : c \in {"incrby", "decrby"},
                 v \in Vals \cup {"1", "-1", "9223372036854775807", "-9223372036854775807", "9223372036854775808", "2", ""}}
         \cup {<<"append", "K1", "0">>, <<"incr">>, <<"incrby">>, <<"incrby", "K1", "1", "1">>}
    [] Family = "list" ->
         {<<c, "K1">> \o q : c \in {"lpush", "rpush"}, q \in Upto2(Vals)}
         \cup {<<c, "K1">> : c \in {"lpop", "rpop", "llen", "lpush", "lindex"}}
         \cup {<<"lindex", "K1", i>> : i \in Idx}
         \cup {<<"lset", "K1", i, "c">> : i \in Idx}
         \cup {<<c, "K1", i, j>> : c \in {"lrange", "ltrim"}, i \in Idx, j \in Idx}
         \cup {<<"lrem", "K1", i, v>> : i \in Idx, v \in Vals \cup {"c"}}
         \cup {<<"linsert", "K1", w, p, v>> : w \in {"before", "AFTER"}, p \in Vals \cup {"c"}, v \in {"a", "d"}}
         \cup {<<"linsert", "K1", "at", "a", "b">>, <<"lset", "K1", "x", "a">>, <<"lrem", "K1", "", "a">>}
    [] Family = "hash" ->
         LET F == {"f", "g", ""} IN
         {<<"hset", "K1", f, v>> : f \in F, v \in Vals}
         \cup {<<"hset", "K1", f, v, g, w>> : f \in F, g \in F, v \in Vals, w \in Vals}
         \cup {<<"hdel", "K1">> \o q : q \in Upto2(F)} \cup {<<"hmget", "K1">> \o q : q \in Upto2(F)}
         \cup {<<c, "K1", f>> : c \in {"hget", "hexists", "hstrlen"}, f \in F}
         \cup {<<c, "K1">> : c \in {"hkeys", "hvals", "hgetall", "hlen", "hget", "hset", "hdel"}}
         \cup {<<"hset", "K1", "f">>, <<"hset", "K1", "f", "a", "g">>}
    [] Family = "set" ->
         LET M == Vals \cup {""} IN
         {<<c, k>> \o q : c \in {"sadd", "srem"}, k \in Keys, q \in Upto2(M)}
         \cup {<<"sismember", "K1", v>> : v \in M}
         \cup {<<c>> \o q : c \in {"sdiff", "sinter", "sunion"}, q \in Upto2(Keys) \cup {<<>>, <<"K1", "K2", "K3">>, <<"K3", "K1">>}}
         \cup {<<c, "K1">> : c \in {"smembers", "scard", "spop", "srandmember", "sadd"}}
         \cup {<<c, "K1", i>> : c \in {"spop", "srandmember"}, i \in {"0", "1", "2", "4", "-1", "-2", "-9223372036854775808", "x"}}

Small(x) == /\ \A k \in DOMAIN x.l : Len(x.l[k]) <= MaxLen
            /\ \A k \in DOMAIN x.s : Len(x.s[k]) <= 20 /\ (Family = "string" => Len(x.s[k]) <= MaxLen)

Init == ks = EmptyKS /\ path = <<>> /\ log = <<>>

Do(c) ==
  LET e == Effect(ks, c, {}) IN
  \E r \in Outcomes(e) :
    /\ Small(Next(e, r))
    /\ ks' = Next(e, r)
    /\ log' = Logged(e, r, c, {})
    \* a random request leads to a state that other requests reach for certain
    /\ path' = IF e.m \in {"pop", "pop1"} THEN Append(path, c) \o <<<<"RANDOM">>>> ELSE Append(path, c)

\* States reached by a random request are only looked at through the others
Certain == IF path = <<>> THEN TRUE ELSE path[Len(path)] # <<"RANDOM">>
Step == Certain /\ \E c \in Cmds : Do(c)
Spec == Init /\ [][Step]_vars

Bounded == Len(path) < MaxPath

View == <<ks, Certain>>
EmitPath == IF Emit THEN PrintT("PATH " \o ToJson(path')) ELSE TRUE

\* --- what every transition must satisfy ---
Last(p) == IF p[Len(p)] = <<"RANDOM">> THEN p[Len(p) - 1] ELSE p[Len(p)]
Others == LET c == Last(path')[1] IN
          (IF c \in StringNames THEN {} ELSE {"s"}) \cup (IF c \in ListNames THEN {} ELSE {"l"})
          \cup (IF c \in HashNames THEN {} ELSE {"h"})
          \cup (IF c \in StringNames \cup ListNames \cup HashNames THEN {"z"} ELSE {})
Named == LET q == Last(path') IN
         IF q[1] = "mset" THEN Range(Odds(Tail(q))) ELSE IF Len(q) > 1 THEN {q[2]} ELSE {}
SameBut(f, g, K) == \A k \in (DOMAIN f \cup DOMAIN g) \ K :
                       k \in DOMAIN f /\ k \in DOMAIN g /\ f[k] = g[k]
Frame == /\ \A o \in Others : ks[o] = ks'[o]
         /\ \A o \in {"s", "l", "h", "z"} : SameBut(ks[o], ks'[o], Named)
Harmless == LET e == Effect(ks, Last(path'), {}) IN
            (IsError(e) \/ Last(path')[1] \notin Modifying) => ks' = ks
\* replaying what is logged has the effect of the request, also for the random ones
Replays == Replay(ks, log') = ks'
Always == [][Frame /\ Harmless /\ Replays]_vars

\* counters stay within 64 bits, and a set never holds a member twice by construction
TypeOK == /\ \A k \in DOMAIN ks.s : Family = "counter" => Len(ks.s[k]) <= 20
          /\ DOMAIN ks = {"s", "l", "h", "z"}
============================================================================
