----------------------------- MODULE RespTrace -----------------------------
(***************************************************************************)
(* Does the real reader and writer do what Resp says?  TRACE has one list  *)
(* of events per line:                                                     *)
(*   w     the value v was written as out                                  *)
(*   r     from the bytes in, then the end, the values res were read and   *)
(*         then an error was returned                                      *)
(*   b     the bytes in arrived and no end; res was read without waiting   *)
(*   deep  m arrays in one another were read: ok or not                    *)
(*   reqs  what the driver takes for the requests in a stream, and whether *)
(*         the rest is a defect ("bad") or only incomplete ("more")        *)
(***************************************************************************)
EXTENDS Resp, Json, IOUtils

VARIABLES h, l

Hists == ndJsonDeserialize(IOEnv.TRACE)
ASSUME \A i \in 1..Len(Hists) : TLCSet(i, 0)

Ev == Hists[h].ev[l]

\* The values res and then an error are what may be read from rs
Agrees(rs, res) ==
  /\ Len(res) < Len(rs)
  /\ \A i \in 1..Len(res) : rs[i].v = res[i]
  /\ LET r == rs[Len(res) + 1] IN r.st # "ok" \/ r.lax

Allowed ==
  CASE Ev.k = "w" -> Ev.out = Enc(Ev.v) /\ Ev.out2 = Ev.out
    [] Ev.k = "r" -> Agrees(DecStream(Ev.in, 1), Ev.res)
    [] Ev.k = "p" -> LET r == Dec(Ev.in, 1, 0)
                     IN IF Len(Ev.res) = 0 THEN r.st # "ok" \/ r.lax ELSE r.st = "ok" /\ Ev.res = <<r.v>>
    [] Ev.k = "b" -> LET rs == DecStream(Ev.in, 1)
                     IN /\ Len(rs) = Len(Ev.res) + 1
                        /\ \A i \in 1..Len(Ev.res) : rs[i].v = Ev.res[i]
    [] Ev.k = "deep" -> Ev.ok = (Ev.m <= MaxDepth)
    [] Ev.k = "reqs" -> LET rs == DecStream(Ev.in, 1)
                        IN /\ Len(rs) = Len(Ev.reqs) + 1
                           /\ rs[Len(rs)].st = Ev.st
                           /\ \A i \in 1..Len(Ev.reqs) : LET q == Request(rs[i].v)
                                                         IN Ev.reqs[i].q = q.q /\ Range(Ev.reqs[i].ns) = q.ns

TInit == h \in 1..Len(Hists) /\ l = 1
TNext == l <= Len(Hists[h].ev) /\ Allowed /\ l' = l + 1 /\ UNCHANGED h
TSpec == TInit /\ [][TNext]_<<h, l>>
Mark == IF TLCGet(h) < l THEN TLCSet(h, l) ELSE TRUE
Accepted == \A i \in 1..Len(Hists) :
              \/ TLCGet(i) = Len(Hists[i].ev) + 1
              \/ PrintT(<<"REJECTED", i, TLCGet(i)>>)
============================================================================
