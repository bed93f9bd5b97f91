--------------------------- MODULE ResourcesModel ---------------------------
(***************************************************************************)
(* Every life of a process with up to MaxSteps servers and visitors.  A    *)
(* visitor costs a descriptor, a goroutine and some memory, a server two   *)
(* goroutines and a descriptor.                                            *)
(***************************************************************************)
EXTENDS Resources

CONSTANTS MaxSteps, Visitors

VARIABLES n, ok, kept
vars == <<s, n, ok, kept>>

\* kept is what the runtime keeps of crowds
Use == LET c == Cardinality(s.held)
           k == IF s.up = 0 THEN 0 ELSE 1
       IN [g |-> 5 + c + 2 * k, fd |-> 8 + c + k, files |-> 1, heap |-> 1000 + (Slack + 1) * (c + kept)]

Init == s = NewProcess /\ n = 0 /\ ok = TRUE /\ kept = 0
Step == n < MaxSteps /\ n' = n + 1
Judge(u) == Measure(u) \/ Grow(u)
Next == \/ Step /\ UNCHANGED <<ok, kept>>
           /\ \/ Start(n + 1)
              \/ Stop
              \/ \E v \in Visitors \ s.held : Come(v)
              \/ \E v \in s.present : Leave(v)
        \/ Step /\ kept < MaxGrown /\ kept' = kept + 1 /\ UNCHANGED <<s, ok>>
        \/ Free /\ UNCHANGED <<n, ok, kept>>
        \/ /\ s.present = {} /\ s.held = {} /\ UNCHANGED <<n, kept>>
           /\ ok' = (ok /\ ENABLED Judge(Use))
           /\ IF ENABLED Judge(Use) THEN Judge(Use) ELSE UNCHANGED s
Spec == Init /\ [][Next]_vars /\ WF_vars(Free /\ UNCHANGED <<n, ok, kept>>)

TypeOK == s.present \subseteq s.held
\* A process that frees what it holds is never blamed
Allowed == ok
\* One that keeps something is
Blamed == \A p \in DOMAIN s.base : \A d \in {[g |-> 1, fd |-> 0, heap |-> 0], [g |-> 0, fd |-> 1, heap |-> 0], [g |-> 0, fd |-> 0, heap |-> Slack + 1]} :
            LET b == s.base[p] IN ~Within([b EXCEPT !.g = @ + d.g, !.fd = @ + d.fd, !.heap = @ + d.heap], b)
\* also who keeps some memory again and again
Ends == s.grown = MaxGrown => \A p \in DOMAIN s.base : ~ENABLED Grow([s.base[p] EXCEPT !.heap = @ + Slack + 1])
Freed == \A v \in Visitors : []<>(v \notin s.held \ s.present)
=============================================================================
