------------------------------- MODULE Mapping -------------------------------
(***************************************************************************)
(* How recorded trace ids get their names back. A trace macro at a place   *)
(* in the source has an id and a name that are fixed at compile time; on   *)
(* its first executions it announces the pair to a map of its process,     *)
(* guarded by a flag of that place, and then records only the id. Several  *)
(* threads can execute the same place at once. A client asks the processes *)
(* one after the other for their maps and replaces what it knew before.    *)
(* Ids of different processes may be equal but mean different names.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Procs, Threads, Places, Ids, Names, MaxExec, MaxQ, Bug
VARIABLES src,     \* process, place -> [id, name]: the source
          flag,    \* process, place -> announced?
          map,     \* process -> (id -> name)
          th,      \* process, thread -> [pc, place]
          rec,     \* <<process, id, name>>: recorded ids with the name in the source
          mode, q, got, nx, nq, bad
vars == <<src, flag, map, th, rec, mode, q, got, nx, nq, bad>>
Idle == [pc |-> "idle", pl |-> 0]
Calm == [pc |-> "idle", todo |-> {}, acc |-> <<>>, need |-> {}, fine |-> {}]
\* equal ids in a process have equal names (checksum collisions aside)
Init == /\ src \in [Procs -> [Places -> [id : Ids, name : Names]]] /\ (\A a \in Places : src[1][a] = [id |-> a, name |-> "a"])
        /\ \A p \in Procs, a \in Places, b \in Places : src[p][a].id = src[p][b].id => src[p][a].name = src[p][b].name
        /\ flag = [p \in Procs |-> [a \in Places |-> FALSE]] /\ map = [p \in Procs |-> <<>>]
        /\ th = [p \in Procs |-> [t \in Threads |-> Idle]] /\ rec = {} /\ mode = [p \in Procs |-> "ok"]
        /\ q = Calm /\ got = <<>> /\ nx = 0 /\ nq = 0 /\ bad = FALSE
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Begin(p, t, a) == /\ th[p][t].pc = "idle" /\ nx < MaxExec /\ nx' = nx + 1
                  /\ th' = [th EXCEPT ![p][t] = [pc |-> IF flag[p][a] THEN "record" ELSE IF Bug = "flag_first" THEN "flag" ELSE "insert", pl |-> a]]
                  /\ UNCHANGED <<src, flag, map, rec, mode, q, got, nq, bad>>
Flag(p, t) == /\ th[p][t].pc = "flag" /\ flag' = [flag EXCEPT ![p][th[p][t].pl] = TRUE]
              /\ th' = [th EXCEPT ![p][t].pc = IF Bug = "flag_first" THEN "insert" ELSE "record"]
              /\ UNCHANGED <<src, map, rec, mode, q, got, nx, nq, bad>>
Insert(p, t) == /\ th[p][t].pc = "insert"
                /\ LET s == src[p][th[p][t].pl] IN
                   map' = IF Bug = "global" THEN [x \in Procs |-> Put(map[x], s.id, s.name)] ELSE [map EXCEPT ![p] = Put(@, s.id, s.name)]
                /\ th' = [th EXCEPT ![p][t].pc = IF Bug = "flag_first" THEN "record" ELSE "flag"]
                /\ UNCHANGED <<src, flag, rec, mode, q, got, nx, nq, bad>>
Record(p, t) == /\ th[p][t].pc = "record" /\ th' = [th EXCEPT ![p][t] = Idle]
                /\ LET s == src[p][th[p][t].pl] IN rec' = rec \cup {<<p, s.id, s.name>>}
                /\ UNCHANGED <<src, flag, map, mode, q, got, nx, nq, bad>>
Mode(p, m) == /\ q.pc = "idle" /\ mode[p] = "ok" /\ mode' = [mode EXCEPT ![p] = m] /\ UNCHANGED <<src, flag, map, th, rec, q, got, nx, nq, bad>>
QBegin == /\ q.pc = "idle" /\ nq < MaxQ /\ nq' = nq + 1
          /\ q' = [pc |-> "ask", todo |-> Procs, acc |-> <<>>, need |-> rec, fine |-> {p \in Procs : mode[p] = "ok"}]
          /\ UNCHANGED <<src, flag, map, th, rec, mode, got, nx, bad>>
Ask(p) == /\ q.pc = "ask" /\ p \in q.todo
          /\ q' = IF mode[p] = "ok" THEN [q EXCEPT !.todo = @ \ {p}, !.acc = Put(@, p, map[p])]
                  ELSE [q EXCEPT !.todo = IF Bug = "abort" THEN {} ELSE @ \ {p}, !.acc = IF Bug = "wipe" THEN <<>> ELSE @]
          /\ UNCHANGED <<src, flag, map, th, rec, mode, got, nx, nq, bad>>
Resolve(g, p, i) == IF p \in DOMAIN g /\ i \in DOMAIN g[p] THEN g[p][i]
                    ELSE IF Bug = "any" /\ \E x \in DOMAIN g : i \in DOMAIN g[x] THEN g[CHOOSE x \in DOMAIN g : i \in DOMAIN g[x]][i] ELSE "?"
QEnd == /\ q.pc = "ask" /\ q.todo = {} /\ got' = q.acc /\ q' = Calm
        /\ bad' = (bad \/ (\E x \in q.need : x[1] \in q.fine /\ Resolve(q.acc, x[1], x[2]) # x[3])
                       \/ (\E p \in Procs, i \in Ids : LET n == Resolve(q.acc, p, i) IN n # "?" /\ ~\E a \in Places : src[p][a] = [id |-> i, name |-> n]))
        /\ UNCHANGED <<src, flag, map, th, rec, mode, nx, nq>>
Next == \/ \E p \in Procs, t \in Threads : (\E a \in Places : Begin(p, t, a)) \/ Flag(p, t) \/ Insert(p, t) \/ Record(p, t)
        \/ \E p \in Procs : Ask(p) \/ Mode(p, "gone")
        \/ QBegin \/ QEnd
Spec == Init /\ [][Next]_vars
\* Every id recorded before the query resolves to the name in the source of its process; nothing resolves to a name that is not.
Truth == ~bad
=============================================================================
