------------------------------ MODULE ProcInfo ------------------------------
(***************************************************************************)
(* Names of processes and threads as a client sees them. Every process     *)
(* keeps a map from thread id to name, an entry is made when the thread    *)
(* names itself and removed by the thread itself while it exits; the id    *)
(* can be given to another thread afterwards. The client asks all          *)
(* processes one after the other; a process may not answer in time, or be  *)
(* gone. Several intervals follow each other.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Procs, Ids, Names, MaxOps, MaxQ, Bug
NoName == "none"
VARIABLES th,      \* process, id -> "free", "run", "exiting" (cleaning up), "late" (gone, clean-up outstanding)
          nm,      \* process, id -> the name the running thread has given itself
          map,     \* process, id -> the tracker's entry
          pn,      \* process -> its own name
          mode,    \* process -> "ok", "silent", "gone"
          q,       \* the client's query in progress
          got,     \* what the client has: process -> [name, threads]
          ops, nq, bad
vars == <<th, nm, map, pn, mode, q, got, ops, nq, bad>>
Nobody == [i \in Ids |-> NoName]
Idle == [pc |-> "idle", todo |-> {}, answered |-> {}, seen |-> {}, seenP |-> {}, fine |-> {}]
Init == /\ th = [p \in Procs |-> [i \in Ids |-> "free"]] /\ nm = [p \in Procs |-> Nobody] /\ map = [p \in Procs |-> Nobody]
        /\ pn = [p \in Procs |-> CHOOSE n \in Names : TRUE] /\ mode = [p \in Procs |-> "ok"]
        /\ q = Idle /\ got = <<>> /\ ops = 0 /\ nq = 0 /\ bad = FALSE
Op == ops < MaxOps /\ ops' = ops + 1
\* A query that is going on has seen this name of this thread
Saw(p, i, n) == IF q.pc = "idle" THEN q ELSE [q EXCEPT !.seen = @ \cup {<<p, i, n>>}]
Start(p, i) == Op /\ th[p][i] \in {"free", "late"} /\ (Bug # "late_erase" => th[p][i] = "free")
               /\ th' = [th EXCEPT ![p][i] = IF @ = "late" THEN "run+late" ELSE "run"] /\ UNCHANGED <<nm, map, pn, mode, q, got, nq, bad>>
Runs(p, i) == th[p][i] \in {"run", "run+late"}
Name(p, i, n) == /\ Op /\ Runs(p, i)
                 /\ nm' = [nm EXCEPT ![p][i] = n]
                 /\ map' = IF Bug = "once" /\ map[p][i] # NoName THEN map ELSE [map EXCEPT ![p][i] = n]
                 /\ q' = Saw(p, i, n) /\ UNCHANGED <<th, pn, mode, got, nq, bad>>
Exit(p, i) == /\ Op /\ th[p][i] = "run" /\ nm' = [nm EXCEPT ![p][i] = NoName] /\ q' = Saw(p, i, NoName)
              /\ th' = [th EXCEPT ![p][i] = IF Bug = "late_erase" THEN "late" ELSE "exiting"]
              /\ UNCHANGED <<map, pn, mode, got, nq, bad>>
CleanUp(p, i) == /\ th[p][i] \in {"exiting", "late", "run+late"}
                 /\ map' = IF Bug = "no_erase" THEN map ELSE [map EXCEPT ![p][i] = NoName]
                 /\ th' = [th EXCEPT ![p][i] = IF @ = "run+late" THEN "run" ELSE "free"]
                 /\ UNCHANGED <<nm, pn, mode, q, got, ops, nq, bad>>
SetPn(p, n) == Op /\ pn' = [pn EXCEPT ![p] = n] /\ q' = (IF q.pc = "idle" THEN q ELSE [q EXCEPT !.seenP = @ \cup {<<p, n>>}])
               /\ UNCHANGED <<th, nm, map, mode, got, nq, bad>>
Mode(p, m) == Op /\ mode[p] # "gone" /\ mode[p] # m /\ mode' = [mode EXCEPT ![p] = m] /\ q' = [q EXCEPT !.fine = @ \ {p}] /\ UNCHANGED <<th, nm, map, pn, got, nq, bad>>

QBegin == /\ q.pc = "idle" /\ nq < MaxQ /\ nq' = nq + 1
          /\ q' = [pc |-> "ask", todo |-> Procs, answered |-> {}, seen |-> {<<p, i, nm[p][i]>> : p \in Procs, i \in Ids} \cup
                                                                        {<<x[1], x[2], map[x[1]][x[2]]>> : x \in {y \in Procs \X Ids : th[y[1]][y[2]] = "exiting"}},
                   seenP |-> {<<p, pn[p]>> : p \in Procs}, fine |-> {p \in Procs : mode[p] = "ok"}]
          /\ got' = IF Bug = "stale" THEN got ELSE <<>>
          /\ UNCHANGED <<th, nm, map, pn, mode, ops, bad>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* the server's map is copied at one moment
Ask(p) == /\ q.pc = "ask" /\ p \in q.todo
          /\ CASE mode[p] = "ok" -> /\ got' = Put(got, p, [name |-> pn[p], threads |-> {<<i, map[p][i]>> : i \in {j \in Ids : map[p][j] # NoName}}])
                                    /\ q' = [q EXCEPT !.todo = @ \ {p}, !.answered = @ \cup {p}]
               [] mode[p] = "silent" -> /\ got' = IF Bug = "zero" THEN Put(got, p, [name |-> NoName, threads |-> {}]) ELSE got
                                        /\ q' = [q EXCEPT !.todo = @ \ {p}]
               [] OTHER -> got' = got /\ q' = [q EXCEPT !.todo = IF Bug = "abort" THEN {} ELSE @ \ {p}]
          /\ UNCHANGED <<th, nm, map, pn, mode, ops, nq, bad>>
QEnd == /\ q.pc = "ask" /\ q.todo = {}
        /\ bad' = (bad \/ DOMAIN got # q.answered
                       \/ ~(q.fine \subseteq q.answered)
                       \/ (\E p \in DOMAIN got : <<p, got[p].name>> \notin q.seenP)
                       \/ (\E p \in DOMAIN got, i \in Ids : LET e == {x \in got[p].threads : x[1] = i} IN
                             <<p, i, IF e = {} THEN NoName ELSE (CHOOSE x \in e : TRUE)[2]>> \notin q.seen))
        /\ q' = Idle /\ UNCHANGED <<th, nm, map, pn, mode, got, ops, nq>>
Next == \/ \E p \in Procs, i \in Ids : Start(p, i) \/ Exit(p, i) \/ CleanUp(p, i) \/ \E n \in Names : Name(p, i, n)
        \/ \E p \in Procs : Ask(p) \/ (\E n \in Names : SetPn(p, n)) \/ Mode(p, "silent") \/ Mode(p, "ok") \/ Mode(p, "gone")
        \/ QBegin \/ QEnd
Spec == Init /\ [][Next]_vars
\* What a query returns was true of every thread at some moment while it went on, and of exactly the processes that answered.
Truth == ~bad
\* An entry belongs to a thread that is there and is the name it has given itself.
Entries == \A p \in Procs, i \in Ids : map[p][i] # NoName => th[p][i] = "exiting" \/ (Runs(p, i) /\ map[p][i] = nm[p][i])
=============================================================================
