----------------------------- MODULE AtomicMap -----------------------------
(***************************************************************************)
(* A map used by several threads. The map itself takes its time: changing  *)
(* it is reading it, working on what was read and writing it back, reading *)
(* all of it happens key by key. A lock (shared for reading) makes the     *)
(* operations atomic; Unlocked says which of them forget to take it.       *)
(* abs is the map the users believe in: it changes at one instant in each  *)
(* operation, and every result has to be one that abs gave meanwhile.      *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Threads, Keys, Vals, MaxOps, Unlocked
VARIABLES map, abs, th, writer, readers, ops, bad
vars == <<map, abs, th, writer, readers, ops, bad>>
None == 0
Maps == [Keys -> Vals \cup {None}]
Idle == [pc |-> "idle", op |-> "", k |-> 0, v |-> 0, loc |-> <<>>, todo |-> {}, seen |-> {}]
Init == /\ map = [k \in Keys |-> None] /\ abs = map /\ th = [t \in Threads |-> Idle]
        /\ writer = 0 /\ readers = {} /\ ops = 0 /\ bad = FALSE
Writes(o) == o \in {"insert", "erase", "clear"}
Call(t) == /\ th[t].pc = "idle" /\ ops < MaxOps /\ ops' = ops + 1
           /\ \E o \in {"insert", "erase", "clear", "value", "map"}, k \in Keys, v \in Vals :
                /\ o # "insert" => v = CHOOSE x \in Vals : TRUE
                /\ o \in {"clear", "map"} => k = CHOOSE x \in Keys : TRUE
                /\ th' = [th EXCEPT ![t] = [Idle EXCEPT !.pc = "lock", !.op = o, !.k = k, !.v = v, !.seen = {abs}]]
           /\ UNCHANGED <<map, abs, writer, readers, bad>>
Locks(o) == o \notin Unlocked
Lock(t) == /\ th[t].pc = "lock"
           /\ IF ~Locks(th[t].op) THEN UNCHANGED <<writer, readers>>
              ELSE IF Writes(th[t].op) THEN writer = 0 /\ readers = {} /\ writer' = t /\ UNCHANGED readers
              ELSE writer = 0 /\ readers' = readers \cup {t} /\ UNCHANGED writer
           /\ th' = [th EXCEPT ![t].pc = "read", ![t].loc = [k \in Keys |-> None], ![t].todo = IF th[t].op = "value" THEN {th[t].k} ELSE Keys]
           /\ UNCHANGED <<map, abs, ops, bad>>
\* reading, key by key; a change has to see all that it changes
Read(t) == /\ th[t].pc = "read"
           /\ \E k \in th[t].todo : /\ \A j \in th[t].todo : k <= j
                                    /\ th' = [th EXCEPT ![t].loc[k] = map[k], ![t].todo = @ \ {k}, ![t].pc = IF th[t].todo = {k} THEN "work" ELSE "read"]
           /\ UNCHANGED <<map, abs, writer, readers, ops, bad>>
Effect(o, k, v, m) == CASE o = "insert" -> [m EXCEPT ![k] = v] [] o = "erase" -> [m EXCEPT ![k] = None] [] o = "clear" -> [x \in Keys |-> None] [] OTHER -> m
See(f, m) == [t \in Threads |-> IF f[t].pc = "idle" THEN f[t] ELSE [f[t] EXCEPT !.seen = @ \cup {m}]]
Work(t) == /\ th[t].pc = "work"
           /\ IF Writes(th[t].op)
              THEN /\ map' = Effect(th[t].op, th[t].k, th[t].v, th[t].loc)
                   /\ abs' = Effect(th[t].op, th[t].k, th[t].v, abs)
                   /\ th' = See([th EXCEPT ![t].pc = "unlock"], abs')
              ELSE UNCHANGED <<map, abs>> /\ th' = [th EXCEPT ![t].pc = "unlock"]
           /\ UNCHANGED <<writer, readers, ops, bad>>
Unlock(t) == /\ th[t].pc = "unlock"
             /\ writer' = IF writer = t THEN 0 ELSE writer
             /\ readers' = readers \ {t}
             /\ th' = [th EXCEPT ![t] = Idle]
             /\ bad' = (bad \/ (th[t].op = "value" /\ \A m \in th[t].seen : m[th[t].k] # th[t].loc[th[t].k])
                            \/ (th[t].op = "map" /\ th[t].loc \notin th[t].seen))
             /\ UNCHANGED <<map, abs, ops>>
Next == \E t \in Threads : Call(t) \/ Lock(t) \/ Read(t) \/ Work(t) \/ Unlock(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Atomic == ~bad /\ map = abs
\* every operation that was begun ends
Ends == \A t \in Threads : th[t].pc # "idle" ~> th[t].pc = "idle"
=============================================================================
