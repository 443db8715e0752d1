------------------------------- MODULE Native -------------------------------
(* Threads record events in ring buffers, a sender collects and broadcasts them. Threads end, and their ids are used again.
   The steps are those of the code: a buffer is filled by its thread and emptied by the sender, what is full takes no more, the
   end of a thread moves its buffer to the orphans and then out of the active map, and the sender takes the orphans, then the
   active map, then pops the buffers one by one, then broadcasts what it has, keyed by thread id. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, Id, Cap, Events,   \* threads, their ids (a function), events a buffer holds, events per thread
          OrphanBuffers, TakeAtomic, DropNewest, MergeById, KeepWithoutTransport, OneBatch
VARIABLES st, rec, acc, buf, act, orph, tr, pc, todo, got, sent
vars == <<st, rec, acc, buf, act, orph, tr, pc, todo, got, sent>>
None == "none"
Ids == {Id[t] : t \in Threads}
Range(s) == {s[k] : k \in DOMAIN s}
Init == /\ st = [t \in Threads |-> "new"] /\ rec = [t \in Threads |-> 0] /\ acc = [t \in Threads |-> <<>>]
        /\ buf = [t \in Threads |-> <<>>] /\ act = [i \in Ids |-> None] /\ orph = <<>> /\ tr = FALSE
        /\ pc = "idle" /\ todo = <<>> /\ got = [t \in Threads |-> <<>>] /\ sent = [t \in Threads |-> <<>>]
\* the first trace point registers the buffer; an id is free only when its last thread has gone
Start(t) == /\ st[t] = "new" /\ \A u \in Threads : Id[u] = Id[t] => st[u] \in {"new", "gone"}
            /\ st' = [st EXCEPT ![t] = "on"] /\ act' = [act EXCEPT ![Id[t]] = t] /\ UNCHANGED <<rec, acc, buf, orph, tr, pc, todo, got, sent>>
Record(t) == /\ st[t] = "on" /\ rec[t] < Events /\ rec' = [rec EXCEPT ![t] = @ + 1]
             /\ IF Len(buf[t]) < Cap THEN buf' = [buf EXCEPT ![t] = Append(@, rec[t] + 1)] /\ acc' = [acc EXCEPT ![t] = Append(@, rec[t] + 1)]
                ELSE IF DropNewest THEN UNCHANGED <<buf, acc>>
                ELSE buf' = [buf EXCEPT ![t] = Append(Tail(@), rec[t] + 1)] /\ acc' = [acc EXCEPT ![t] = Append(@, rec[t] + 1)]
             /\ UNCHANGED <<st, act, orph, tr, pc, todo, got, sent>>
Leave(t) == /\ st[t] = "on" /\ st' = [st EXCEPT ![t] = "leaving"] /\ orph' = (IF OrphanBuffers THEN Append(orph, t) ELSE orph)
            /\ UNCHANGED <<rec, acc, buf, act, tr, pc, todo, got, sent>>
Gone(t) == /\ st[t] = "leaving" /\ st' = [st EXCEPT ![t] = "gone"] /\ act' = [act EXCEPT ![Id[t]] = None]
           /\ UNCHANGED <<rec, acc, buf, orph, tr, pc, todo, got, sent>>
Attach == ~tr /\ tr' = TRUE /\ UNCHANGED <<st, rec, acc, buf, act, orph, pc, todo, got, sent>>
TakeOrphans == /\ pc = "idle" /\ (KeepWithoutTransport => tr) /\ todo' = orph /\ orph' = (IF TakeAtomic THEN <<>> ELSE orph)
               /\ pc' = (IF TakeAtomic THEN "active" ELSE "clear") /\ UNCHANGED <<st, rec, acc, buf, act, tr, got, sent>>
Clear == pc = "clear" /\ orph' = <<>> /\ pc' = "active" /\ UNCHANGED <<st, rec, acc, buf, act, tr, todo, got, sent>>
RECURSIVE AsSeq(_)
AsSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o AsSeq(s \ {x})
TakeActive == /\ pc = "active" /\ todo' = todo \o AsSeq({act[i] : i \in Ids} \ {None}) /\ pc' = "pop" /\ UNCHANGED <<st, rec, acc, buf, act, orph, tr, got, sent>>
Pop == /\ pc = "pop" /\ todo # <<>>
       /\ LET t == Head(todo) IN
          /\ buf' = [buf EXCEPT ![t] = <<>>]
          /\ got' = (IF MergeById THEN [got EXCEPT ![t] = @ \o buf[t]]
                     ELSE [u \in Threads |-> IF u = t THEN buf[t] ELSE IF Id[u] = Id[t] THEN <<>> ELSE got[u]])
       /\ todo' = Tail(todo) /\ UNCHANGED <<st, rec, acc, act, orph, tr, pc, sent>>
Send == /\ pc = "pop" /\ todo = <<>> /\ pc' = "idle"
        /\ sent' = (IF tr THEN [t \in Threads |-> sent[t] \o got[t]] ELSE sent)
        /\ got' = (IF OneBatch THEN [t \in Threads |-> <<>>] ELSE got) /\ UNCHANGED <<st, rec, acc, buf, act, orph, tr, todo>>
Next == \/ \E t \in Threads : Start(t) \/ Record(t) \/ Leave(t) \/ Gone(t)
        \/ Attach \/ TakeOrphans \/ Clear \/ TakeActive \/ Pop \/ Send
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Attach) /\ WF_vars(TakeOrphans \/ Clear \/ TakeActive \/ Pop \/ Send)
---------------------------------------------------------------------------
\* what a thread recorded while there was room is, in order, what was sent, what is about to be sent and what is in its buffer
ExactlyOnce == \A t \in Threads : acc[t] = sent[t] \o got[t] \o buf[t]
Reachable == \A t \in Threads : buf[t] # <<>> => t \in Range(todo) \/ t \in Range(orph) \/ act[Id[t]] = t
Arrives == \A t \in Threads, k \in 1..Events : [](Len(acc[t]) >= k => <>(Len(sent[t]) >= k))
=============================================================================
