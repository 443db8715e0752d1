----------------------------- MODULE RingBuffer -----------------------------
(***************************************************************************)
(* The single-producer single-consumer ring buffer on a machine with the   *)
(* release/acquire memory model: an atomic variable is a history of        *)
(* messages, each with the view its writer released with it; a load may    *)
(* return any message that is not older than what the thread already knows *)
(* of. Slots are plain memory: an access that is not ordered after the     *)
(* previous conflicting one is a data race.                                *)
(* Wrong selects a mistaken design.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Cap,       \* size of the container
          MaxPush,   \* number of attempts to push
          MaxPops,   \* number of (bulk) pops
          MaxAsk,    \* most elements asked for in one of them
          Wrong      \* set of mistakes
ASSUME Wrong \subseteq {"relaxed_publish", "relaxed_free", "relaxed_see_publish", "relaxed_see_free", "publish_first", "free_first", "no_full_check"}

T == {"P", "C"}
VARIABLES mem,    \* "w"/"r" -> sequence of messages [v, view]
          view,   \* thread -> view; a view is [w, r : index in mem, P, C : how far it has seen the thread]
          slot,   \* 0..Cap-1 -> [v, by, at: last access]
          pc, reg, \* thread -> program counter, registers
          tries, pops, acc, got, race
vars == <<mem, view, slot, pc, reg, tries, pops, acc, got, race>>

Max(a, b) == IF a > b THEN a ELSE b
Join(x, y) == [k \in DOMAIN x |-> Max(x[k], y[k])]
View0 == [w |-> 1, r |-> 1, P |-> 0, C |-> 0]
Init == /\ mem = [x \in {"w", "r"} |-> <<[v |-> 0, view |-> View0]>>]
        /\ view = [t \in T |-> View0]
        /\ slot = [i \in 0..Cap-1 |-> [v |-> 0, by |-> "P", at |-> 0]]
        /\ pc = [t \in T |-> "idle"] /\ reg = [t \in T |-> [w |-> 0, r |-> 0, n |-> 0, i |-> 0, val |-> 0]]
        /\ tries = 0 /\ pops = 0 /\ acc = <<>> /\ got = <<>> /\ race = FALSE

Tick(t) == [view EXCEPT ![t][t] = @ + 1]
\* Thread t loads variable x, with acquire semantics or not, and continues with the value.
Load(t, x, acq, m) ==
  /\ m \in view[t][x]..Len(mem[x])
  /\ view' = [view EXCEPT ![t] = LET seen == [@ EXCEPT ![x] = m] IN
                                 [(IF acq THEN Join(seen, mem[x][m].view) ELSE seen) EXCEPT ![t] = @ + 1]]
  /\ UNCHANGED mem
Store(t, x, v, rel) ==
  LET me == [view[t] EXCEPT ![t] = @ + 1, ![x] = Len(mem[x]) + 1] IN
  /\ view' = [view EXCEPT ![t] = me]
  /\ mem' = [mem EXCEPT ![x] = Append(@, [v |-> v, view |-> IF rel THEN me ELSE [View0 EXCEPT ![x] = Len(mem[x]) + 1]])]
\* A plain access by t; both writing and moving out of a slot modify it.
Access(t, i, v) ==
  /\ race' = (race \/ (slot[i].by # t /\ slot[i].at > view[t][slot[i].by]))
  /\ slot' = [slot EXCEPT ![i] = [v |-> v, by |-> t, at |-> view[t][t] + 1]]
  /\ view' = Tick(t)
  /\ UNCHANGED mem

W(x) == x \notin Wrong
Goto(t, p) == pc' = [pc EXCEPT ![t] = p]

\* ---- push(v)
P1 == /\ pc["P"] = "idle" /\ tries < MaxPush /\ tries' = tries + 1
      /\ \E m \in 1..Len(mem["w"]) : Load("P", "w", FALSE, m) /\ reg' = [reg EXCEPT !["P"].w = mem["w"][m].v, !["P"].val = tries + 1]
      /\ Goto("P", "full") /\ UNCHANGED <<slot, pops, acc, got, race>>
P2 == /\ pc["P"] = "full"
      /\ \E m \in 1..Len(mem["r"]) :
            /\ Load("P", "r", W("relaxed_see_free"), m)
            /\ Goto("P", IF (reg["P"].w + 1) % Cap = mem["r"][m].v /\ W("no_full_check") THEN "idle" ELSE IF W("publish_first") THEN "put" ELSE "pub")
      /\ UNCHANGED <<slot, reg, tries, pops, acc, got, race>>
P3 == /\ pc["P"] = "put" /\ Access("P", reg["P"].w, reg["P"].val)
      /\ Goto("P", IF W("publish_first") THEN "pub" ELSE "idle") /\ UNCHANGED <<reg, tries, pops, acc, got>>
P4 == /\ pc["P"] = "pub" /\ Store("P", "w", (reg["P"].w + 1) % Cap, W("relaxed_publish"))
      /\ acc' = Append(acc, reg["P"].val)
      /\ Goto("P", IF W("publish_first") THEN "idle" ELSE "put") /\ UNCHANGED <<slot, reg, tries, pops, got, race>>
\* ---- pop / pop_into(n)
C1 == /\ pc["C"] = "idle" /\ pops < MaxPops /\ pops' = pops + 1
      /\ \E m \in 1..Len(mem["w"]), n \in 1..MaxAsk :
            /\ Load("C", "w", W("relaxed_see_publish"), m)
            /\ reg' = [reg EXCEPT !["C"].w = mem["w"][m].v, !["C"].n = n]
      /\ Goto("C", "own") /\ UNCHANGED <<slot, tries, acc, got, race>>
C2 == /\ pc["C"] = "own"
      /\ \E m \in 1..Len(mem["r"]) :
            /\ Load("C", "r", FALSE, m)
            /\ LET r == mem["r"][m].v
                   n == LET a == (reg["C"].w + Cap - r) % Cap IN IF a < reg["C"].n THEN a ELSE reg["C"].n IN
               /\ reg' = [reg EXCEPT !["C"].r = r, !["C"].n = n, !["C"].i = 0]
               /\ Goto("C", IF n = 0 THEN "idle" ELSE IF W("free_first") THEN "take" ELSE "free")
      /\ UNCHANGED <<slot, tries, pops, acc, got, race>>
C3 == /\ pc["C"] = "take"
      /\ LET i == (reg["C"].r + reg["C"].i) % Cap IN got' = Append(got, slot[i].v) /\ Access("C", i, 0)
      /\ reg' = [reg EXCEPT !["C"].i = @ + 1]
      /\ Goto("C", IF reg["C"].i + 1 < reg["C"].n THEN "take" ELSE IF W("free_first") THEN "free" ELSE "idle")
      /\ UNCHANGED <<tries, pops, acc>>
C4 == /\ pc["C"] = "free" /\ Store("C", "r", (reg["C"].r + reg["C"].n) % Cap, W("relaxed_free"))
      /\ Goto("C", IF W("free_first") THEN "idle" ELSE "take") /\ UNCHANGED <<slot, reg, tries, pops, acc, got, race>>

Next == P1 \/ P2 \/ P3 \/ P4 \/ C1 \/ C2 \/ C3 \/ C4
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
NoRace == ~race
IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
\* Everything popped was pushed, in order, once. (Publishing comes last, so acc is complete when it can be seen.)
Fifo == IsPrefix(got, acc)
\* It never holds more than Cap - 1 elements.
Bounded == Len(acc) - Len(got) <= Cap - 1
\* A push is only refused while, as far as the producer can know, Cap - 1 elements are held: the latest it can know of is
\* the end of the history of r, so if nothing was freed that it has not seen, there must be that many.
RefusalJustified ==
  [][(pc["P"] = "full" /\ pc'["P"] = "idle") =>
       (view'["P"].r = Len(mem["r"]) => (reg["P"].w + 1) % Cap = mem["r"][Len(mem["r"])].v)]_vars
=============================================================================
