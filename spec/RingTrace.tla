----------------------------- MODULE RingTrace -----------------------------
(***************************************************************************)
(* What a producer and a consumer may observe of the ring buffer: a FIFO   *)
(* of at most cap - 1 elements. The operations take effect between their   *)
(* begin and their end; a pop takes elements and frees their places later. *)
(* On a weak machine a thread may not know yet how far the other one is.   *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES cap, weak,
          acc,     \* accepted elements, in order
          taken,   \* number of them that were taken
          freed,   \* number of places given back
          op       \* thread -> operation in progress
vars == <<tr, l, cap, weak, acc, taken, freed, op>>
None == [k |-> "none", v |-> 0, n |-> 0, dec |-> FALSE, cnt |-> 0, racy |-> FALSE, know |-> 0]
TInit == TraceStart /\ cap = 0 /\ weak = FALSE /\ acc = <<>> /\ taken = 0 /\ freed = 0 /\ op = [t \in {"P", "C"} |-> None]

EInit == Is("Init") /\ cap' = Ev.cap /\ weak' = Ev.weak /\ UNCHANGED <<acc, taken, freed, op>>
Same == UNCHANGED <<cap, weak>>
Stay == UNCHANGED <<tr, l, cap, weak>>
Other(t) == IF t = "P" THEN "C" ELSE "P"
\* Beginning an operation makes it, and one of the other thread that is in progress, racing.
Begin(t, k, v, n) ==
  LET busy == op[Other(t)].k # "none" IN
  op' = [op EXCEPT ![t] = [None EXCEPT !.k = k, !.v = v, !.n = n, !.racy = busy, !.know = op[t].know],
                   ![Other(t)].racy = IF busy THEN TRUE ELSE @]
Finish(t) == op' = [op EXCEPT ![t] = [None EXCEPT !.know = op[t].know]]

EPushB == Is("PushB") /\ Begin("P", "push", Ev.v, 0) /\ UNCHANGED <<acc, taken, freed>> /\ Same
Room(f) == Len(acc) - f < cap - 1
\* know of the producer: the number of freed places it knows of; of the consumer: the number of accepted elements
Accept == /\ op["P"].k = "push" /\ ~op["P"].dec
          /\ \E f \in (IF weak THEN op["P"].know ELSE freed)..freed :
               Room(f) /\ op' = [op EXCEPT !["P"].dec = TRUE, !["P"].cnt = 1, !["P"].know = f]
          /\ acc' = Append(acc, op["P"].v) /\ UNCHANGED <<taken, freed>> /\ Stay
Refuse == /\ op["P"].k = "push" /\ ~op["P"].dec
          /\ \E f \in (IF weak THEN op["P"].know ELSE freed)..freed :
               ~Room(f) /\ op' = [op EXCEPT !["P"].dec = TRUE, !["P"].cnt = 0, !["P"].know = f]
          /\ UNCHANGED <<acc, taken, freed>> /\ Stay
EPushE == Is("PushE") /\ op["P"].k = "push" /\ op["P"].dec /\ (Ev.ok <=> op["P"].cnt = 1) /\ Finish("P") /\ UNCHANGED <<acc, taken, freed>> /\ Same

Min(a, b) == IF a < b THEN a ELSE b
EPopB == Is("PopB") /\ Begin("C", "pop", 0, Ev.n) /\ UNCHANGED <<acc, taken, freed>> /\ Same
Take == /\ op["C"].k = "pop" /\ ~op["C"].dec
        /\ \E w \in (IF weak THEN op["C"].know ELSE Len(acc))..Len(acc) :
             LET c == Min(w - taken, op["C"].n) IN
             /\ op' = [op EXCEPT !["C"].dec = TRUE, !["C"].cnt = c, !["C"].know = w]
             /\ taken' = taken + c
        /\ UNCHANGED <<acc, freed>> /\ Stay
Free == op["C"].k = "pop" /\ op["C"].dec /\ freed # taken /\ freed' = taken /\ UNCHANGED <<acc, taken, op>> /\ Stay
EPopE == /\ Is("PopE") /\ op["C"].k = "pop" /\ op["C"].dec /\ freed = taken
         /\ Ev.got = SubSeq(acc, taken - op["C"].cnt + 1, taken)
         /\ Finish("C") /\ UNCHANGED <<acc, taken, freed>> /\ Same

ELookB == Is("LookB") /\ Begin(Ev.t, "look", 0, 0) /\ UNCHANGED <<acc, taken, freed>> /\ Same
ESizeE == Is("SizeE") /\ op[Ev.t].k = "look" /\ (~op[Ev.t].racy /\ ~weak => Ev.n = Len(acc) - freed) /\ Finish(Ev.t) /\ UNCHANGED <<acc, taken, freed>> /\ Same
EEmptyE == Is("EmptyE") /\ op[Ev.t].k = "look" /\ (~op[Ev.t].racy /\ ~weak => (Ev.b <=> Len(acc) = freed)) /\ Finish(Ev.t) /\ UNCHANGED <<acc, taken, freed>> /\ Same
\* At the end of a weak execution everything is known: what was accepted came out.
TNext == EInit \/ EPushB \/ Accept \/ Refuse \/ EPushE \/ EPopB \/ Take \/ Free \/ EPopE \/ ELookB \/ ESizeE \/ EEmptyE
TSpec == TInit /\ [][TNext]_vars
=============================================================================
