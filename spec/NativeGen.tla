----------------------------- MODULE NativeGen -----------------------------
(* Threads that start, record, overflow and end while the sender comes, goes, is slow or held. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, MaxLen
VARIABLES script, run, held, style, done
vars == <<script, run, held, style, done>>
R(s) == RandomElement(s)
Say(x) == script' = script \o x
Kinds == {"entry", "exit", "markg", "markp", "markt", "count", "count"}
Init == script = <<>> /\ run = {} /\ held = FALSE /\ style = "" /\ done = FALSE
Begin == /\ style' \in {R({"few", "many", "churn", "full"})}
         /\ Say(<<[op |-> "ring", n |-> R(IF style' = "full" THEN {2, 3, 5, 9} ELSE {4, 16, 100, 10000})]>>
                \o R({<<>>, <<>>, <<[op |-> "mk"], [op |-> "nap", n |-> 15000]>>, <<[op |-> "attach"]>>}))
         /\ UNCHANGED <<run, held>>
N == CASE style = "few" -> {1, 1, 2, 3} [] style = "many" -> {1, 40, 300} [] style = "churn" -> {1, 2, 10} [] style = "full" -> {1, 2, 4, 8, 12, 20}
Rec(s) == [op |-> "rec", s |-> s, k |-> R({"entry", "exit", "markg", "markp", "markt", "count"}), n |-> R(N), v |-> R(0..14), g |-> R({0, 0, 0, 200, 3000})]
Step == \E w \in {R(1..100)}, s \in {R(Slots)} :
  IF w <= 55 THEN Say((IF s \in run THEN <<>> ELSE <<[op |-> "start", s |-> s]>>) \o <<Rec(s)>> \o (IF w <= 20 THEN <<Rec(s), Rec(s)>> ELSE <<>>)) /\ run' = run \cup {s} /\ UNCHANGED held
  ELSE IF w <= (IF style = "churn" THEN 75 ELSE 65) THEN
       Say((IF s \notin run THEN <<[op |-> "start", s |-> s], Rec(s)>> ELSE <<>>)
           \o (IF R(1..3) = 1 THEN <<[op |-> "late", s |-> s, k |-> R({"entry", "count", "markg"}), n |-> R({1, 3}), v |-> R(0..14)]>> ELSE <<>>)
           \o <<[op |-> "end", s |-> s]>> \o (IF R(1..2) = 1 THEN <<[op |-> "start", s |-> s], Rec(s)>> ELSE <<>>))
       /\ run' = run \ {s} /\ UNCHANGED held
  ELSE IF w <= 83 THEN IF held THEN Say(<<[op |-> "release"]>>) /\ held' = FALSE /\ UNCHANGED run ELSE Say(<<[op |-> "hold"]>>) /\ held' = TRUE /\ UNCHANGED run
  ELSE IF w <= 87 THEN Say(<<[op |-> "nap", n |-> R({100, 3000, 12000, 25000})]>>) /\ UNCHANGED <<run, held>>
  ELSE IF w <= 90 THEN Say(<<[op |-> "slow", n |-> R({0, 0, 2000, 20000})]>>) /\ UNCHANGED <<run, held>>
  ELSE IF w <= 93 THEN Say(<<[op |-> "drop"]>> \o R({<<>>, <<[op |-> "mk"], [op |-> "nap", n |-> 15000]>>, <<[op |-> "attach"]>>})) /\ held' = FALSE /\ UNCHANGED run
  ELSE IF w <= 94 THEN Say(<<[op |-> "ring", n |-> R({2, 4, 7, 50})]>>) /\ UNCHANGED <<run, held>>
  ELSE Say(<<[op |-> "settle"]>>) /\ held' = FALSE /\ UNCHANGED run
Next == ~done /\ IF style = "" THEN Begin /\ UNCHANGED done
                 ELSE UNCHANGED style /\ IF Len(script) >= MaxLen THEN done' = TRUE /\ UNCHANGED <<script, run, held>> ELSE Step /\ UNCHANGED done
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(script))
=============================================================================
