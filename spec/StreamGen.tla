----------------------------- MODULE StreamGen -----------------------------
(* Output in pieces, callbacks that come and go, ends and halts. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Clients, MaxLen
VARIABLES script, up, on, calm, done
vars == <<script, up, on, calm, done>>
R(s) == RandomElement(s)
Say(x) == script' = script \o x
Op(x) == Say(<<x>>)
Init == script = <<>> /\ up = FALSE /\ on = {} /\ calm = 2 /\ done = FALSE
Sync == IF calm = 1 THEN <<[op |-> "settle"]>> ELSE <<>>
Clean == [i \in 1..3 |-> [op |-> "dis", c |-> i]]     \* a new stream starts without callbacks of the last one
Step == \E w \in {R(1..100)}, c \in {R(Clients)} :
  IF ~up THEN IF w <= 25 THEN Op([op |-> "set", c |-> c, n |-> R({0, 0, 300})]) /\ on' = on \cup {c} /\ UNCHANGED up
              ELSE Op([op |-> "stream", a |-> R({"", "", "", "now"})]) /\ up' = TRUE /\ UNCHANGED on
  ELSE IF w <= 45 THEN Say(<<[op |-> "lines", n |-> R({1, 1, 2, 3, 8}), how |-> R({"whole", "joined", "split", "bytes", "part"}), kind |-> R({"ev", "ev", "long", "empty", "same", "odd"})]>> \o Sync) /\ UNCHANGED <<up, on>>
  ELSE IF w <= 65 THEN /\ Say((IF c \in on THEN <<[op |-> "dis", c |-> c]>> ELSE <<>>) \o <<[op |-> "set", c |-> c, n |-> R({0, 0, 100, 1500}), k |-> R({0, 0, 0, 1, 3})]>> \o Sync) /\ on' = on \cup {c} /\ UNCHANGED up
  ELSE IF w <= 78 THEN IF c \in on THEN Say(<<[op |-> "dis", c |-> c]>> \o Sync) /\ on' = on \ {c} /\ UNCHANGED up
                       ELSE Say(<<[op |-> "set", c |-> c, n |-> 0], [op |-> "again", c |-> c]>> \o Sync) /\ on' = on \cup {c} /\ UNCHANGED up
  ELSE IF w <= 90 THEN Op([op |-> R({"settle", "settle", "sync"})]) /\ UNCHANGED <<up, on>>
  ELSE IF w <= 93 THEN Op([op |-> "nap", n |-> R({100, 3000, 15000})]) /\ UNCHANGED <<up, on>>
  ELSE IF w <= 96 THEN Say(<<[op |-> "eof"], [op |-> R({"settle", "nap", "sync"}), n |-> 20000], [op |-> R({"halt", "destroy"})], [op |-> "halt"]>> \o Clean \o <<[op |-> "sync"]>>) /\ up' = FALSE /\ on' = {}
  ELSE IF w <= 99 THEN Say(<<[op |-> R({"halt", "halt", "destroy"})], [op |-> "halt"]>> \o Clean \o <<[op |-> "sync"]>>) /\ up' = FALSE /\ on' = {}
  ELSE Op([op |-> "nap", n |-> 1]) /\ UNCHANGED <<up, on>>
Next == ~done /\ IF calm = 2 THEN calm' \in {R({0, 0, 1})} /\ UNCHANGED <<script, up, on, done>>
                 ELSE UNCHANGED calm /\ IF Len(script) >= MaxLen THEN done' = TRUE /\ UNCHANGED <<script, up, on>> ELSE Step /\ UNCHANGED done
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(script))
=============================================================================
