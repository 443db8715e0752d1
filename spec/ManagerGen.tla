----------------------------- MODULE ManagerGen -----------------------------
(* Histories of servers around the endpoint manager, with changes between and in the middle of rounds. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Servers, MaxLen, MaxHooks, CanBusy
VARIABLES script, live, busy, hooks, nb, done
vars == <<script, live, busy, hooks, nb, done>>
Offers == {{"a"}, {"a", "b"}, {"b", "x"}, {"a", "b", "n", "x"}, {}, {"c"}, {"a", "c"}}
Say(x) == script' = Append(script, x)
Init == script = <<>> /\ live = {} /\ busy = {} /\ hooks = <<>> /\ nb = 0 /\ done = FALSE
Appear == \E s \in Servers, o \in Offers : s \notin live /\ live' = live \cup {s} /\ Say([op |-> "appear", s |-> s, eps |-> o]) /\ UNCHANGED <<busy, hooks, nb, done>>
Vanish == \E s \in live : live' = live \ {s} /\ Say([op |-> "vanish", s |-> s]) /\ UNCHANGED <<busy, hooks, nb, done>>
Restart == \E s \in live, o \in Offers : script' = script \o <<[op |-> "vanish", s |-> s], [op |-> "appear", s |-> s, eps |-> o]>> /\ UNCHANGED <<live, busy, hooks, nb, done>>
Busy == \E s \in Servers, how \in {"busy", "garbage"} : CanBusy /\ s \notin busy /\ nb < 3 /\ nb' = nb + 1 /\ busy' = busy \cup {s} /\ Say([op |-> how, s |-> s]) /\ UNCHANGED <<live, hooks, done>>
Free == \E s \in busy : busy' = busy \ {s} /\ Say([op |-> "free", s |-> s]) /\ UNCHANGED <<live, hooks, nb, done>>
Fact == \E n \in {"a", "b", "c"} : n \notin {script[i].n : i \in {j \in DOMAIN script : script[j].op = "fact"}} /\ Say([op |-> "fact", n |-> n]) /\ UNCHANGED <<live, busy, hooks, nb, done>>
\* something happens at the n-th discover, connect or question of the next round
Hook == \E pt \in {"disc", "conn", "ask"}, n \in 1..3, s \in Servers, act \in {"appear", "vanish", "restart"}, o \in Offers :
          /\ Len(hooks) < MaxHooks
          /\ hooks' = Append(hooks, [pt |-> pt, n |-> n, act |-> act, s |-> s, eps |-> o])
          /\ UNCHANGED <<script, live, busy, nb, done>>
Round == Say([op |-> "round", hooks |-> hooks]) /\ hooks' = <<>> /\ UNCHANGED <<live, busy, nb, done>>
Next == IF done THEN FALSE
        ELSE IF Len(script) >= MaxLen THEN done' = TRUE /\ UNCHANGED <<script, live, busy, hooks, nb>>
        ELSE Appear \/ Vanish \/ Restart \/ Busy \/ Free \/ Fact \/ (script # <<>> /\ (Hook \/ Round))
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(script))
=============================================================================
