---------------------------- MODULE ProcInfoGen ----------------------------
(* Histories of processes and their threads, and when the client asks. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs, Threads, MaxLen
VARIABLES script, run, par, links, dead, done, w
vars == <<script, run, par, links, dead, done, w>>
R(s) == RandomElement(s)
Names == 1..9
Bad == {"silent", "throw", "broken", "error", "garbage", "nothing", "none"}
Say(x) == script' = script \o x
Op(x) == Say(<<x>>)
Init == script = <<>> /\ run = {} /\ par = FALSE /\ links = {} /\ dead = {} /\ done = FALSE /\ w = 0
Live == Procs \ dead
Start(p, k) == IF <<p, k>> \in run THEN Op([op |-> "name", p |-> p, k |-> k, n |-> R(Names), how |-> R({"set", "m1", "m2"})]) /\ run' = run
               ELSE Op([op |-> "start", p |-> p, k |-> k]) /\ run' = run \cup {<<p, k>>}
Exit(p, k) == IF <<p, k>> \in run THEN Op([op |-> "exit", p |-> p, k |-> k]) /\ run' = run \ {<<p, k>>} ELSE Start(p, k)
\* a thread takes another's place, most likely with its id
Again(p, k) == IF <<p, k>> \in run
               THEN /\ Say(<<[op |-> "name", p |-> p, k |-> k, n |-> R(Names), how |-> "set"], [op |-> "exit", p |-> p, k |-> k], [op |-> "start", p |-> p, k |-> k]>>
                           \o (IF R(BOOLEAN) THEN <<[op |-> "q", s |-> 0], [op |-> "name", p |-> p, k |-> k, n |-> R(Names), how |-> "m1"]>> ELSE <<>>) \o <<[op |-> "q", s |-> 0]>>)
                    /\ run' = run
               ELSE Start(p, k)
Step ==
  /\ w' = R(1..100)
  /\ \E p \in {R(Procs)}, k \in {R(Threads)} :
     IF links = {} \/ (w' <= 10 /\ ~par) THEN
        \E i \in {R({1, 2})}, m \in {IF links = {} \/ R(1..100) <= 55 THEN "ok" ELSE IF R(1..100) <= 12 THEN "silent" ELSE R(Bad \ {"silent"})} :
        Op([op |-> "link", p |-> p, i |-> i, m |-> m]) /\ links' = links \cup {<<p, i>>} /\ UNCHANGED <<run, par, dead>>
     ELSE IF w' <= 13 /\ ~par THEN \E x \in {R(links)} : Op([op |-> "unlink", p |-> x[1], i |-> x[2]]) /\ links' = links \ {x} /\ UNCHANGED <<run, par, dead>>
     ELSE IF w' <= 14 /\ ~par /\ Cardinality(dead) + 1 < Cardinality(Procs) THEN
        Op([op |-> "kill", p |-> p]) /\ dead' = dead \cup {p} /\ run' = {x \in run : x[1] # p} /\ UNCHANGED <<links, par>>
     ELSE IF w' <= 19 THEN Op([op |-> IF par THEN "seq" ELSE "par"]) /\ par' = ~par /\ UNCHANGED <<run, links, dead>>
     ELSE IF w' <= 38 THEN Op([op |-> "q", s |-> R(0..2)]) /\ UNCHANGED <<run, par, links, dead>>
     ELSE IF w' <= 45 /\ <<p, 1>> \in links THEN Op([op |-> "info", p |-> p]) /\ UNCHANGED <<run, par, links, dead>>
     ELSE IF p \in dead THEN Op([op |-> "q", s |-> 0]) /\ UNCHANGED <<run, par, links, dead>>
     ELSE IF w' <= 50 THEN Op([op |-> "pname", p |-> p, n |-> R(Names)]) /\ UNCHANGED <<run, par, links, dead>>
     ELSE IF w' <= 54 THEN Op([op |-> "name", p |-> p, k |-> 0, n |-> R(Names), how |-> R({"set", "m1"})]) /\ UNCHANGED <<run, par, links, dead>>
     ELSE /\ UNCHANGED <<par, links, dead>>
          /\ IF w' <= 80 THEN Start(p, k) ELSE IF w' <= 90 THEN Exit(p, k) ELSE Again(p, k)
Next == IF done THEN FALSE ELSE IF Len(script) >= MaxLen THEN done' = TRUE /\ UNCHANGED <<script, run, par, links, dead, w>> ELSE Step /\ UNCHANGED done
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(script))
=============================================================================
