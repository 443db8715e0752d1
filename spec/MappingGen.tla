----------------------------- MODULE MappingGen -----------------------------
(* Processes that execute trace macros, one at a time and in parallel, and when the client asks. Process p runs program 1 or 2. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs, Threads, NSites, MaxLen
VARIABLES script, par, links, dead, held, done, w
vars == <<script, par, links, dead, held, done, w>>
R(s) == RandomElement(s)
Bad == {"throw", "broken", "error", "garbage", "nothing", "none"}
Say(x) == script' = Append(script, x)
Init == script = <<>> /\ par = FALSE /\ links = {} /\ dead = {} /\ held = {} /\ done = FALSE /\ w = 0
Step ==
  /\ w' = R(1..100)
  /\ \E p \in {R(Procs)}, k \in {R(Threads)}, s \in {R(1..NSites)} :
     IF links = {} \/ (w' <= 10 /\ ~par) THEN
        \E i \in {R({1, 2})}, m \in {IF links = {} \/ R(1..100) <= 60 THEN "ok" ELSE IF R(1..100) <= 8 THEN "silent" ELSE R(Bad)} :
           Say([op |-> "link", p |-> p, i |-> i, m |-> m]) /\ links' = links \cup {<<p, i>>} /\ UNCHANGED <<par, dead, held>>
     ELSE IF w' <= 12 /\ ~par THEN \E x \in {R(links)} : Say([op |-> "unlink", p |-> x[1], i |-> x[2]]) /\ links' = links \ {x} /\ UNCHANGED <<par, dead, held>>
     ELSE IF w' <= 13 /\ ~par /\ Cardinality(dead) + 1 < Cardinality(Procs) THEN
        Say([op |-> "kill", p |-> p]) /\ dead' = dead \cup {p} /\ held' = held \ {p} /\ UNCHANGED <<links, par>>
     ELSE IF w' <= 18 /\ held = {} THEN Say([op |-> IF par THEN "seq" ELSE "par"]) /\ par' = ~par /\ UNCHANGED <<links, dead, held>>
     ELSE IF w' <= 35 THEN Say([op |-> "q"]) /\ UNCHANGED <<par, links, dead, held>>
     ELSE IF w' <= 40 /\ <<p, 1>> \in links THEN Say([op |-> "direct", p |-> p]) /\ UNCHANGED <<par, links, dead, held>>
     ELSE IF p \in dead THEN Say([op |-> "q"]) /\ UNCHANGED <<par, links, dead, held>>
     ELSE IF p \in held THEN Say([op |-> "unhold", p |-> p]) /\ held' = held \ {p} /\ UNCHANGED <<par, links, dead>>
     ELSE IF w' <= 50 /\ ~par THEN Say([op |-> "race", p |-> p, s |-> s]) /\ held' = held \cup {p} /\ UNCHANGED <<par, links, dead>>
     ELSE Say([op |-> "x", p |-> p, k |-> k, s |-> s, v |-> R(1..7)]) /\ UNCHANGED <<par, links, dead, held>>
Next == IF done THEN FALSE ELSE IF Len(script) >= MaxLen THEN done' = TRUE /\ UNCHANGED <<script, par, links, dead, held, w>> ELSE Step /\ UNCHANGED done
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(script))
=============================================================================
