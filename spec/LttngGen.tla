---------------------------- MODULE LttngGen ----------------------------
(* Events in any order of time from several processes and threads, and intervals of several sources. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Sources, MaxLen
VARIABLES script, open, ready, dead, style, done
vars == <<script, open, ready, dead, style, done>>
R(s) == RandomElement(s)
Kind == {"entry", "exit", "global", "process", "thread"}
Defect == {"notid", "nopid", "novalue", "unknown", "domain", "cut", "junk", "blank"}
Op(x) == script' = Append(script, x)
\* a style makes coincidences likely: few times, few processes, mostly counters
Init == script = <<>> /\ open = {} /\ ready = {} /\ dead = {} /\ style = [t |-> 0] /\ done = FALSE
Event == \E t \in {R(0..(style.t - 1))}, p \in {R(style.p)}, tid \in {R(1..4)}, id \in {R(1..9)}, cid \in {R(3..(3 + style.i - 3))}, v \in {R(1..8)}, w \in {R(1..100)}, u \in {R(1..100)} :
         LET k == IF w <= style.d THEN R(Defect) ELSE IF u <= style.c THEN "count" ELSE R(Kind) IN
         Op([op |-> "ev", t |-> t, p |-> p, tid |-> tid, k |-> k, id |-> IF u <= style.c THEN cid ELSE id, v |-> v])
Step == \E w \in {R(1..100)}, s \in {R(Sources)} :
  IF open = {} \/ w <= 5 THEN Op([op |-> "start", s |-> s]) /\ open' = open \cup {s} /\ ready' = ready \cup {s} /\ UNCHANGED dead
  ELSE IF w <= 8 THEN Op([op |-> "stop", s |-> s]) /\ open' = open \ {s} /\ UNCHANGED <<ready, dead>>
  ELSE IF w <= 16 /\ s \in ready THEN Op([op |-> "finish", s |-> s]) /\ open' = open \ {s} /\ ready' = ready \ {s} /\ UNCHANGED dead
  ELSE IF w <= 17 THEN Op([op |-> "drop", s |-> s]) /\ open' = open \ {s} /\ ready' = ready \ {s} /\ UNCHANGED dead
  ELSE IF w <= 18 /\ Cardinality(dead) < 2 THEN \E p \in {R({1, 2, 3})} : Op([op |-> "kill", s |-> p]) /\ dead' = dead \cup {p} /\ UNCHANGED <<open, ready>>
  ELSE IF w <= 20 THEN Op([op |-> "mode", s |-> R({1, 2, 3} \ dead), m |-> R({"ok", "ok", "throw", "broken", "error", "garbage"})]) /\ UNCHANGED <<open, ready, dead>>
  ELSE Event /\ UNCHANGED <<open, ready, dead>>
Close == IF ready = {} THEN done' = TRUE /\ UNCHANGED <<script, open, ready, dead>>
         ELSE \E s \in {R(ready)} : Op([op |-> "finish", s |-> s]) /\ ready' = ready \ {s} /\ open' = open \ {s} /\ UNCHANGED <<dead, done>>
Style == \E t \in {R({1, 2, 4, 12})}, p \in {R({{1}, {1, 2}, {1, 2, 3, 9}, {9, 3}})}, c \in {R({10, 50, 90})}, d \in {R({0, 5, 30})}, i \in {R({3, 9})} : style' = [t |-> t, p |-> p, c |-> c, d |-> d, i |-> i]
Next == ~done /\ IF style.t = 0 THEN Style /\ UNCHANGED <<script, open, ready, dead, done>> ELSE UNCHANGED style /\ IF Len(script) >= MaxLen THEN Close ELSE Step /\ UNCHANGED done
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(script))
=============================================================================
