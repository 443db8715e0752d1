---------------------------- MODULE NativeSourceGen ----------------------------
(* Messages of several processes with events of several threads in any order of time, and intervals of several sources. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Sources, MaxLen
VARIABLES script, open, ready, dead, style, done
vars == <<script, open, ready, dead, style, done>>
R(s) == RandomElement(s)
Kind == {"entry", "exit", "global", "process", "thread"}
Defect == {"empty", "random", "nopid", "noevents", "badpid", "badevents", "short", "badtime", "type", "novalue", "text", "cut", "deep", "long"}
Op(x) == script' = Append(script, x)
Init == script = <<>> /\ open = {} /\ ready = {} /\ dead = {} /\ style = [t |-> 0] /\ done = FALSE
One(u) == IF u <= style.c THEN [t |-> R(0..(style.t - 1)), tid |-> R(1..4), k |-> "count", id |-> R(3..style.i), v |-> R(1..8)]
          ELSE [t |-> R(0..(style.t - 1)), tid |-> R(1..4), k |-> R(Kind), id |-> R(1..9), v |-> 1]
Message == \E p \in {R(style.p)}, n \in {R(0..style.n)}, w \in {R(1..100)} :
           IF w <= style.d THEN \E k \in {R(Defect)}, m \in {R(1..3)} : Op([op |-> "bad", k |-> k, p |-> p, w |-> R(0..1), evs |-> [i \in 1..m |-> One(R(1..100))]])
           ELSE Op([op |-> "ev", p |-> p, evs |-> [i \in 1..n |-> One(R(1..100))]])
Step == \E w \in {R(1..100)}, s \in {R(Sources)} :
  IF open = {} \/ w <= 6 THEN Op([op |-> "start", s |-> s, w |-> R(style.w)]) /\ open' = open \cup {s} /\ ready' = ready \cup {s} /\ UNCHANGED dead
  ELSE IF w <= 10 THEN Op([op |-> "stop", s |-> s, w |-> R(style.w)]) /\ open' = open \ {s} /\ UNCHANGED <<ready, dead>>
  ELSE IF w <= 19 /\ s \in ready THEN Op([op |-> "finish", s |-> s, w |-> R(style.w)]) /\ open' = open \ {s} /\ ready' = ready \ {s} /\ UNCHANGED dead
  ELSE IF w <= 13 /\ s \notin open THEN Op([op |-> "finish", s |-> s, w |-> R(style.w)]) /\ UNCHANGED <<open, ready, dead>>
  ELSE IF w <= 20 THEN Op([op |-> "drop", s |-> s, w |-> 1]) /\ open' = open \ {s} /\ ready' = ready \ {s} /\ UNCHANGED dead
  ELSE IF w <= 21 /\ Cardinality(dead) < 2 THEN \E p \in {R({1, 2, 3})} : Op([op |-> "kill", s |-> p, w |-> 0]) /\ dead' = dead \cup {p} /\ UNCHANGED <<open, ready>>
  ELSE IF w <= 23 THEN Op([op |-> "mode", s |-> R({1, 2, 3} \ dead), m |-> R({"ok", "ok", "throw", "broken", "error", "garbage"}), w |-> 0]) /\ UNCHANGED <<open, ready, dead>>
  ELSE IF w <= 24 THEN Op([op |-> "log", s |-> R({0, 1}), w |-> 1]) /\ UNCHANGED <<open, ready, dead>>
  ELSE Message /\ UNCHANGED <<open, ready, dead>>
Close == IF ready = {} THEN done' = TRUE /\ UNCHANGED <<script, open, ready, dead, style>>
         ELSE IF style.g THEN Op([op |-> "gone", s |-> 0, w |-> 1]) /\ style' = [style EXCEPT !.g = FALSE] /\ UNCHANGED <<open, ready, dead, done>>
         ELSE \E s \in {R(ready)} : Op([op |-> "finish", s |-> s, w |-> 1]) /\ ready' = ready \ {s} /\ open' = open \ {s} /\ UNCHANGED <<dead, done, style>>
Style == \E t \in {R({1, 2, 4, 12})}, p \in {R({{1}, {1, 2}, {1, 2, 3, 9}, {9, 3}})}, c \in {R({10, 50, 90})}, d \in {R({0, 5, 30})}, i \in {R({3, 4, 9})}, n \in {R({1, 3, 6})}, w \in {R({{1}, {0, 1}, {0}})}, g \in {R({TRUE, FALSE, FALSE, FALSE, FALSE, FALSE})} :
         style' = [t |-> t, p |-> p, c |-> c, d |-> d, i |-> i, n |-> n, w |-> w, g |-> g]
Next == ~done /\ IF style.t = 0 THEN Style /\ UNCHANGED <<script, open, ready, dead, done>>
                 ELSE IF Len(script) >= MaxLen THEN Close ELSE Step /\ UNCHANGED <<style, done>>
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(script))
=============================================================================
