------------------------------- MODULE MapGen -------------------------------
(* Small programs for threads that share a map. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Keys, Registry
VARIABLES prog, n, done
vars == <<prog, n, done>>
Str(k) == CASE k = 1 -> "1" [] k = 2 -> "2" [] k = 3 -> "3" [] k = 4 -> "4" [] OTHER -> "5"
Ops(v) == {"i" \o Str(k) \o ToString(v) : k \in Keys} \cup {"v" \o Str(k) : k \in Keys} \cup {"m"}
           \cup (IF Registry THEN {} ELSE {"e" \o Str(k) : k \in Keys} \cup {"x" \o Str(k) : k \in Keys} \cup {"c"})
Init == prog \in {<<<<>>, <<>>, <<>>>>, <<<<>>, <<>>, <<>>, <<>>>>} /\ n = 0 /\ done = FALSE
\* the first sequence is what happens before; nobody does more than two things
Next == IF done THEN FALSE
        ELSE IF n >= 2 * Len(prog) - 1 THEN done' = TRUE /\ UNCHANGED <<prog, n>>
        ELSE /\ n' = n + 1 /\ UNCHANGED done
             /\ \E i \in 1..Len(prog) : /\ i = (n % Len(prog)) + 1
                  /\ \E o \in (IF i = 1 THEN {"i" \o Str(k) \o ToString(n + 10) : k \in Keys} ELSE Ops(n + 10)) :
                       prog' = [prog EXCEPT ![i] = Append(@, o)]
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(prog))
=============================================================================
