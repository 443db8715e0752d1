------------------------------ MODULE SiteGen ------------------------------
(* Places in a source that execute a trace macro: kind, name, series, file and line (numbers of texts; the replayer writes the source). *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS NNames, NSeries, NFiles, NLines, N
VARIABLES sites, done
R(s) == RandomElement(s)
Kinds == {"raii", "raii", "pretty", "pair", "cross", "markg", "markp", "markt", "count", "series", "series2"}
Init == sites = <<>> /\ done = FALSE
Next == IF done THEN FALSE ELSE IF Len(sites) >= N THEN done' = TRUE /\ UNCHANGED sites
        ELSE /\ sites' = Append(sites, [kind |-> R(Kinds), name |-> R(1..NNames), series |-> R(1..NSeries), file |-> IF R(1..10) <= 6 THEN 1 ELSE R(1..NFiles), line |-> R(1..NLines)])
             /\ UNCHANGED done
Spec == Init /\ [][Next]_<<sites, done>>
Emit == done => PrintT("@@" \o ToJson(sites))
=============================================================================
