------------------------------ MODULE CtfText ------------------------------
(* What babeltrace prints for an event, as text, and what has to be read from it. *)
EXTENDS Naturals, Sequences, FiniteSets
\* a field: [k |-> name, v |-> text as printed, i |-> "u" (decimal integer, not negative), "n" (negative), "x" (anything else)]
RECURSIVE Join(_, _)
Join(f, i) == IF i > Len(f) THEN "" ELSE (IF i > 1 THEN ", " ELSE "") \o f[i].k \o " = " \o f[i].v \o Join(f, i + 1)
Braces(f) == IF f = <<>> THEN "{ }" ELSE "{ " \o Join(f, 1) \o " }"
Render(a) == "[" \o a.ts \o "] " \o a.host \o " " \o a.dom \o ":" \o a.name \o ": " \o Braces(a.c[1]) \o ", " \o Braces(a.c[2]) \o ", " \o Braces(a.c[3])
\* values read: <<name, as unsigned, as signed>>
Reads(f, m) == /\ {m[j][1] : j \in DOMAIN m} = {f[i].k : i \in {j \in DOMAIN f : f[j].i # "x"}}
               /\ \A j \in DOMAIN m : \E i \in DOMAIN f : f[i].k = m[j][1] /\ f[i].v = (IF f[i].i = "u" THEN m[j][2] ELSE m[j][3])
=============================================================================
