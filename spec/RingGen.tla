------------------------------ MODULE RingGen ------------------------------
(* Programs of a producer and a consumer of a ring buffer. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxCap, MaxOps
VARIABLES cap, rot, fill, p, c, st
vars == <<cap, rot, fill, p, c, st>>
Init == cap \in 1..MaxCap /\ rot \in 0..MaxCap /\ rot < cap /\ fill \in 0..MaxCap /\ fill < cap /\ p = "" /\ c = "" /\ st = 0
POps == {"u", "s", "e"}
COps == {"p", "b0", "b1", "b2", "b3", "b9", "s", "e"}
Steps == MaxOps
Next == /\ st < Steps /\ st' = st + 1 /\ UNCHANGED <<cap, rot, fill>>
        \* now and then one of them does more
        /\ \E x \in {"u"} \cup (IF st = 0 THEN {"uu"} ELSE POps), y \in COps : p' = p \o x /\ c' = c \o y
        /\ st' = Steps => PrintT("@@" \o ToJson([cap |-> cap, rot |-> rot, fill |-> fill, p |-> p', c |-> c']))
Spec == Init /\ [][Next]_vars
=============================================================================
