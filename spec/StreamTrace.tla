---------------------------- MODULE StreamTrace ----------------------------
(* Which lines callbacks of the real parser saw, and when, against what had been written by then. *)
EXTENDS TraceBase
VARIABLES up, ws, opt, halt,      \* running, lines whose end has been (or is being) written, an incomplete last one, halted
          st, low, from, last, run   \* of each callback: state, bounds for its first line, which may be its last line (lines can read the same), running
tvars == <<tr, l, up, ws, opt, halt, st, low, from, last, run>>
TInit == TraceStart /\ up = FALSE /\ ws = 0 /\ opt = FALSE /\ halt = FALSE /\ st = <<>> /\ low = <<>> /\ from = <<>> /\ last = <<>> /\ run = {}
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
MinOf(s) == CHOOSE x \in s : \A y \in s : y >= x
MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x
\* everything has been delivered to those that must have seen it
Caught(s) == \A c \in DOMAIN st : st[c] = "on" /\ from[c] <= ws => last[c] \cap ({ws} \cup IF opt THEN {ws + 1} ELSE {}) # {}
EStream == Is("Stream") /\ ~up /\ up' = TRUE /\ ws' = 0 /\ opt' = FALSE /\ halt' = FALSE /\ last' = [c \in DOMAIN last |-> {0}] /\ low' = [c \in DOMAIN low |-> 0]
           /\ from' = [c \in DOMAIN from |-> 1] /\ UNCHANGED <<st, run>>
EWr == Is("Wr") /\ ws' = Ev.n /\ UNCHANGED <<up, opt, halt, st, low, from, last, run>>
ESetB == /\ Is("SetB") /\ st' = Set(st, Ev.c, "adding") /\ low' = Set(low, Ev.c, MaxOf({MinOf(last[c]) : c \in DOMAIN last} \cup {0})) /\ from' = Set(from, Ev.c, 0) /\ last' = Set(last, Ev.c, {0})
         /\ UNCHANGED <<up, ws, opt, halt, run>>
ESetE == Is("SetE") /\ st' = (IF st[Ev.c] # "adding" THEN st ELSE Set(st, Ev.c, IF halt THEN "any" ELSE "on")) /\ from' = Set(from, Ev.c, IF opt THEN ws + 2 ELSE ws + 1) /\ UNCHANGED <<up, ws, opt, halt, low, last, run>>
EDisB == Is("DisB") /\ st' = (IF st[Ev.c] = "off" THEN st ELSE Set(st, Ev.c, "leaving")) /\ UNCHANGED <<up, ws, opt, halt, low, from, last, run>>
EDisE == Is("DisE") /\ Ev.c \notin run /\ st' = Set(st, Ev.c, "off") /\ UNCHANGED <<up, ws, opt, halt, low, from, last, run>>
ECbB == /\ Is("CbB") /\ up /\ st[Ev.c] # "off" /\ Ev.c \notin run
        /\ \E now \in {{i \in {Ev.is[k] : k \in 1..Len(Ev.is)} :
                     /\ i <= (IF opt THEN ws + 1 ELSE ws)
                     /\ IF 0 \notin last[Ev.c] THEN i - 1 \in last[Ev.c]
                        ELSE i >= 1 /\ i >= low[Ev.c] /\ (from[Ev.c] # 0 => i <= from[Ev.c])}} :
             now # {} /\ last' = Set(last, Ev.c, IF Ev.frag = 1 THEN {-5} ELSE now)
        /\ (Ev.frag = 1 => opt /\ halt)           \* the beginning of a line, as there was no more: nothing follows
        /\ run' = run \cup {Ev.c} /\ UNCHANGED <<up, ws, opt, halt, st, low, from>>
ECbE == Is("CbE") /\ Ev.c \in run /\ run' = run \ {Ev.c} /\ UNCHANGED <<up, ws, opt, halt, st, low, from, last>>
ESettled == Is("Settled") /\ (up /\ ~halt => Caught(ws)) /\ UNCHANGED <<up, ws, opt, halt, st, low, from, last, run>>
EEof == Is("Eof") /\ opt' = (Ev.part = 1) /\ UNCHANGED <<up, ws, halt, st, low, from, last, run>>
\* the tool ends babeltrace: what there was of a line is then the last one
EHaltB == Is("HaltB") /\ halt' = TRUE /\ opt' = (opt \/ Ev.ends = 1) /\ st' = [c \in DOMAIN st |-> IF st[c] = "on" THEN "any" ELSE st[c]] /\ UNCHANGED <<up, ws, low, from, last, run>>
EHaltE == Is("HaltE") /\ UNCHANGED <<up, ws, opt, halt, st, low, from, last, run>>
\* at the end of the output what there is of a last line counts as one
AllOf == \A c \in DOMAIN st : st[c] = "on" => (from[c] <= ws + 1 => ws + 1 \in last[c])
EEnd == Is("End") /\ up /\ (~halt => IF opt THEN AllOf ELSE Caught(ws)) /\ run = {} /\ up' = FALSE /\ halt' = FALSE /\ UNCHANGED <<ws, opt, st, low, from, last, run>>
EDone == Is("Done") /\ UNCHANGED <<up, ws, opt, halt, st, low, from, last, run>>
\* the text of a line that isn't any
EText == Is("Text") /\ UNCHANGED <<up, ws, opt, halt, st, low, from, last, run>>
TNext == EText \/ EStream \/ EWr \/ ESetB \/ ESetE \/ EDisB \/ EDisE \/ ECbB \/ ECbE \/ ESettled \/ EEof \/ EHaltB \/ EHaltE \/ EEnd \/ EDone
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
