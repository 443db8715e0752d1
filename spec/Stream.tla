------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* The parser that reads the output of babeltrace: waits for data, reads   *)
(* what there is (some characters), keeps an incomplete line, and passes   *)
(* each complete one to all callbacks under a lock, with the lock of each  *)
(* callback held while it runs. Callbacks are added and disabled at any    *)
(* time, the output ends or the parser is halted at any time.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Cs,      \* callbacks
          Len1,    \* number of characters of each line, with its end
          Buf,     \* how many characters are read at once at most
          Halts, Bug
VARIABLES w, closed,           \* characters written, no more to come
          r, d,                \* characters read, lines passed on
          pc, cur, todo, run,  \* parser: what it does, the line, callbacks left, the one that runs
          reg,                 \* set of registered callbacks
          st, from, got,       \* of each callback: state, first line it must see, lines it saw
          halt                 \* "no", "asked" (flag set), "done" (set of callbacks cleared)
vars == <<w, closed, r, d, pc, cur, todo, run, reg, st, from, got, halt>>
Sum[i \in 0..Len(Len1)] == IF i = 0 THEN 0 ELSE Len1[i] + Sum[i - 1]
Total == Sum[Len(Len1)]
Complete(n) == Cardinality({i \in 1..Len(Len1) : Sum[i] <= n})
Init == /\ w = 0 /\ closed = FALSE /\ r = 0 /\ d = 0 /\ pc = "select" /\ cur = 0 /\ todo = {} /\ run = 0 /\ reg = {}
        /\ st = [c \in Cs |-> "new"] /\ from = [c \in Cs |-> 0] /\ got = [c \in Cs |-> <<>>] /\ halt = "no"
Locked == pc = "pass"     \* the parser holds the lock of the set
Write == w < Total /\ ~closed /\ w' = w + 1 /\ UNCHANGED <<closed, r, d, pc, cur, todo, run, reg, st, from, got, halt>>
Close == ~closed /\ closed' = TRUE /\ UNCHANGED <<w, r, d, pc, cur, todo, run, reg, st, from, got, halt>>
\* -- callbacks
Set(c) == /\ st[c] = "new" /\ ~Locked /\ reg' = reg \cup {c} /\ st' = [st EXCEPT ![c] = "on"]
          /\ from' = [from EXCEPT ![c] = IF halt = "no" THEN Complete(w) + 1 ELSE 99]
          /\ UNCHANGED <<w, closed, r, d, pc, cur, todo, run, got, halt>>
Disable(c) == /\ st[c] = "on" /\ (run # c \/ Bug = "nowait") /\ st' = [st EXCEPT ![c] = "off"]
              /\ UNCHANGED <<w, closed, r, d, pc, cur, todo, run, reg, from, got, halt>>
\* -- the parser
Stopped == halt # "no" /\ Bug # "deaf"
Buffered == Complete(r) > d
Read == /\ pc = "select" /\ ~Stopped /\ r < w
        /\ \E n \in 1..(IF w - r < Buf THEN w - r ELSE Buf) : r' = r + n
        /\ pc' = "split" /\ UNCHANGED <<w, closed, d, cur, todo, run, reg, st, from, got, halt>>
\* the mistaken design takes one line and waits for more, although there are others in the buffer
Split == /\ pc = "split"
         /\ IF Complete(r) > d
            THEN /\ pc' = "pass" /\ cur' = d + 1 /\ d' = d + 1 /\ todo' = reg
                 /\ (Bug = "snapshot" => todo' = {c \in reg : st[c] = "on"})
            ELSE pc' = "select" /\ UNCHANGED <<cur, d, todo>>
         /\ UNCHANGED <<w, closed, r, run, reg, st, from, got, halt>>
Invoke == /\ pc = "pass" /\ run = 0 /\ todo # {}
          /\ \E c \in todo : /\ todo' = todo \ {c}
                             /\ IF st[c] = "on" \/ Bug = "snapshot" THEN run' = c /\ got' = [got EXCEPT ![c] = Append(@, cur)] /\ reg' = reg
                                ELSE reg' = reg \ {c} /\ UNCHANGED <<run, got>>
          /\ UNCHANGED <<w, closed, r, d, pc, cur, st, from, halt>>
Return == /\ run # 0 /\ run' = 0 /\ UNCHANGED <<w, closed, r, d, pc, cur, todo, reg, st, from, got, halt>>
Passed == /\ pc = "pass" /\ run = 0 /\ todo = {} /\ pc' = (IF Bug = "buffered" THEN "select" ELSE "split")
          /\ UNCHANGED <<w, closed, r, d, cur, todo, run, reg, st, from, got, halt>>
AtEnd == closed /\ (IF Bug = "eof" THEN TRUE ELSE r = w)
End == /\ pc = "select" /\ (Stopped \/ AtEnd) /\ pc' = "end" /\ UNCHANGED <<w, closed, r, d, cur, todo, run, reg, st, from, got, halt>>
Ask == Halts /\ halt = "no" /\ halt' = "asked" /\ UNCHANGED <<w, closed, r, d, pc, cur, todo, run, reg, st, from, got>>
Clear == halt = "asked" /\ ~Locked /\ halt' = "done" /\ reg' = {} /\ UNCHANGED <<w, closed, r, d, pc, cur, todo, run, st, from, got>>
Parser == Read \/ Split \/ Invoke \/ Return \/ Passed \/ End
Next == Write \/ Close \/ Parser \/ Ask \/ Clear \/ \E c \in Cs : Set(c) \/ Disable(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Parser) /\ WF_vars(Clear)
\* each line once and in order, none left out
Once == \A c \in Cs : \A i \in DOMAIN got[c] : i > 1 => got[c][i] = got[c][i - 1] + 1
Start == \A c \in Cs : got[c] # <<>> => got[c][1] <= from[c]
\* not after it was disabled
Over == \A c \in Cs : st[c] = "off" => run # c
Never == [][\A c \in Cs : st[c] = "off" => got'[c] = got[c]]_vars
\* everything that arrived has been delivered before the parser waits for more
Seen(c, n) == n < from[c] \/ \E i \in DOMAIN got[c] : got[c][i] = n
AllSeen == \A c \in Cs : st[c] = "on" => \A n \in 1..Complete(w) : Seen(c, n)
Prompt == pc = "select" /\ r = w /\ halt = "no" => AllSeen
Ended == pc = "end" /\ halt = "no" => AllSeen
Ends == (halt # "no" \/ closed) ~> pc = "end"
=============================================================================
