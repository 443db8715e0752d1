---------------------------- MODULE TraceConfig ----------------------------
(***************************************************************************)
(* Which trace points are recorded: the process state, the states of the   *)
(* threads, the scoped macros that change and restore them, and the remote *)
(* configuration that does so from another thread, step by step as it is   *)
(* done. A thread's state lives in a cell that is registered under the     *)
(* thread's id when the thread first needs it and is removed at its exit;  *)
(* ids are reused.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Ids, MaxInst, MaxOps, MaxDepth, Bug
VARIABLES p,        \* process state
          cell,     \* id -> the registered cell, 0 if none
          val,      \* cell -> state
          th,       \* id -> the thread running under it
          rem,      \* the remote command in progress
          nc, ni, ops, bad
vars == <<p, cell, val, th, rem, nc, ni, ops, bad>>
B == BOOLEAN
Off == [run |-> FALSE, pc |-> "idle", c |-> 0, sp |-> {}, st |-> {}, a |-> FALSE, stk |-> <<>>]
Calm == [pc |-> "idle", snap |-> <<>>, set |-> <<>>, todo |-> {}, sp |-> FALSE, p |-> FALSE, rp |-> FALSE, rt |-> <<>>, seenP |-> {}, seenT |-> {}, must |-> {}, may |-> {}]
Init == /\ p = TRUE /\ cell = [i \in Ids |-> 0] /\ val = <<>> /\ th = [i \in Ids |-> Off] /\ rem = Calm
        /\ nc = 0 /\ ni = 0 /\ ops = 0 /\ bad = FALSE
\* What a thread that needs its state finds: the new cell or the registered one.
Registers(i, c, vv, cc, n) == IF cell[i] # 0 THEN c = cell[i] /\ vv = val /\ cc = cell /\ n = nc
                              ELSE c = nc + 1 /\ vv = Append(val, TRUE) /\ cc = [cell EXCEPT ![i] = nc + 1] /\ n = nc + 1
\* The observers: what a trace point or a remote command may have seen of the states while it went on.
SawP(f, v) == [i \in Ids |-> [f[i] EXCEPT !.sp = @ \cup {v}]]
SawT(f, c, v) == [i \in Ids |-> IF f[i].c = c /\ f[i].run THEN [f[i] EXCEPT !.st = @ \cup {v}] ELSE f[i]]
RSawT(r, i, v) == [r EXCEPT !.seenT = @ \cup {<<i, v>>}]
Op == ops < MaxOps /\ ops' = ops + 1

Start(i) == /\ Op /\ ~th[i].run /\ ni < MaxInst /\ ni' = ni + 1
            /\ th' = [th EXCEPT ![i] = [Off EXCEPT !.run = TRUE]] /\ UNCHANGED <<p, cell, val, rem, nc, bad>>
Exit(i) == /\ Op /\ th[i].run /\ th[i].pc = "idle" /\ th[i].stk = <<>>
           /\ th' = [th EXCEPT ![i] = Off]
           /\ cell' = IF Bug = "outlive" THEN cell ELSE [cell EXCEPT ![i] = 0]
           /\ rem' = [rem EXCEPT !.must = @ \ {i}]
           /\ UNCHANGED <<p, val, nc, ni, bad>>
\* first use registers: it is observed by the remote command that is going on
Note(r, i, isnew) == IF isnew THEN [r EXCEPT !.may = @ \cup {i}, !.seenT = @ \cup {<<i, TRUE>>}] ELSE r
TpBegin(i) ==
  /\ Op /\ th[i].run /\ th[i].pc = "idle"
  /\ \E c \in 1..(nc + 1), vv \in {val, Append(val, TRUE)}, cc \in {cell, [cell EXCEPT ![i] = nc + 1]}, n \in {nc, nc + 1} :
       /\ Registers(i, c, vv, cc, n)
       /\ val' = vv /\ cell' = cc /\ nc' = n
       \* truth: a thread that never configured anything is enabled
       /\ th' = [th EXCEPT ![i].pc = "tpP", ![i].c = c, ![i].sp = {p}, ![i].st = {IF th[i].c = 0 /\ Bug = "outlive" THEN TRUE ELSE vv[c]}]
       /\ rem' = Note(rem, i, n # nc)
  /\ UNCHANGED <<p, ni, bad>>
TpReadP(i) ==
  /\ th[i].pc = "tpP"
  /\ th' = [th EXCEPT ![i].pc = IF p \/ Bug = "or" THEN "tpT" ELSE "end", ![i].a = IF Bug = "or" THEN p ELSE FALSE]
  /\ UNCHANGED <<p, cell, val, rem, nc, ni, ops, bad>>
TpReadT(i) ==
  /\ th[i].pc = "tpT"
  /\ th' = [th EXCEPT ![i].pc = "end", ![i].a = IF Bug = "or" THEN @ \/ val[th[i].c] ELSE val[th[i].c]]
  /\ UNCHANGED <<p, cell, val, rem, nc, ni, ops, bad>>
TpEnd(i) ==
  /\ th[i].pc = "end"
  /\ bad' = (bad \/ ~(IF th[i].a THEN TRUE \in th[i].sp /\ TRUE \in th[i].st ELSE FALSE \in th[i].sp \/ FALSE \in th[i].st))
  /\ th' = [th EXCEPT ![i].pc = "idle", ![i].a = FALSE, ![i].sp = {}, ![i].st = {}]
  /\ UNCHANGED <<p, cell, val, rem, nc, ni, ops>>
\* Scoped changes, and plain ones (a scope that is never left by itself is left before exit: both are covered by it)
PutP(v) == p' = v /\ rem' = [rem EXCEPT !.seenP = @ \cup {v}] /\ UNCHANGED <<cell, val, nc>>
Push(i, isp, v) ==
  /\ Op /\ th[i].run /\ th[i].pc = "idle" /\ Len(th[i].stk) < MaxDepth
  /\ IF isp
     THEN /\ PutP(v) /\ th' = SawP([th EXCEPT ![i].stk = Append(@, [isp |-> TRUE, prev |-> p, was |-> p])], v)
     ELSE \E c \in 1..(nc + 1), vv \in {val, Append(val, TRUE)}, cc \in {cell, [cell EXCEPT ![i] = nc + 1]}, n \in {nc, nc + 1} :
          /\ Registers(i, c, vv, cc, n)
          /\ val' = [vv EXCEPT ![c] = v] /\ cell' = cc /\ nc' = n /\ p' = p
          /\ th' = SawT([th EXCEPT ![i].c = c, ![i].stk = Append(@, [isp |-> FALSE, prev |-> vv[c], was |-> vv[c]])], c, v)
          /\ rem' = RSawT(Note(rem, i, n # nc), i, v)
  /\ UNCHANGED <<ni, bad>>
Pop(i) ==
  /\ th[i].run /\ th[i].pc = "idle" /\ th[i].stk # <<>>
  /\ LET s == th[i].stk[Len(th[i].stk)]
         back == IF Bug = "restore_on" THEN TRUE ELSE s.prev
         t2 == [th EXCEPT ![i].stk = SubSeq(@, 1, Len(@) - 1)] IN
     /\ IF s.isp THEN PutP(back) /\ th' = SawP(t2, back)
        ELSE /\ val' = [val EXCEPT ![th[i].c] = back] /\ th' = SawT(t2, th[i].c, back) /\ rem' = RSawT(rem, i, back) /\ UNCHANGED <<p, cell, nc>>
     /\ bad' = (bad \/ back # s.was)
  /\ UNCHANGED <<ni, ops>>

\* Remote: the map is copied, then the process state is stored, then the states of the threads, then all is read back.
RBegin ==
  /\ Op /\ rem.pc = "idle"
  /\ \E cmd \in {"get", "set"}, sp \in B, v \in B, ids \in SUBSET Ids, w \in B :
       /\ cmd = "get" => ~sp /\ ~v /\ ids = {} /\ ~w
       /\ rem' = [Calm EXCEPT !.pc = "p", !.snap = cell, !.sp = sp, !.p = v, !.set = [i \in ids |-> w], !.todo = ids, !.seenP = {p},
                              !.seenT = {<<i, val[cell[i]]>> : i \in {j \in Ids : cell[j] # 0}},
                              !.must = {j \in Ids : cell[j] # 0}, !.may = {j \in Ids : cell[j] # 0}]
  /\ UNCHANGED <<p, cell, val, th, nc, ni, bad>>
RStoreP ==
  /\ rem.pc = "p"
  /\ IF rem.sp \/ (Bug = "always_p" /\ DOMAIN rem.set # {})
     THEN p' = rem.p /\ th' = SawP(th, rem.p) /\ rem' = [rem EXCEPT !.pc = "t", !.seenP = IF rem.sp THEN {rem.p} ELSE @]
     ELSE UNCHANGED <<p, th>> /\ rem' = [rem EXCEPT !.pc = "t"]
  /\ UNCHANGED <<cell, val, nc, ni, ops, bad>>
RStoreT ==
  /\ rem.pc = "t" /\ rem.todo # {}
  /\ \E i \in rem.todo :
       LET c == rem.snap[i] IN
       IF c # 0
       THEN /\ val' = [val EXCEPT ![c] = rem.set[i]]
            /\ th' = SawT(th, c, rem.set[i])
            /\ rem' = [rem EXCEPT !.todo = @ \ {i}, !.seenT = IF cell[i] = c THEN {x \in @ : x[1] # i} \cup {<<i, rem.set[i]>>} ELSE @]
            /\ UNCHANGED <<cell, nc>>
       ELSE IF Bug = "creates" /\ cell[i] = 0
       THEN /\ val' = Append(val, rem.set[i]) /\ nc' = nc + 1 /\ cell' = [cell EXCEPT ![i] = nc + 1]
            /\ rem' = [rem EXCEPT !.todo = @ \ {i}, !.snap[i] = nc + 1] /\ UNCHANGED th
       ELSE rem' = [rem EXCEPT !.todo = @ \ {i}] /\ UNCHANGED <<val, th, cell, nc>>
  /\ UNCHANGED <<p, ni, ops, bad>>
RReadP == /\ rem.pc = "t" /\ (rem.todo = {} \/ Bug = "early_reply") /\ rem' = [rem EXCEPT !.pc = "r", !.rp = p]
          /\ UNCHANGED <<p, cell, val, th, nc, ni, ops, bad>>
RReadT == /\ rem.pc = "r"
          /\ \E i \in Ids : i \notin DOMAIN rem.rt /\ rem.snap[i] # 0
               /\ rem' = [rem EXCEPT !.rt = [x \in DOMAIN @ \cup {i} |-> IF x = i THEN val[rem.snap[i]] ELSE @[x]]]
          /\ UNCHANGED <<p, cell, val, th, nc, ni, ops, bad>>
REnd == /\ rem.pc = "r" /\ \A i \in Ids : rem.snap[i] # 0 => i \in DOMAIN rem.rt
        /\ rem' = Calm
        /\ bad' = (bad \/ rem.rp \notin rem.seenP \/ ~(rem.must \subseteq DOMAIN rem.rt) \/ ~(DOMAIN rem.rt \subseteq rem.may)
                       \/ (\E i \in DOMAIN rem.rt : i \in rem.must /\ <<i, rem.rt[i]>> \notin rem.seenT)
                       \/ (rem.sp = FALSE /\ Bug = "always_p" /\ p # rem.rp)
                       \/ (\E i \in rem.must : i \in DOMAIN rem.set /\ i \in rem.todo))
        /\ UNCHANGED <<p, cell, val, th, nc, ni, ops>>
Next == \/ \E i \in Ids : Start(i) \/ Exit(i) \/ TpBegin(i) \/ TpReadP(i) \/ TpReadT(i) \/ TpEnd(i) \/ Pop(i) \/ (\E isp \in B, v \in B : Push(i, isp, v))
        \/ RBegin \/ RStoreP \/ RStoreT \/ RReadP \/ RReadT \/ REnd
Spec == Init /\ [][Next]_vars
Truth == ~bad
\* A thread's state does not outlive it, and nobody else's creates one.
NoLeftover == \A i \in Ids : cell[i] # 0 => th[i].run /\ th[i].c = cell[i]
\* Only what was asked: the process state is changed by scopes and by remote commands that ask for it.
OnlyAsked == [][p' # p => (rem.pc = "p" /\ rem.sp) \/ \E i \in Ids : th'[i].stk # th[i].stk]_vars
\* One thread's state never changes another's.
Own == [][\A i, j \in Ids : i # j /\ cell[j] # 0 /\ cell'[j] = cell[j] /\ th'[i].stk # th[i].stk => val'[cell[j]] = val[cell[j]]]_vars
=============================================================================
