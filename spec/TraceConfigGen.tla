--------------------------- MODULE TraceConfigGen ---------------------------
(* Programs for threads with trace points, scopes and configuration changes, and for remote configuration. "go" waits for everything. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, MaxLen, Remote, Par   \* Remote, Par in per cent of the steps
VARIABLES script, run, stk, par, done, w
vars == <<script, run, stk, par, done, w>>
Say(x) == script' = script \o x
Init == script = <<>> /\ run = {} /\ stk = [k \in Threads |-> <<>>] /\ par = FALSE /\ done = FALSE /\ w = 0
B == BOOLEAN
Kinds == {"entry", "exit", "markg", "markp", "markt", "count"}
Start == \E k \in Threads : k \notin run /\ run' = run \cup {k} /\ Say(<<[op |-> "start", k |-> k]>>) /\ UNCHANGED <<stk, par, done>>
Tp == \E k \in run, kind \in Kinds : Say(<<[op |-> "tp", k |-> k, kind |-> kind]>>) /\ UNCHANGED <<run, stk, par, done>>
SetS == \E k \in run, isp \in B, v \in B : Say(<<[op |-> "set", k |-> k, p |-> isp, v |-> v]>>) /\ UNCHANGED <<run, stk, par, done>>
GetS == \E k \in run, isp \in B : Say(<<[op |-> "get", k |-> k, p |-> isp]>>) /\ UNCHANGED <<run, stk, par, done>>
Push == \E k \in run, isp \in B, v \in B : Len(stk[k]) < 4 /\ stk' = [stk EXCEPT ![k] = Append(@, 1)]
          /\ Say(<<[op |-> "push", k |-> k, p |-> isp, v |-> v]>>) /\ UNCHANGED <<run, par, done>>
Pop == \E k \in run, how \in {"pop", "throw"} : stk[k] # <<>> /\ stk' = [stk EXCEPT ![k] = SubSeq(@, 1, Len(@) - 1)]
          /\ Say(<<[op |-> how, k |-> k]>>) /\ UNCHANGED <<run, par, done>>
RECURSIVE Pops(_, _)
Pops(k, n) == IF n = 0 THEN <<>> ELSE <<[op |-> "pop", k |-> k]>> \o Pops(k, n - 1)
Exit == \E k \in run : run' = run \ {k} /\ stk' = [stk EXCEPT ![k] = <<>>] /\ Say(Pops(k, Len(stk[k])) \o <<[op |-> "exit", k |-> k]>>) /\ UNCHANGED <<par, done>>
\* a thread ends and another takes its place, most likely with the same id
Again == \E k \in run, v \in B : stk[k] = <<>> /\ Say(<<[op |-> "set", k |-> k, p |-> FALSE, v |-> v], [op |-> "exit", k |-> k], [op |-> "start", k |-> k],
                                               [op |-> "tp", k |-> k, kind |-> "markt"]>>) /\ UNCHANGED <<run, stk, par, done>>
\* 9 stands for an id that no thread ever had
RemoteOp == \E r \in {1, 2} : (r = 2 => par) /\
   \/ Say(<<[op |-> "rget", r |-> r]>>) /\ UNCHANGED <<run, stk, par, done>>
   \/ \E sp \in B, v \in B : LET on == RandomElement(SUBSET Threads)
                               off == RandomElement(SUBSET (Threads \cup {9})) IN
        Say(<<[op |-> "rset", r |-> r, sp |-> sp, v |-> v, on |-> on, off |-> off \ on]>>) /\ UNCHANGED <<run, stk, par, done>>
ToPar == par' = ~par /\ Say(<<[op |-> IF par THEN "seq" ELSE "par"]>>) /\ UNCHANGED <<run, stk, done>>
Go == par /\ Say(<<[op |-> "go"]>>) /\ UNCHANGED <<run, stk, par, done>>
Next == IF done THEN FALSE
        ELSE IF Len(script) >= MaxLen THEN done' = TRUE /\ UNCHANGED <<script, run, stk, par, w>>
        ELSE /\ w' = RandomElement(1..100)
             /\ IF run = {} THEN Start
                ELSE IF w' <= 35 THEN Tp
                ELSE IF w' <= 35 + Remote THEN RemoteOp
                ELSE IF w' <= 35 + Remote + Par THEN (ToPar \/ Go)
                ELSE IF w' > 92 THEN Again
                ELSE Start \/ SetS \/ GetS \/ Push \/ Pop \/ Exit
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(script))
=============================================================================
