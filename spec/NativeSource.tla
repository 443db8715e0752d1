---------------------------- MODULE NativeSource ----------------------------
(***************************************************************************)
(* Intervals of several native trace sources while data arrives. The       *)
(* provider looks which sources record, copies the data once and hands it  *)
(* to each of them, which looks again whether it still records; sources    *)
(* are started, stopped and finished by other threads at any time. What    *)
(* has to be in an interval: all that arrived after its start returned and *)
(* was handed on before its stop began. What must not be: what had been    *)
(* handed on before the start began, or arrived after the stop returned.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Sources, Msgs, Ops, Bug
VARIABLES pc, cur, todo,        \* who feeds: where, the message, sources left to hand it to
          in, data,             \* per source: its flag and what it recorded
          op, ops,              \* per source: the call being made of it; how many calls were made
          must, may,            \* per source: what has to be, and what can be in its interval
          flow, fhigh,          \* sources that have to get / can get the message being handed on
          res                   \* what was returned last, with what had to and could be in it
vars == <<pc, cur, todo, in, data, op, ops, must, may, flow, fhigh, res>>
None == [s |-> {}, must |-> {}, may |-> {}, dup |-> FALSE]
Init == /\ pc = "idle" /\ cur = 0 /\ todo = {} /\ in = [s \in Sources |-> FALSE] /\ data = [s \in Sources |-> <<>>]
        /\ op = [s \in Sources |-> "none"] /\ ops = 0 /\ must = [s \in Sources |-> {}] /\ may = [s \in Sources |-> {}]
        /\ flow = {} /\ fhigh = {} /\ res = None
ToSet(q) == {q[i] : i \in DOMAIN q}
Range1(s) == Len(data[s]) # Cardinality(ToSet(data[s]))
\* a source records for certain / perhaps
Certain(s) == in[s] /\ op[s] = "none"
Perhaps(s) == in[s] \/ op[s] # "none"
\* feeding
Arrive == /\ pc = "idle" /\ cur < Msgs /\ cur' = cur + 1 /\ pc' = "look" /\ flow' = {s \in Sources : Certain(s)} /\ fhigh' = {s \in Sources : Perhaps(s)}
          /\ UNCHANGED <<todo, in, data, op, ops, must, may, res>>
Look == /\ pc = "look" /\ todo' = (IF Bug = "first" /\ \E s \in Sources : in[s] THEN {CHOOSE s \in Sources : in[s]} ELSE {s \in Sources : in[s]}) /\ pc' = "hand"
        /\ UNCHANGED <<cur, in, data, op, ops, must, may, flow, fhigh, res>>
Hand(s) == /\ pc = "hand" /\ s \in todo /\ todo' = todo \ {s}
           /\ data' = IF in[s] \/ Bug = "nocheck" THEN [data EXCEPT ![s] = Append(@, cur)] ELSE data
           /\ UNCHANGED <<pc, cur, in, op, ops, must, may, flow, fhigh, res>>
Handed == /\ pc = "hand" /\ todo = {} /\ pc' = "idle"
          /\ must' = [s \in Sources |-> IF s \in flow THEN must[s] \cup {cur} ELSE must[s]]
          /\ may' = [s \in Sources |-> IF s \in fhigh THEN may[s] \cup {cur} ELSE may[s]]
          /\ flow' = {} /\ fhigh' = {} /\ UNCHANGED <<cur, todo, in, data, op, ops, res>>
\* calls: begin, steps, return
Begin(s, o) == /\ op[s] = "none" /\ ops < Ops /\ ops' = ops + 1 /\ op' = [op EXCEPT ![s] = o]
               /\ flow' = flow \ {s} /\ fhigh' = (IF o = "start" /\ pc # "idle" THEN fhigh \cup {s} ELSE fhigh)
               /\ must' = (IF o = "start" THEN [must EXCEPT ![s] = {}] ELSE must)
               /\ may' = (IF o = "start" THEN [may EXCEPT ![s] = {}] ELSE may)
               /\ UNCHANGED <<pc, cur, todo, in, data, res>>
Start(s) == /\ op[s] = "start" /\ op' = [op EXCEPT ![s] = "started"] /\ in' = [in EXCEPT ![s] = TRUE]
            /\ data' = (IF Bug = "noclear" THEN data ELSE [data EXCEPT ![s] = <<>>])
            /\ UNCHANGED <<pc, cur, todo, ops, must, may, flow, fhigh, res>>
Started(s) == /\ op[s] = "started" /\ op' = [op EXCEPT ![s] = "none"] /\ UNCHANGED <<pc, cur, todo, in, data, ops, must, may, flow, fhigh, res>>
Stop(s) == /\ op[s] \in {"stop", "finish"} /\ op' = [op EXCEPT ![s] = IF @ = "stop" THEN "stopped" ELSE "take"]
           /\ in' = (IF Bug = "allstop" THEN [x \in Sources |-> FALSE] ELSE IF Bug = "nostop" /\ op[s] = "finish" THEN in ELSE [in EXCEPT ![s] = FALSE])
           /\ UNCHANGED <<pc, cur, todo, data, ops, must, may, flow, fhigh, res>>
Stopped(s) == /\ op[s] = "stopped" /\ op' = [op EXCEPT ![s] = "none"] /\ UNCHANGED <<pc, cur, todo, in, data, ops, must, may, flow, fhigh, res>>
Take(s) == /\ op[s] = "take" /\ op' = [op EXCEPT ![s] = "none"]
           /\ res' = [s |-> ToSet(data[s]), must |-> must[s], may |-> may[s] \cup (IF s \in fhigh THEN {cur} ELSE {}), dup |-> Range1(s)]
           /\ data' = (IF Bug = "keep" THEN data ELSE [data EXCEPT ![s] = <<>>])
           /\ must' = [must EXCEPT ![s] = {}] /\ may' = [may EXCEPT ![s] = {}] /\ fhigh' = fhigh \ {s} /\ flow' = flow \ {s}
           /\ UNCHANGED <<pc, cur, todo, in, ops>>
Next == Arrive \/ Look \/ Handed \/ \E s \in Sources : Hand(s) \/ Start(s) \/ Started(s) \/ Stop(s) \/ Stopped(s) \/ Take(s) \/ \E o \in {"start", "stop", "finish"} : Begin(s, o)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Complete == res.must \subseteq res.s
Only == res.s \subseteq res.may
Once == ~res.dup
InOrder == \A s \in Sources : \A i, j \in DOMAIN data[s] : i < j => data[s][i] < data[s][j]
=============================================================================
