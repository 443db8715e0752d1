--------------------------- MODULE DiscoveryTrace ---------------------------
(***************************************************************************)
(* Validates recorded executions. The calls overlap, so each call is       *)
(* judged against what was the case throughout it, or at some moment of    *)
(* it: sure and may accumulate that for the calls in progress.             *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES st,    \* process -> "idle", "starting", "up", "stopping", "gone"
          inc,   \* process -> number of successful serves
          calls, \* call in progress (its process) -> [sure, may]: sets of <<process, incarnation>>
          conns  \* connection -> [to, inc, ok]
tvars == <<tr, l, st, inc, calls, conns>>
TInit == TraceStart /\ st = <<>> /\ inc = <<>> /\ calls = <<>> /\ conns = <<>>

Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Known(p) == p \in DOMAIN st
Sure == {<<p, inc[p]>> : p \in {q \in DOMAIN st : st[q] = "up"}}
\* a process that is about to serve does so under its next incarnation
May == {<<p, inc[p]>> : p \in {q \in DOMAIN st : st[q] \in {"up", "stopping", "going"}}}
       \cup {<<p, inc[p] + 1>> : p \in {q \in DOMAIN st : st[q] \in {"starting", "going"}}}
Gained(x) == [k \in DOMAIN calls |-> [calls[k] EXCEPT !.may = @ \cup {x}]]
Lost(p) == [k \in DOMAIN calls |-> [calls[k] EXCEPT !.sure = {y \in @ : y[1] # p}]]

EBorn == Is("Born") /\ st' = Set(st, Ev.p, "idle") /\ inc' = Set(inc, Ev.p, 0) /\ UNCHANGED <<calls, conns>>
EServeB == /\ Is("ServeB") /\ Known(Ev.p)
           /\ IF st[Ev.p] = "idle" THEN st' = Set(st, Ev.p, "starting") /\ calls' = Gained(<<Ev.p, inc[Ev.p] + 1>>)
              ELSE UNCHANGED <<st, calls>>
           /\ UNCHANGED <<inc, conns>>
EServeE == /\ Is("ServeE") /\ Known(Ev.p)
           /\ CASE st[Ev.p] = "starting" -> Ev.ok = TRUE /\ st' = Set(st, Ev.p, "up") /\ inc' = Set(inc, Ev.p, inc[Ev.p] + 1)
                [] st[Ev.p] = "up" -> Ev.ok = FALSE /\ UNCHANGED <<st, inc>>    \* serving twice is refused
                [] OTHER -> st[Ev.p] = "going" /\ UNCHANGED <<st, inc>>
           /\ UNCHANGED <<calls, conns>>
EStopB == /\ Is("StopB") /\ Known(Ev.p)
          /\ st' = IF st[Ev.p] = "up" THEN Set(st, Ev.p, "stopping") ELSE st
          /\ calls' = Lost(Ev.p) /\ UNCHANGED <<inc, conns>>
EStopE == /\ Is("StopE") /\ Known(Ev.p) /\ st' = IF st[Ev.p] = "stopping" THEN Set(st, Ev.p, "idle") ELSE st
          /\ UNCHANGED <<inc, calls, conns>>
EGoneB == Is("GoneB") /\ Known(Ev.p) /\ st' = Set(st, Ev.p, "going") /\ calls' = Lost(Ev.p) /\ UNCHANGED <<inc, conns>>
EGoneE == Is("GoneE") /\ Ev.ok = TRUE /\ st' = Set(st, Ev.p, "gone") /\ calls' = Del(calls, Ev.p) /\ UNCHANGED <<inc, conns>>

Enter == calls' = Set(calls, Ev.p, [sure |-> Sure, may |-> May])
Leave == Ev.p \in DOMAIN calls /\ calls' = Del(calls, Ev.p)
Call == calls[Ev.p]

EDiscB == Is("DiscB") /\ Enter /\ UNCHANGED <<st, inc, conns>>
Times(p) == Cardinality({k \in DOMAIN Ev.list : Ev.list[k] = p})
EDiscE == /\ Is("DiscE") /\ Leave /\ UNCHANGED <<st, inc, conns>>
          /\ Ev.other = 0
          /\ \A p \in DOMAIN st : /\ (\E y \in Call.sure : y[1] = p) => Times(p) = 1
                                  /\ (\A y \in Call.may : y[1] # p) => Times(p) = 0
                                  /\ Times(p) <= 1
EConnB == Is("ConnB") /\ Enter /\ conns' = Set(conns, Ev.i, [to |-> Ev.to, ok |-> FALSE, who |-> {}]) /\ UNCHANGED <<st, inc>>
EConnE == /\ Is("ConnE") /\ Leave /\ UNCHANGED <<st, inc>> /\ Ev.i \in DOMAIN conns
          /\ LET to == conns[Ev.i].to IN
             /\ Ev.ok = TRUE => \E y \in Call.may : y[1] = to
             /\ Ev.ok = FALSE => \A y \in Call.sure : y[1] # to
             /\ conns' = Set(conns, Ev.i, [to |-> to, ok |-> Ev.ok, who |-> {y \in Call.may : y[1] = to}])
EUseB == Is("UseB") /\ Enter /\ UNCHANGED <<st, inc, conns>>
Name(y) == ToString(y[1]) \o "." \o ToString(y[2])
\* An answer comes from the server that was connected to; and it comes if that server is surely up all the time.
EUseE == /\ Is("UseE") /\ Leave /\ UNCHANGED <<st, inc, conns>> /\ Ev.i \in DOMAIN conns /\ conns[Ev.i].ok
         /\ \/ \E y \in conns[Ev.i].who : Name(y) = Ev.who
            \/ Ev.who = "fail" /\ \E y \in conns[Ev.i].who : y \notin Call.sure
EDrop == Is("Drop") /\ UNCHANGED <<st, inc, calls, conns>>
EAlien == Is("Alien") /\ Ev.ok = FALSE /\ UNCHANGED <<st, inc, calls, conns>>
EDone == Is("Done") /\ UNCHANGED <<st, inc, calls, conns>>
TNext == EBorn \/ EServeB \/ EServeE \/ EStopB \/ EStopE \/ EGoneB \/ EGoneE \/ EDiscB \/ EDiscE \/ EConnB \/ EConnE \/ EUseB \/ EUseE
         \/ EDrop \/ EAlien \/ EDone
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
