------------------------------ MODULE CtfTrace ------------------------------
(* What the implementation read from lines of babeltrace, whole, cut off and damaged, against what they say. *)
EXTENDS TraceBase, CtfText
VARIABLE evs      \* the events the lines were made of
tvars == <<tr, l, evs>>
TInit == TraceStart /\ evs = <<>>
EScript == Is("Script") /\ evs = <<>> /\ evs' = Ev.a
A == evs[Ev.i]
EWhole == /\ Is("Whole") /\ UNCHANGED evs
          /\ Ev.line = Render(A) \o Ev.tail /\ Ev.kept
          /\ Ev.t = Ev.wt /\ Ev.dom = A.dom /\ Ev.name = A.name
          /\ \A i \in 1..3 : Reads(A.c[i], Ev.c[i])
          /\ LET has(k) == {j \in DOMAIN A.c[2] : A.c[2][j].k = k /\ A.c[2][j].i # "x"} IN
             /\ (Ev.pid = "none") <=> (has("vpid") = {})
             /\ (Ev.tid = "none") <=> (has("pthread_id") = {})
             /\ \A j \in DOMAIN Ev.c[2] : (Ev.c[2][j][1] = "vpid" => Ev.pid = Ev.c[2][j][2]) /\ (Ev.c[2][j][1] = "pthread_id" => Ev.tid = Ev.c[2][j][2])
\* a line that was cut: nothing but what the whole line says
ECut == /\ Is("Cut") /\ UNCHANGED evs /\ Ev.kept
        /\ Ev.t \in {Ev.wt, "0"} /\ Ev.dom \in {A.dom, ""} /\ Ev.name \in {A.name, ""}
        /\ \A i \in 1..3 : Ev.c[i] = <<>> \/ Reads(A.c[i], Ev.c[i])
\* any other text: parsed, with the same result each time
EOdd == Is("Odd") /\ UNCHANGED evs /\ Ev.same
EAgain == Is("Again") /\ UNCHANGED evs /\ Ev.same
EDone == Is("Done") /\ UNCHANGED evs
TNext == EScript \/ EWhole \/ ECut \/ EOdd \/ EAgain \/ EDone
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
