---------------------------- MODULE NativeSourceTrace ----------------------------
(* Entries that native trace sources returned for their intervals, against the messages that arrived in them, also *)
(* while the calls were made. *)
EXTENDS TraceBase, Entries
VARIABLES sc,      \* the scenario: evs (events of each message), names (of process and id)
          st,      \* source -> "no", "yes" or "maybe" recording
          got,     \* source -> messages of its interval: number, whether it must have got them
          mute,    \* processes that do not tell their names
          fl,      \* the message arriving: [i, low, high] number, sources that have to and that can get it
          gone     \* the provider
tvars == <<tr, l, sc, st, got, mute, fl, gone>>
NoFl == [i |-> 0, low |-> {}, high |-> {}]
TInit == TraceStart /\ sc = <<>> /\ st = <<>> /\ got = <<>> /\ mute = {} /\ fl = NoFl /\ gone = FALSE
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, v) == IF k \in DOMAIN f THEN f[k] ELSE v
Nm(p, id) == IF p \in mute \/ p > Len(sc.names) \/ (p <= Len(sc.names) /\ sc.names[p][id].full = "")
             THEN LET u == "?" \o ToString(id) IN [full |-> u, cn |-> u, cs |-> sc.series] ELSE sc.names[p][id]
EScript == Is("Script") /\ sc = <<>> /\ sc' = Ev.sc /\ UNCHANGED <<st, got, mute, fl, gone>>
EKill == Is("Kill") /\ mute' = mute \cup {Ev.p} /\ UNCHANGED <<sc, st, got, fl, gone>>
EMode == Is("Mode") /\ mute' = (IF Ev.m = "ok" THEN mute \ {Ev.p} ELSE mute \cup {Ev.p}) /\ UNCHANGED <<sc, st, got, fl, gone>>
EDrop == Is("Drop") /\ fl = NoFl /\ st' = Set(st, Ev.s, "no") /\ got' = Set(got, Ev.s, <<>>) /\ UNCHANGED <<sc, mute, fl, gone>>
EGone == Is("Gone") /\ fl = NoFl /\ gone' = TRUE /\ UNCHANGED <<sc, st, got, mute, fl>>
EEvB == /\ Is("EvB") /\ fl = NoFl /\ UNCHANGED <<sc, st, got, mute, gone>>
        /\ fl' = [i |-> Ev.i, low |-> {s \in DOMAIN st : st[s] = "yes"}, high |-> {s \in DOMAIN st : st[s] # "no"}]
EEvE == /\ Is("EvE") /\ fl.i = Ev.i /\ UNCHANGED <<sc, st, mute, gone>> /\ fl' = NoFl
        /\ got' = [s \in DOMAIN got |-> IF ~gone /\ s \in fl.high THEN Append(got[s], <<Ev.i, s \in fl.low>>) ELSE got[s]]
EOp == /\ Is("Op") /\ UNCHANGED <<sc, mute, gone>>
       /\ st' = Set(st, Ev.s, IF Ev.op = "start" \/ Get(st, Ev.s, "no") = "yes" THEN "maybe" ELSE "no")
       /\ got' = (IF Ev.op = "start" THEN Set(got, Ev.s, <<>>) ELSE got)
       /\ fl' = [fl EXCEPT !.low = @ \ {Ev.s}, !.high = IF Ev.op = "start" /\ fl.i # 0 THEN @ \cup {Ev.s} ELSE @]
EStart == Is("Start") /\ st' = Set(st, Ev.s, "yes") /\ UNCHANGED <<sc, got, mute, fl, gone>>
EStop == Is("Stop") /\ st' = Set(st, Ev.s, "no") /\ UNCHANGED <<sc, got, mute, fl, gone>>
Range(s) == {s[i] : i \in DOMAIN s}
Entry(e) == [e EXCEPT !.args = Range(e.args)]
Matches(evs) == LET want == TLCEval(Expected(evs, Nm)) IN
                /\ Len(Ev.res) = Len(want)
                /\ \A i \in DOMAIN want : Entry(Ev.res[i]) = want[i] /\ Len(Ev.res[i].args) = Cardinality(want[i].args)
\* the messages that it might not have got: any selection of them, of the right number of events
RECURSIVE Joined(_)
Joined(q) == IF q = <<>> THEN <<>> ELSE sc.evs[Head(q)] \o Joined(Tail(q))
Fits(g) == LET opts == {k \in DOMAIN g : ~g[k][2] /\ sc.evs[g[k][1]] # <<>>}
               pick(sub) == LET ks == SelectSeq([k \in DOMAIN g |-> k], LAMBDA k : g[k][2] \/ k \in sub) IN [n \in DOMAIN ks |-> g[ks[n]][1]] IN
           \E sub \in SUBSET opts : LET evs == TLCEval(Joined(pick(sub))) IN Len(evs) = Len(Ev.res) /\ Matches(evs)
EFinish == /\ Is("Finish") /\ st' = Set(st, Ev.s, "no") /\ UNCHANGED <<sc, mute, gone>>
           /\ IF gone THEN Ev.res = <<>>
              ELSE Fits(Get(got, Ev.s, <<>>) \o IF Ev.s \in fl.high THEN <<<<fl.i, FALSE>>>> ELSE <<>>)
           /\ got' = Set(got, Ev.s, <<>>) /\ fl' = [fl EXCEPT !.high = @ \ {Ev.s}]
EDone == Is("Done") /\ UNCHANGED <<sc, st, got, mute, fl, gone>>
TNext == EScript \/ EEvB \/ EEvE \/ EOp \/ EStart \/ EStop \/ EDrop \/ EKill \/ EMode \/ EGone \/ EFinish \/ EDone
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
