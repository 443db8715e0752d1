---------------------------- MODULE SourceTrace ----------------------------
(* Entries that trace sources returned for their intervals, against the events that arrived in them. *)
EXTENDS TraceBase, Entries
VARIABLES sc,      \* the scenario: evs (all events), names (of process and id)
          rec,     \* recording sources
          got,     \* source -> what arrived in its interval: events
          mute     \* processes that do not tell their names
tvars == <<tr, l, sc, rec, got, mute>>
TInit == TraceStart /\ sc = <<>> /\ rec = {} /\ got = <<>> /\ mute = {}
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Nm(p, id) == IF p \in mute \/ p > Len(sc.names) \/ (p <= Len(sc.names) /\ sc.names[p][id].full = "")
             THEN LET u == "?" \o ToString(id) IN [full |-> u, cn |-> u, cs |-> sc.series] ELSE sc.names[p][id]
EScript == Is("Script") /\ sc = <<>> /\ sc' = Ev.sc /\ UNCHANGED <<rec, got, mute>>
\* events that arrive together
EEv == /\ Is("Ev") /\ UNCHANGED <<sc, rec, mute>>
       /\ got' = [s \in DOMAIN got |-> IF s \in rec THEN got[s] \o sc.evs[Ev.i] ELSE got[s]]
EStart == Is("Start") /\ rec' = rec \cup {Ev.s} /\ got' = Set(got, Ev.s, <<>>) /\ UNCHANGED <<sc, mute>>
EStop == Is("Stop") /\ rec' = rec \ {Ev.s} /\ UNCHANGED <<sc, got, mute>>
EDrop == Is("Drop") /\ rec' = rec \ {Ev.s} /\ got' = [s \in DOMAIN got \ {Ev.s} |-> got[s]] /\ UNCHANGED <<sc, mute>>
EKill == Is("Kill") /\ mute' = mute \cup {Ev.p} /\ UNCHANGED <<sc, rec, got>>
EMode == Is("Mode") /\ mute' = (IF Ev.m = "ok" THEN mute \ {Ev.p} ELSE mute \cup {Ev.p}) /\ UNCHANGED <<sc, rec, got>>
EGone == Is("Gone") /\ rec' = {} /\ got' = <<>> /\ UNCHANGED <<sc, mute>>     \* the provider
Range(s) == {s[i] : i \in DOMAIN s}
Entry(e) == [e EXCEPT !.args = Range(e.args)]
EFinish == /\ Is("Finish") /\ rec' = rec \ {Ev.s} /\ UNCHANGED <<sc, mute>>
           /\ LET want == IF Ev.s \in DOMAIN got THEN TLCEval(Expected(got[Ev.s], Nm)) ELSE <<>> IN
              /\ Len(Ev.res) = Len(want)
              /\ \A i \in DOMAIN want : Entry(Ev.res[i]) = want[i] /\ Len(Ev.res[i].args) = Cardinality(want[i].args)
           /\ got' = [s \in DOMAIN got \ {Ev.s} |-> got[s]]
EDone == Is("Done") /\ UNCHANGED <<sc, rec, got, mute>>
TNext == EScript \/ EEv \/ EStart \/ EStop \/ EDrop \/ EKill \/ EMode \/ EGone \/ EFinish \/ EDone
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
