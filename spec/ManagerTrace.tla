---------------------------- MODULE ManagerTrace ----------------------------
(* Validates recorded rounds of the endpoint manager: Mirror of Manager.tla, as far as it can be observed. *)
EXTENDS TraceBase
VARIABLES live,   \* server -> [inc, offers, facts]: facts are the factories known when it appeared
          busy, facts, stable, seen, held
tvars == <<tr, l, live, busy, facts, stable, seen, held>>
TInit == TraceStart /\ live = <<>> /\ busy = {} /\ facts = {"introspect"} /\ stable = {} /\ seen = {} /\ held = {}
Range(s) == {s[i] : i \in DOMAIN s}
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

EFact == Is("Fact") /\ facts' = facts \cup {Ev.n} /\ UNCHANGED <<live, busy, stable, seen, held>>
EAppear == /\ Is("Appear") /\ live' = Set(live, Ev.s, [inc |-> Ev.inc, offers |-> Range(Ev.eps) \cup {"introspect"}, facts |-> facts])
           /\ seen' = seen \cup {<<Ev.s, Ev.inc>>} /\ stable' = stable \ {Ev.s} /\ UNCHANGED <<busy, facts, held>>
EVanish == Is("Vanish") /\ live' = Del(live, Ev.s) /\ stable' = stable \ {Ev.s} /\ UNCHANGED <<busy, facts, seen, held>>
EBusy == Is("Busy") /\ busy' = busy \cup {Ev.s} /\ stable' = stable \ {Ev.s} /\ UNCHANGED <<live, facts, seen, held>>
EFree == Is("Free") /\ busy' = busy \ {Ev.s} /\ UNCHANGED <<live, facts, stable, seen, held>>
ERoundB == /\ Is("RoundB") /\ stable' = DOMAIN live \ busy /\ seen' = {<<s, live[s].inc>> : s \in DOMAIN live}
           /\ UNCHANGED <<live, busy, facts, held>>
Of(s) == {k \in DOMAIN Ev.held : Ev.held[k].s = s}
ERoundE ==
  /\ Is("RoundE") /\ UNCHANGED <<live, busy, facts, stable, seen>>
  /\ \A s \in stable :
       /\ Cardinality(Of(s)) = 1
       /\ \A k \in Of(s) : LET h == Ev.held[k] IN
            /\ h.inc = live[s].inc /\ h.up = TRUE
            /\ live[s].offers \cap live[s].facts \subseteq Range(h.eps)
            /\ Range(h.eps) \subseteq live[s].offers \cap facts
  /\ \A k \in DOMAIN Ev.held : LET h == Ev.held[k] IN
       /\ Cardinality({j \in Of(h.s) : Ev.held[j].inc # 0}) <= 1      \* one that died in this round may still be there
       /\ <<h.s, h.inc>> \in seen \/ (h.inc = 0 /\ h.s \notin stable /\ \E y \in seen : y[1] = h.s)
       /\ Range(h.eps) \subseteq facts
  /\ Ev.open # 0 => Ev.open - 1 = Len(Ev.held)      \* no other connections are left open
  /\ held' = {Ev.held[k] : k \in DOMAIN Ev.held}
\* A broadcast reaches the endpoints the manager built for this server, once.
EBcast == /\ Is("Bcast") /\ UNCHANGED <<live, busy, facts, stable, seen, held>>
          /\ Ev.s \in stable => Ev.n = Cardinality({h \in held : h.s = Ev.s /\ Ev.ep \in Range(h.eps)})
EDone == Is("Done") /\ UNCHANGED <<live, busy, facts, stable, seen, held>>
TNext == EFact \/ EAppear \/ EVanish \/ EBusy \/ EFree \/ ERoundB \/ ERoundE \/ EBcast \/ EDone
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
