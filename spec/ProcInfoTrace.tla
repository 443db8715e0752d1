--------------------------- MODULE ProcInfoTrace ---------------------------
(* Names of the threads of real processes and what clients were told, against what was true while they asked. *)
EXTENDS TraceBase
VARIABLES poss,    \* <<process, thread id, name>>: possible now; "-" is no name
          pposs,   \* <<process, name>>: possible names of the process
          link,    \* <<process, number>> -> how it answers
          dead,    \* processes that are gone
          win      \* query -> what was possible at some time since it began
tvars == <<tr, l, poss, pposs, link, dead, win>>
TInit == TraceStart /\ poss = {} /\ pposs = {} /\ link = <<>> /\ dead = {} /\ win = <<>>
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Of(s, p, t) == {x \in s : x[1] = p /\ x[2] = t}
Now(ps, pp) == poss' = ps /\ pposs' = pp /\ win' = [q \in DOMAIN win |-> [t |-> win[q].t \cup ps, p |-> win[q].p \cup pp]]
EGo == Is("Go") /\ Now(poss, pposs \cup {<<p, "x">> : p \in 1..Ev.n}) /\ UNCHANGED <<link, dead>>
EStart == Is("ThStart") /\ Of(poss, Ev.p, Ev.t) \subseteq {<<Ev.p, Ev.t, "-">>} /\ Now(poss \cup {<<Ev.p, Ev.t, "-">>}, pposs) /\ UNCHANGED <<link, dead>>
ENameB == Is("NameB") /\ Now(poss \cup {<<Ev.p, Ev.t, Ev.n>>}, pposs) /\ UNCHANGED <<link, dead>>
ENameE == Is("NameE") /\ Now((poss \ Of(poss, Ev.p, Ev.t)) \cup {<<Ev.p, Ev.t, Ev.n>>}, pposs) /\ UNCHANGED <<link, dead>>
EExitB == Is("ExitB") /\ Now(poss \cup {<<Ev.p, Ev.t, "-">>}, pposs) /\ UNCHANGED <<link, dead>>
EExitE == Is("ExitE") /\ Now((poss \ Of(poss, Ev.p, Ev.t)) \cup {<<Ev.p, Ev.t, "-">>}, pposs) /\ UNCHANGED <<link, dead>>
EPNameB == Is("PNameB") /\ Now(poss, pposs \cup {<<Ev.p, Ev.n>>}) /\ UNCHANGED <<link, dead>>
EPNameE == Is("PNameE") /\ Now(poss, {x \in pposs : x[1] # Ev.p} \cup {<<Ev.p, Ev.n>>}) /\ UNCHANGED <<link, dead>>
ELink == Is("Link") /\ link' = Set(link, <<Ev.p, Ev.i>>, Ev.m) /\ UNCHANGED <<poss, pposs, dead, win>>
EDead == Is("Dead") /\ dead' = dead \cup {Ev.p} /\ UNCHANGED <<poss, pposs, link, win>>
EQB == Is("QB") /\ Ev.q \notin DOMAIN win /\ win' = Set(win, Ev.q, [t |-> poss, p |-> pposs]) /\ UNCHANGED <<poss, pposs, link, dead>>
Answers(p) == p \notin dead /\ \E x \in DOMAIN link : x[1] = p /\ link[x] = "ok"
Range(s) == {s[i] : i \in DOMAIN s}
\* Exactly the threads with a name, each once, each with one it had since the query began.
Threads(w, p, ts) ==
  LET mine == {x \in Range(ts) : x[1] = p} IN
  /\ Cardinality({x[2] : x \in mine}) = Cardinality({i \in DOMAIN ts : ts[i][1] = p})
  /\ \A x \in mine : x \in w.t
  /\ \A t \in {x[2] : x \in {y \in w.t : y[1] = p}} : t \notin {x[2] : x \in mine} => <<p, t, "-">> \in w.t
EQE == /\ Is("QE") /\ Ev.q \in DOMAIN win /\ win' = Del(win, Ev.q) /\ UNCHANGED <<poss, pposs, link, dead>>
       /\ LET w == win[Ev.q]
              who == {p \in {x[1] : x \in DOMAIN link} : Answers(p)} IN
          /\ Ev.odd = 0
          /\ {x[1] : x \in Range(Ev.ps)} = who /\ Len(Ev.ps) = Cardinality(who)
          /\ Range(Ev.ps) \subseteq w.p
          /\ {x[1] : x \in Range(Ev.ts)} \subseteq who
          /\ \A p \in who : Threads(w, p, Ev.ts)
EIE == /\ Is("IE") /\ Ev.q \in DOMAIN win /\ win' = Del(win, Ev.q) /\ UNCHANGED <<poss, pposs, link, dead>>
       /\ LET w == win[Ev.q]
              m == IF Ev.p \in dead /\ link[<<Ev.p, 1>>] = "ok" THEN "broken" ELSE link[<<Ev.p, 1>>] IN
          IF m \in {"ok", "none"} /\ Ev.p \notin dead THEN Ev.r = "ok" /\ Ev.pp = Ev.p /\ <<Ev.p, Ev.n>> \in w.p /\ Threads(w, Ev.p, Ev.ts)
          ELSE Ev.r \in {"none", "exc"}
EDone == Is("Done") /\ win = <<>> /\ UNCHANGED <<poss, pposs, link, dead, win>>
TNext == EGo \/ EStart \/ ENameB \/ ENameE \/ EExitB \/ EExitE \/ EPNameB \/ EPNameE \/ ELink \/ EDead \/ EQB \/ EQE \/ EIE \/ EDone
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
