---------------------------- MODULE MappingTrace ----------------------------
(* Ids recorded by trace macros in real processes and what they resolve to. Names are given in hexadecimal. *)
EXTENDS TraceBase
VARIABLES begun,   \* <<process, full name>>: macros with this name have begun to execute
          know,    \* <<process, id>> -> [n: full name, c: counter?, cn, cs: counter's name and series]
          link, dead, win
tvars == <<tr, l, begun, know, link, dead, win>>
TInit == TraceStart /\ begun = {} /\ know = <<>> /\ link = <<>> /\ dead = {} /\ win = <<>>
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Range(s) == {s[i] : i \in DOMAIN s}
\* what each macro records
Kinds(k) == CASE k \in {"raii", "pretty", "pair", "cross"} -> <<"entry", "exit">>
              [] k = "markg" -> <<"markg">> [] k = "markp" -> <<"markp">> [] k = "markt" -> <<"markt">>
              [] OTHER -> <<"count">>
IsCount(k) == k \in {"count", "series", "series2"}
EGo == Is("Go") /\ UNCHANGED <<begun, know, link, dead, win>>
EB == Is("ExecB") /\ begun' = begun \cup {<<Ev.p, Ev.n>>} /\ UNCHANGED <<know, link, dead, win>>
EE == /\ Is("ExecE")
      /\ Len(Ev.rec) = Len(Kinds(Ev.k))
      /\ \A i \in DOMAIN Ev.rec : /\ Ev.rec[i][1] = Kinds(Ev.k)[i]
                                  /\ Ev.rec[i][2] = Ev.rec[1][2]                       \* the same id at entry and exit
                                  /\ IsCount(Ev.k) => Ev.rec[i][3] = Ev.v              \* the value given
      /\ LET key == <<Ev.p, Ev.rec[1][2]>>
             e == [n |-> Ev.n, c |-> IsCount(Ev.k), cn |-> Ev.cn, cs |-> Ev.cs] IN
         /\ key \in DOMAIN know => know[key].n = Ev.n                                  \* one id, one name
         /\ know' = IF key \in DOMAIN know THEN know ELSE Set(know, key, e)
      /\ UNCHANGED <<begun, link, dead, win>>
ELink == Is("Link") /\ link' = Set(link, <<Ev.p, Ev.i>>, Ev.m) /\ UNCHANGED <<begun, know, dead, win>>
EDead == Is("Dead") /\ dead' = dead \cup {Ev.p} /\ UNCHANGED <<begun, know, link, win>>
EQB == Is("QB") /\ Ev.q \notin DOMAIN win /\ win' = Set(win, Ev.q, DOMAIN know) /\ UNCHANGED <<begun, know, link, dead>>
Answers(p) == p \notin dead /\ \E x \in DOMAIN link : x[1] = p /\ link[x] = "ok"
\* r: <<process, id, name, placeholder?, counter's name, series>>
RightName(r) == LET key == <<r[1], r[2]>> IN
                IF key \in DOMAIN know THEN r[3] = know[key].n /\ (know[key].c => r[5] = know[key].cn /\ r[6] = know[key].cs)
                ELSE <<r[1], r[3]>> \in begun
Resolved(q, who) ==
  /\ \A r \in Range(Ev.res) : r[4] = 1 \/ RightName(r)
  /\ \A key \in win[q] : key[1] \in who => \E r \in Range(Ev.res) : r[1] = key[1] /\ r[2] = key[2] /\ r[4] = 0
EQE == /\ Is("QE") /\ Ev.q \in DOMAIN win /\ win' = Del(win, Ev.q) /\ UNCHANGED <<begun, know, link, dead>>
       /\ Resolved(Ev.q, {p \in {x[1] : x \in DOMAIN link} : Answers(p)})
EDE == /\ Is("DE") /\ Ev.q \in DOMAIN win /\ win' = Del(win, Ev.q) /\ UNCHANGED <<begun, know, link, dead>>
       /\ IF link[<<Ev.p, 1>>] \in {"ok", "none"} /\ Ev.p \notin dead THEN Ev.r = "ok" /\ Resolved(Ev.q, {Ev.p})
          ELSE Ev.r = "exc" \/ (Ev.r = "ok" /\ Resolved(Ev.q, {}))
EDone == Is("Done") /\ win = <<>> /\ UNCHANGED <<begun, know, link, dead, win>>
TNext == EGo \/ EB \/ EE \/ ELink \/ EDead \/ EQB \/ EQE \/ EDE \/ EDone
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
