-------------------------- MODULE TraceConfigTrace --------------------------
(* Validates recorded histories of trace points, configuration changes and remote commands: every operation has a begin and an end,
   it takes effect somewhere between. Truth of TraceConfig.tla, as far as it can be observed. *)
EXTENDS TraceBase
VARIABLES p, t,      \* the states: process; thread id -> "no" (not registered), "on", "off"
          stk,       \* thread id -> what the scopes it is in have to restore
          pend       \* operations under way: key -> record
tvars == <<tr, l, p, t, stk, pend>>
TInit == TraceStart /\ p = TRUE /\ t = <<>> /\ stk = <<>> /\ pend = <<>>
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Reg == {i \in DOMAIN t : t[i] # "no"}
W(v) == IF v THEN "on" ELSE "off"
V(i) == t[i] = "on"
New(i, op) == [op |-> op, i |-> i, lin |-> FALSE, old |-> FALSE, isp |-> FALSE, v |-> FALSE, seenP |-> {p}, seenT |-> {<<x, V(x)>> : x \in Reg},
               must |-> Reg, may |-> Reg, set |-> <<>>, sp |-> FALSE]
\* Everything that is under way can see a new state.
SeeP(f, v) == [k \in DOMAIN f |-> [f[k] EXCEPT !.seenP = @ \cup {v}]]
SeeT(f, i, v) == [k \in DOMAIN f |-> [f[k] EXCEPT !.seenT = @ \cup {<<i, v>>}, !.may = @ \cup {i}]]
SeeGone(f, i) == [k \in DOMAIN f |-> [f[k] EXCEPT !.must = @ \ {i}]]
Begin(i, r) == i \notin DOMAIN pend /\ pend' = Set(pend, i, r) /\ UNCHANGED <<p, t, stk>>
Now(i, op) == i \in DOMAIN pend /\ pend[i].op = op

EStart == Is("Start") /\ t' = Set(t, Ev.t, "no") /\ stk' = Set(stk, Ev.t, <<>>) /\ UNCHANGED <<p, pend>>
EExitB == Is("ExitB") /\ Begin(Ev.t, New(Ev.t, "exit"))
EExitE == Is("ExitE") /\ Now(Ev.t, "exit") /\ pend[Ev.t].lin /\ pend' = Del(pend, Ev.t) /\ UNCHANGED <<p, t, stk>>
ETpB == Is("TpB") /\ Begin(Ev.t, New(Ev.t, "tp"))
ETpE == /\ Is("TpE") /\ Now(Ev.t, "tp") /\ t[Ev.t] # "no" /\ pend' = Del(pend, Ev.t) /\ UNCHANGED <<p, t, stk>>
        /\ LET r == pend[Ev.t] IN \/ Ev.rec = 1 /\ TRUE \in r.seenP /\ <<Ev.t, TRUE>> \in r.seenT
                                  \/ Ev.rec = 0 /\ (FALSE \in r.seenP \/ <<Ev.t, FALSE>> \in r.seenT)
ESetB == Is("SetB") /\ Begin(Ev.t, [New(Ev.t, "set") EXCEPT !.isp = Ev.p, !.v = Ev.v])
ESetE == Is("SetE") /\ Now(Ev.t, "set") /\ pend[Ev.t].lin /\ pend[Ev.t].old = Ev.old /\ pend' = Del(pend, Ev.t) /\ UNCHANGED <<p, t, stk>>
EGetB == Is("GetB") /\ Begin(Ev.t, [New(Ev.t, "get") EXCEPT !.isp = Ev.p])
EGetE == /\ Is("GetE") /\ Now(Ev.t, "get") /\ pend' = Del(pend, Ev.t) /\ UNCHANGED <<p, t, stk>>
         /\ LET r == pend[Ev.t] IN IF r.isp THEN Ev.v \in r.seenP ELSE t[Ev.t] # "no" /\ <<Ev.t, Ev.v>> \in r.seenT
EPushB == Is("PushB") /\ Begin(Ev.t, [New(Ev.t, "push") EXCEPT !.isp = Ev.p, !.v = Ev.v])
EPushE == Is("PushE") /\ Now(Ev.t, "push") /\ pend[Ev.t].lin /\ pend' = Del(pend, Ev.t) /\ UNCHANGED <<p, t, stk>>
EPopB == Is("PopB") /\ Begin(Ev.t, New(Ev.t, "pop"))
EPopE == Is("PopE") /\ Now(Ev.t, "pop") /\ pend[Ev.t].lin /\ pend' = Del(pend, Ev.t) /\ UNCHANGED <<p, t, stk>>
ERB == /\ Is("RB")
       /\ LET s == [i \in {Ev.set[k].t : k \in DOMAIN Ev.set} |-> Ev.set[CHOOSE k \in DOMAIN Ev.set : Ev.set[k].t = i].v] IN
          Begin(Ev.r, [New(Ev.r, "remote") EXCEPT !.sp = Ev.sp, !.isp = Ev.sp, !.v = Ev.p, !.set = s])
ERE == /\ Is("RE") /\ Now(Ev.r, "remote") /\ pend' = Del(pend, Ev.r) /\ UNCHANGED <<p, t, stk>>
       /\ LET r == pend[Ev.r]
              m == {Ev.map[k].t : k \in DOMAIN Ev.map} IN
          /\ Ev.ok = TRUE /\ ~r.sp                                   \* the process state was stored if it had to be
          /\ DOMAIN r.set \cap r.must = {}                           \* and so were those of the threads that are there
          /\ Ev.p \in r.seenP
          /\ Cardinality(m) = Len(Ev.map) /\ r.must \subseteq m /\ m \subseteq r.may
          /\ \A k \in DOMAIN Ev.map : Ev.map[k].t \in r.must => <<Ev.map[k].t, Ev.map[k].v>> \in r.seenT
EDone == Is("Done") /\ UNCHANGED <<p, t, stk, pend>>

\* ------------------------------------------------------------------------------------- where the operations take effect
Hidden == l' = l /\ tr' = tr /\ More
Lin(f, i, old) == [f EXCEPT ![i].lin = TRUE, ![i].old = old]
\* the first use of a thread's own state makes it known, enabled
Register == /\ Hidden
            /\ \E i \in DOMAIN pend : /\ pend[i].i = i /\ i \in DOMAIN t /\ t[i] = "no"
                                      /\ pend[i].op \in {"tp", "set", "get", "push"} /\ (pend[i].op \in {"set", "get", "push"} => ~pend[i].isp)
                                      /\ t' = [t EXCEPT ![i] = "on"] /\ pend' = SeeT(pend, i, TRUE)
            /\ UNCHANGED <<p, stk>>
Leave == /\ Hidden
         /\ \E i \in DOMAIN pend : /\ pend[i].op = "exit" /\ ~pend[i].lin
                                   /\ t' = [t EXCEPT ![i] = "no"] /\ pend' = SeeGone(Lin(pend, i, FALSE), i)
         /\ UNCHANGED <<p, stk>>
Change == /\ Hidden
          /\ \E i \in DOMAIN pend :
               /\ pend[i].op \in {"set", "push"} /\ ~pend[i].lin
               /\ IF pend[i].isp THEN p' = pend[i].v /\ pend' = SeeP(Lin(pend, i, p), pend[i].v) /\ t' = t
                  ELSE t[i] # "no" /\ t' = [t EXCEPT ![i] = W(pend[i].v)] /\ pend' = SeeT(Lin(pend, i, V(i)), i, pend[i].v) /\ p' = p
               /\ stk' = IF pend[i].op = "set" THEN stk
                         ELSE [stk EXCEPT ![i] = Append(@, [isp |-> pend[i].isp, v |-> IF pend[i].isp THEN p ELSE V(i)])]
Restore == /\ Hidden
           /\ \E i \in DOMAIN pend :
                /\ pend[i].op = "pop" /\ ~pend[i].lin /\ stk[i] # <<>>
                /\ LET s == stk[i][Len(stk[i])] IN
                   /\ stk' = [stk EXCEPT ![i] = SubSeq(@, 1, Len(@) - 1)]
                   /\ IF s.isp THEN p' = s.v /\ t' = t /\ pend' = SeeP(Lin(pend, i, FALSE), s.v)
                      ELSE t' = [t EXCEPT ![i] = W(s.v)] /\ p' = p /\ pend' = SeeT(Lin(pend, i, FALSE), i, s.v)
RStoreP == /\ Hidden
           /\ \E r \in DOMAIN pend : /\ pend[r].op = "remote" /\ pend[r].sp
                                     /\ p' = pend[r].v
                                     /\ pend' = [SeeP(pend, pend[r].v) EXCEPT ![r].sp = FALSE, ![r].seenP = {pend[r].v}]
           /\ UNCHANGED <<t, stk>>
RStoreT == /\ Hidden
           /\ \E r \in DOMAIN pend : /\ pend[r].op = "remote"
                /\ \E i \in DOMAIN pend[r].set :
                     LET v == pend[r].set[i] IN
                     /\ i \in Reg /\ t' = [t EXCEPT ![i] = W(v)]
                     /\ pend' = [SeeT(pend, i, v) EXCEPT ![r].set = Del(@, i), ![r].seenT = {x \in @ : x[1] # i} \cup {<<i, v>>}]
           /\ UNCHANGED <<p, stk>>
TNext == \/ EStart \/ EExitB \/ EExitE \/ ETpB \/ ETpE \/ ESetB \/ ESetE \/ EGetB \/ EGetE \/ EPushB \/ EPushE \/ EPopB \/ EPopE \/ ERB \/ ERE \/ EDone
         \/ Register \/ Leave \/ Change \/ Restore \/ RStoreP \/ RStoreT
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
