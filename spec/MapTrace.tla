------------------------------ MODULE MapTrace ------------------------------
(* Histories of a map used by several threads: is there an order, consistent with real time, in which they could have been executed one at a time? *)
EXTENDS TraceBase
VARIABLES m, pend, res
tvars == <<tr, l, m, pend, res>>
TInit == TraceStart /\ m = <<>> /\ pend = <<>> /\ res = <<>>
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
EStart == Is("Start") /\ UNCHANGED <<m, pend, res>>
EB == Is("B") /\ Ev.t \notin DOMAIN pend \cup DOMAIN res /\ pend' = Set(pend, Ev.t, [op |-> Ev.op, k |-> Ev.k, v |-> Ev.v]) /\ UNCHANGED <<m, res>>
EE == /\ Is("E") /\ Ev.t \in DOMAIN res /\ UNCHANGED <<m, pend>> /\ res' = Del(res, Ev.t)
      /\ LET r == res[Ev.t] IN
         IF r.op = "map" THEN /\ {Ev.r[i] : i \in DOMAIN Ev.r} = {<<k, r.m[k]>> : k \in DOMAIN r.m} /\ Len(Ev.r) = Cardinality(DOMAIN r.m)
         ELSE Ev.r = r.n
Do == /\ More /\ l' = l /\ tr' = tr
      /\ \E t \in DOMAIN pend :
           LET o == pend[t] IN
           /\ pend' = Del(pend, t)
           /\ m' = CASE o.op = "insert" -> Set(m, o.k, o.v) [] o.op = "erase" -> Del(m, o.k) [] o.op = "clear" -> <<>> [] OTHER -> m
           /\ res' = Set(res, t, [op |-> o.op, m |-> m,
                                  n |-> CASE o.op = "exists" -> (IF o.k \in DOMAIN m THEN 1 ELSE 0)
                                          [] o.op = "value" -> (IF o.k \in DOMAIN m THEN m[o.k] ELSE 0)
                                          [] OTHER -> 0])
TNext == EStart \/ EB \/ EE \/ Do
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
