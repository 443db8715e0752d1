------------------------------ MODULE Entries ------------------------------
(***************************************************************************)
(* What a trace source has to return for the events of one interval.       *)
(* An event is [t, p, tid, k, id, v]: time, process, thread, kind, id and  *)
(* value; a kind outside Kinds gives no entry. Name(p, id) is              *)
(* [full, cn, cs]: the resolved name, and as counter and series.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Kinds == {"entry", "exit", "global", "process", "thread", "count"}
Ph(k) == CASE k = "entry" -> "B" [] k = "exit" -> "E" [] k = "count" -> "C" [] OTHER -> "i"
Scope(k) == CASE k = "global" -> "g" [] k = "process" -> "p" [] k = "thread" -> "t" [] OTHER -> ""
Valid(evs) == SelectSeq(evs, LAMBDA e : e.k \in Kinds)
\* in the order of time, equal times as they came
Ordered(evs) == LET n == SortSeq([i \in DOMAIN evs |-> i], LAMBDA i, j : evs[i].t < evs[j].t \/ (evs[i].t = evs[j].t /\ i < j)) IN [i \in DOMAIN evs |-> evs[n[i]]]
MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x
MinOf(s) == CHOOSE x \in s : \A y \in s : y >= x
\* values of all series of the counter of the i-th event at its time: the last one until then, or else the first one after
\* (nm: names of the events; of: which events belong to each counter of each process)
Args(o, nm, i, of) ==
  IF o[i].k # "count" THEN {}
  ELSE LET mine == of[<<o[i].p, nm[i].cn>>] IN
       {LET js == {j \in mine : nm[j].cs = x}
            past == {j \in js : j <= i} IN
        <<x, o[IF past # {} THEN MaxOf(past) ELSE MinOf(js)].v>> : x \in {nm[j].cs : j \in mine}}
Expected(evs, Name(_, _)) ==
  LET o == TLCEval(Ordered(Valid(evs)))
      nm == TLCEval([i \in DOMAIN o |-> Name(o[i].p, o[i].id)])
      counts == {i \in DOMAIN o : o[i].k = "count"}
      of == TLCEval([c \in {<<o[i].p, nm[i].cn>> : i \in counts} |-> {j \in counts : o[j].p = c[1] /\ nm[j].cn = c[2]}]) IN
  [i \in DOMAIN o |-> [t |-> o[i].t, p |-> o[i].p, tid |-> o[i].tid, ph |-> Ph(o[i].k), s |-> Scope(o[i].k),
                       name |-> IF o[i].k = "count" THEN nm[i].cn ELSE nm[i].full,
                       args |-> Args(o, nm, i, of)]]
=============================================================================
