------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* How a source makes entries from events: convert one by one, put in      *)
(* order, a pass forward that adds the current values of the other series  *)
(* of a counter, a pass backward that adds the first later values. Checked *)
(* for all sequences of events against what Entries.tla requires.          *)
(***************************************************************************)
EXTENDS Entries, TLC
CONSTANTS Max, Times, Procs, What, Bug
VARIABLES evs, phase, n, res, cur, ok
vars == <<evs, phase, n, res, cur, ok>>
Nm(p, id) == CASE id = 0 -> [full |-> "f", cn |-> "f", cs |-> "count"]
               [] id = 1 -> [full |-> "c/x", cn |-> "c", cs |-> "x"]
               [] id = 2 -> [full |-> "c/y", cn |-> "c", cs |-> "y"]
               [] id = 3 -> [full |-> "d/x", cn |-> "d", cs |-> "x"]
               [] OTHER -> [full |-> "?", cn |-> "?", cs |-> "count"]
\* what: "f" a scope entry, 1..3 counters, "bad" something without thread, "other" of another domain
Made(i, t, p, w) == [t |-> t, p |-> p, tid |-> 7, k |-> CASE w = 0 -> "entry" [] w \in 1..3 -> "count" [] w = 8 -> "bad" [] OTHER -> "other", id |-> IF w > 3 THEN 0 ELSE w, v |-> i]
Init == /\ \E m \in 0..Max : \E f \in [1..m -> Times \X Procs \X What] : evs = [i \in 1..m |-> Made(i, f[i][1], f[i][2], f[i][3])]
        /\ phase = "convert" /\ n = 1 /\ res = <<>> /\ cur = <<>> /\ ok = FALSE
Entry(e) == [t |-> e.t, p |-> e.p, tid |-> e.tid, ph |-> Ph(e.k), s |-> Scope(e.k), name |-> IF e.k = "count" THEN Nm(e.p, e.id).cn ELSE Nm(e.p, e.id).full,
             args |-> IF e.k = "count" THEN {<<Nm(e.p, e.id).cs, e.v>>} ELSE {}]
Key(e) == IF Bug = "mixed" THEN <<0, e.name>> ELSE <<e.p, e.name>>
Keys(m) == {x[1] : x \in m}
Cur(e) == IF Key(e) \in DOMAIN cur THEN cur[Key(e)] ELSE {}
Put(e, m) == [k \in DOMAIN cur \cup {Key(e)} |-> IF k = Key(e) THEN m ELSE cur[k]]
Over(old, new) == {x \in old : x[1] \notin Keys(new)} \cup new      \* new wins
Convert ==
  /\ phase = "convert"
  /\ IF n > Len(evs) THEN phase' = "sort" /\ n' = 1 /\ UNCHANGED <<res, cur>>
     ELSE LET e == evs[n] IN
          IF e.k = "bad" /\ Bug = "abort" THEN phase' = "sort" /\ n' = 1 /\ UNCHANGED <<res, cur>>
          ELSE /\ n' = n + 1 /\ phase' = phase
               /\ IF e.k \in Kinds
                  THEN IF Bug = "early" /\ e.k = "count"      \* the values of the others as events arrive, not in order
                       THEN LET m == Over(Cur(Entry(e)), Entry(e).args) IN res' = Append(res, [Entry(e) EXCEPT !.args = m]) /\ cur' = Put(Entry(e), m)
                       ELSE res' = Append(res, Entry(e)) /\ cur' = cur
                  ELSE UNCHANGED <<res, cur>>
  /\ UNCHANGED <<evs, ok>>
Unstable(s) == [i \in DOMAIN s |-> LET r(k) == Cardinality({j \in DOMAIN s : s[j].t < s[k].t \/ (s[j].t = s[k].t /\ j > k)}) + 1 IN s[CHOOSE k \in DOMAIN s : r(k) = i]]
Sort == /\ phase = "sort" /\ n' = 1 /\ phase' = (IF Bug = "early" THEN "backward" ELSE "forward") /\ cur' = <<>> /\ UNCHANGED <<evs, ok>>
        /\ res' = IF Bug = "unsorted" THEN res ELSE IF Bug = "unstable" THEN Unstable(res) ELSE Ordered(res)
Forward == /\ phase = "forward" /\ UNCHANGED <<evs, ok>>
           /\ IF n > Len(res) \/ Bug = "nopast" THEN phase' = "backward" /\ n' = 1 /\ cur' = <<>> /\ UNCHANGED res
              ELSE /\ n' = n + 1 /\ phase' = phase
                   /\ IF res[n].ph = "C" THEN LET m == Over(Cur(res[n]), res[n].args) IN res' = [res EXCEPT ![n].args = m] /\ cur' = Put(res[n], m)
                      ELSE UNCHANGED <<res, cur>>
Backward == /\ phase = "backward" /\ UNCHANGED evs
            /\ IF n > Len(res) \/ Bug = "nofuture" THEN phase' = "done" /\ n' = 1 /\ cur' = <<>> /\ ok' = (res = Expected(evs, Nm)) /\ UNCHANGED res
               ELSE LET i == Len(res) + 1 - n IN
                    /\ n' = n + 1 /\ phase' = phase /\ ok' = ok
                    /\ IF res[i].ph = "C" THEN LET m == Over(Cur(res[i]), res[i].args) IN res' = [res EXCEPT ![i].args = m] /\ cur' = Put(res[i], m)
                       ELSE UNCHANGED <<res, cur>>
Next == Convert \/ Sort \/ Forward \/ Backward
Spec == Init /\ [][Next]_vars
Right == phase = "done" => ok
=============================================================================
