------------------------------ MODULE Manager ------------------------------
(***************************************************************************)
(* The endpoint manager: rounds of cleaning up, discovering, connecting    *)
(* and questioning, while servers appear, vanish and become busy at any    *)
(* moment, also in the middle of a round.                                  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Servers, Offers, Factories, MaxInc, MaxRounds,
          NullCheck,  \* not getting a connection is handled
          Catch,      \* losing it while questioning is handled
          Retry,      \* a server that did not answer is asked again
          CleanDead   \* connections that died are dropped
VARIABLES live,    \* server -> its incarnation, 0 if it is not there
          last,    \* server -> last incarnation
          busy,    \* servers that currently do not answer
          held,    \* connections: [s, inc, eps]
          pc, todo, asking, crashed, rounds,
          stable,  \* servers that are up and answer since the round began
          seen     \* <<server, incarnation>> that lived at some moment of the round
vars == <<live, last, busy, held, pc, todo, asking, crashed, rounds, stable, seen>>

None == [s |-> 0, inc |-> 0]
Alive == {s \in Servers : live[s] # 0}
Init == /\ live = [s \in Servers |-> 0] /\ last = [s \in Servers |-> 0] /\ busy = {} /\ held = {} /\ pc = "idle" /\ todo = {}
        /\ asking = None /\ crashed = FALSE /\ rounds = 0 /\ stable = {} /\ seen = {}

\* ---- environment
mgr == <<held, pc, todo, asking, crashed, rounds>>
Appear(s) == /\ live[s] = 0 /\ last[s] < MaxInc /\ live' = [live EXCEPT ![s] = last[s] + 1] /\ last' = [last EXCEPT ![s] = @ + 1]
             /\ seen' = seen \cup {<<s, last[s] + 1>>} /\ stable' = stable \ {s} /\ UNCHANGED <<busy>> /\ UNCHANGED mgr
Vanish(s) == live[s] # 0 /\ live' = [live EXCEPT ![s] = 0] /\ stable' = stable \ {s} /\ UNCHANGED <<last, busy, seen>> /\ UNCHANGED mgr
Busy(s) == s \notin busy /\ busy' = busy \cup {s} /\ stable' = stable \ {s} /\ UNCHANGED <<live, last, seen>> /\ UNCHANGED mgr
Free(s) == s \in busy /\ busy' = busy \ {s} /\ UNCHANGED <<live, last, seen, stable>> /\ UNCHANGED mgr
env == <<live, last, busy>>

\* ---- a round
Begin == /\ pc = "idle" /\ ~crashed /\ rounds < MaxRounds /\ pc' = "clean" /\ rounds' = rounds + 1
         /\ stable' = {s \in Alive : s \notin busy} /\ seen' = {<<s, live[s]>> : s \in Alive}
         /\ UNCHANGED <<held, todo, asking, crashed>> /\ UNCHANGED env
Clean == /\ pc = "clean" /\ pc' = "discover"
         /\ held' = IF CleanDead THEN {h \in held : live[h.s] = h.inc} ELSE held
         /\ UNCHANGED <<todo, asking, crashed, rounds, stable, seen>> /\ UNCHANGED env
Discover == /\ pc = "discover" /\ pc' = "connect" /\ todo' = Alive
            /\ UNCHANGED <<held, asking, crashed, rounds, stable, seen>> /\ UNCHANGED env
Connect(s) ==
  /\ pc = "connect" /\ s \in todo /\ asking = None /\ ~crashed /\ todo' = todo \ {s}
  /\ LET mine == {h \in held : h.s = s} IN
     IF mine # {}
     THEN /\ asking' = IF Retry /\ \E h \in mine : h.eps = {} THEN [s |-> s, inc |-> (CHOOSE h \in mine : TRUE).inc] ELSE None
          /\ crashed' = crashed
     ELSE IF live[s] # 0 THEN asking' = [s |-> s, inc |-> live[s]] /\ crashed' = crashed
     ELSE asking' = None /\ crashed' = ~NullCheck
  /\ UNCHANGED <<held, pc, rounds, stable, seen>> /\ UNCHANGED env
Ask ==
  /\ asking # None /\ ~crashed /\ asking' = None
  /\ LET s == asking.s
         others == {h \in held : h.s # s}
     IN IF live[s] # asking.inc THEN crashed' = ~Catch /\ held' = held
        ELSE /\ crashed' = crashed
             /\ held' = others \cup {[s |-> s, inc |-> asking.inc, eps |-> IF s \in busy THEN {} ELSE Offers[s] \cap Factories]}
  /\ UNCHANGED <<pc, todo, rounds, stable, seen>> /\ UNCHANGED env
Finish == pc = "connect" /\ todo = {} /\ asking = None /\ ~crashed /\ pc' = "done"
          /\ UNCHANGED <<held, todo, asking, crashed, rounds, stable, seen>> /\ UNCHANGED env
Idle == pc = "done" /\ pc' = "idle" /\ UNCHANGED <<held, todo, asking, crashed, rounds, stable, seen>> /\ UNCHANGED env

Next == (\E s \in Servers : Appear(s) \/ Vanish(s) \/ Busy(s) \/ Free(s) \/ Connect(s)) \/ Begin \/ Clean \/ Discover \/ Ask \/ Finish \/ Idle
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Clean) /\ WF_vars(Discover) /\ WF_vars(Ask) /\ WF_vars(Finish) /\ WF_vars(Idle) /\ \A s \in Servers : WF_vars(Connect(s))
----------------------------------------------------------------------------
NeverCrashes == ~crashed
\* One and the right connection for each server that was there all the time, none to servers that were not there at all.
Mirror == pc = "done" =>
  /\ \A s \in stable : {h \in held : h.s = s} = {[s |-> s, inc |-> live[s], eps |-> Offers[s] \cap Factories]}
  /\ \A h \in held : <<h.s, h.inc>> \in seen
OnePer == \A h, k \in held : h.s = k.s => h = k
Ends == pc # "idle" ~> pc = "done"
=============================================================================
